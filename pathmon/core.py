"""The monitoring core: verdicts, event counters, coverage observation, workload driver, replay.

A property supplies  gen(rng) -> case  (plain nested data) and  check(case, mon), which drives the real code
and hands what it observed to the oracle clauses  mon.expect(...).  The verdict is three-valued:
 - violated: an expectation failed, or the code under test raised where it must answer (exit 1),
 - held on what was observed (exit 0),
 - inconclusive: a clause that decides the property was never reached (exit 3).
"""
import collections
import hashlib
import json
import os
import random
import signal
import sys
import time
import traceback
from decimal import Decimal
from fractions import Fraction

from . import repo

PKG = os.path.join(repo.REPO, "PathLib") + os.sep
CPU_PER_CASE = 20       # seconds of CPU time, after which a case is run again with a bound on its steps
STEPS_PER_CASE = 30_000_000  # executed lines of PathLib; ordinary cases need less than 1,000,000


class Violation(Exception):
    def __init__(self, clause, detail):
        Exception.__init__(self, clause, detail)
        self.clause, self.detail = clause, detail


class Skip(Exception):
    """The case is outside of the domain of the property."""


class Slow(BaseException):
    pass


class Endless(BaseException):
    pass


class Property(object):
    def __init__(self, id, gen, check, rule, need, quick=1500, thorough=40000, mutations=0.3, install=None, known=None,
                 assumptions=()):
        self.id, self.gen, self.check, self.rule = id, gen, check, rule
        self.need = list(need)
        self.quick, self.thorough, self.mutations = quick, thorough, mutations
        self.install = install    # puts online monitors on the code under test: install(mon)
        self.known = known        # known(violation, case) -> key of a known finding, or None
        self.assumptions = list(assumptions)


class Monitor(object):
    """Counts what was observed and decides the clauses."""

    def __init__(self):
        self.events = collections.Counter()   # clause -> times decided
        self.skips = collections.Counter()    # reason -> cases outside of the domain
        self.notes = collections.Counter()    # other things worth reporting
        self.states = set()                   # signatures of what was seen, for diversity
        self.worst = {}                       # clause -> largest observed/allowed ratio
        self.pending = None

    def expect(self, condition, clause, **detail):
        self.events[clause] += 1
        if not condition: raise Violation(clause, detail)

    def within(self, error, allowed, clause, **detail):
        """error <= allowed, keeping the worst ratio. A NaN error is a violation."""
        self.events[clause] += 1
        try:
            ok = error <= allowed
        except TypeError:
            ok = False
        if not ok:
            raise Violation(clause, dict(detail, error=error, allowed=allowed))
        if allowed:
            ratio = float(error / allowed)
            if ratio > self.worst.get(clause, 0): self.worst[clause] = ratio

    def state(self, *signature):
        self.states.add(signature)

    def note(self, what):
        self.notes[what] += 1

    def skip(self, reason):
        self.skips[reason] += 1
        raise Skip(reason)

    def need(self, condition, reason):
        if not condition: self.skip(reason)

    def defer(self, violation):
        """For online monitors, whose exception the code under test could swallow."""
        if self.pending is None: self.pending = violation


class Coverage(object):
    """Observes which lines and branches of PathLib the workload reaches (sys.monitoring, so nearly free)."""
    TOOL = 3

    def __init__(self):
        self.lines, self.branches, self.total = set(), set(), 0
        self.codes = set()
        mon = sys.monitoring
        mon.use_tool_id(self.TOOL, "pathmon")
        mon.register_callback(self.TOOL, mon.events.LINE, self._line)
        mon.register_callback(self.TOOL, mon.events.BRANCH, self._branch)
        self._ends = collections.defaultdict(set)
        for module in [m for n, m in list(sys.modules.items()) if n.split(".")[0] == "PathLib" and m]:
            self._module(module)

    def _module(self, module):
        seen = set()

        def walk(code):
            if code in self.codes or not code.co_filename.startswith(PKG): return
            self.codes.add(code)
            self.total += len({line for _, _, line in code.co_lines() if line})
            sys.monitoring.set_local_events(self.TOOL, code, sys.monitoring.events.LINE | sys.monitoring.events.BRANCH)
            for const in code.co_consts:
                if hasattr(const, "co_code"): walk(const)

        def visit(value):
            if id(value) in seen: return
            seen.add(id(value))
            for name in ("fget", "fset", "__func__", "__wrapped__"):
                inner = getattr(value, name, None)
                if inner is not None: visit(inner)
            if hasattr(value, "__code__"): walk(value.__code__)
            elif isinstance(value, type) and (value.__module__ or "").startswith("PathLib"):
                for member in vars(value).values(): visit(member)

        for value in list(vars(module).values()): visit(value)

    def _line(self, code, line):
        self.lines.add((code.co_filename, line))
        return sys.monitoring.DISABLE

    def _branch(self, code, offset, destination):
        ends = self._ends[code, offset]
        if destination not in ends:
            ends.add(destination)
            self.branches.add((code, offset, destination))
        if len(ends) > 1: return sys.monitoring.DISABLE

    @property
    def size(self):
        return len(self.lines) + len(self.branches)


def countedRun(fn, limit=STEPS_PER_CASE):
    """Run fn, and raise Endless after limit lines of PathLib."""
    mon, tool, steps = sys.monitoring, 4, 0

    def line(code, number):
        nonlocal steps
        if not code.co_filename.startswith(PKG): return mon.DISABLE
        steps += 1
        if steps > limit: raise Endless()

    mon.use_tool_id(tool, "pathmon-steps")
    mon.register_callback(tool, mon.events.LINE, line)
    mon.set_events(tool, mon.events.LINE)
    try:
        return fn()
    finally:
        mon.set_events(tool, 0)
        mon.free_tool_id(tool)


NAMES = {"Decimal": Decimal, "Fraction": Fraction, "inf": float("inf"), "nan": float("nan")}


def parse(text):
    return eval(text, {"__builtins__": {}}, NAMES)  # a case that we wrote with repr()


def short(value, limit=1500):
    text = repr(value)
    return text if len(text) <= limit else text[:limit] + "..."


def leaves(value, path=()):
    if isinstance(value, dict):
        for k, v in value.items(): yield from leaves(v, path + (k,))
    elif isinstance(value, (list, tuple)):
        for i, v in enumerate(value): yield from leaves(v, path + (i,))
    elif isinstance(value, (int, float, Fraction)) and not isinstance(value, bool):
        yield path, value


def replaced(value, path, new):
    if not path: return new
    k = path[0]
    if isinstance(value, dict): return {a: replaced(v, path[1:], new) if a == k else v for a, v in value.items()}
    items = [replaced(v, path[1:], new) if i == k else v for i, v in enumerate(value)]
    return tuple(items) if isinstance(value, tuple) else items


def mutate(case, rng, pool):
    """A neighbour of case: some of its numbers tied to others, zeroed, nudged, or taken from the pool."""
    found = list(leaves(case))
    if not found: return case
    for _ in range(rng.choice((1, 1, 1, 2, 3, 5))):
        path, value = rng.choice(found)
        kind = rng.randrange(9)
        if kind <= 1: new = rng.choice(found)[1]
        elif kind == 2: new = 0
        elif kind == 3: new = -value
        elif kind == 4: new = value + rng.choice((-1, 1))
        elif kind == 5: new = rng.choice(pool)
        elif kind == 6: new = round(value) if abs(value) < 1e15 else value
        elif kind == 7: new = value * rng.choice((2, 3, 10)) if isinstance(value, int) else value * rng.choice((.5, 2, 10, .1, 1 + 1e-9))
        else: new = value + (rng.randint(-100, 100) if isinstance(value, int) else rng.uniform(-1, 1))
        if isinstance(value, int) and isinstance(new, float):
            new = int(new) if abs(new) < 1e15 else value
        elif isinstance(value, Fraction) and not isinstance(new, Fraction):
            new = Fraction(new)
        elif isinstance(value, float) and isinstance(new, Fraction):
            new = float(new)
        case = replaced(case, path, new)
    return case


class Shard(object):
    def __init__(self, prop, tier, seed, index, cases, seconds):
        self.prop, self.tier, self.seed, self.index, self.cases, self.seconds = prop, tier, seed, index, cases, seconds
        self.rng = random.Random(f"{prop.id}/{seed}/{index}")
        self.mon = Monitor()
        self.distinct = set()
        self.samples = []
        self.evaluations = 0
        self.known = collections.Counter()
        constants = [c for c in repo.harvest()]
        self.pool = constants + [c + d for c in constants if isinstance(c, int) for d in (-1, 1)] + [-c for c in constants]

    def once(self, case):
        """Run one case. Returns a Violation, or None."""
        self.mon.pending = None
        try:
            self.prop.check(case, self.mon)
        except Violation as v:
            return v
        except Skip:
            pass
        except (Slow, Endless, KeyboardInterrupt):
            raise
        except BaseException as e:
            where = [f"{os.path.basename(f.filename)}:{f.lineno}" for f in traceback.extract_tb(e.__traceback__)]
            return Violation("answers", {"raised": f"{type(e).__name__}: {e}", "where": where[-6:]})
        return self.mon.pending

    def guarded(self, case):
        def alarm(signum, frame): raise Slow()

        signal.signal(signal.SIGPROF, alarm)
        signal.setitimer(signal.ITIMER_PROF, CPU_PER_CASE, 1)
        try:
            return self.once(case)
        except Slow:
            signal.setitimer(signal.ITIMER_PROF, 0)
            try:
                return countedRun(lambda: self.once(case))
            except Endless:
                return Violation("terminates", {"steps": STEPS_PER_CASE})
        finally:
            signal.setitimer(signal.ITIMER_PROF, 0)

    def next(self, corpus, previous):
        r = self.rng.random()
        if r < self.prop.mutations:
            base = self.rng.choice(corpus) if corpus and r < self.prop.mutations / 2 else previous
            if base is not None: return mutate(base, self.rng, self.pool)
        return self.prop.gen(self.rng)

    def run(self, until=None):
        start = time.monotonic()
        if self.prop.install: self.prop.install(self.mon)
        coverage = self.coverage = Coverage()
        corpus, previous = [], None
        found = None
        for n in range(self.cases if until is None else until + 1):
            if until is None and time.monotonic() - start > self.seconds:
                self.mon.note("stopped at the time limit")
                break
            case = self.next(corpus, previous)
            size, decided = coverage.size, self.mon.events.total()
            violation = self.guarded(case)
            self.evaluations += 1
            if violation is not None:
                key = self.prop.known(violation, case) if self.prop.known else None
                if key:
                    self.known[key] += 1
                else:
                    found = (n, case, violation)
                    break
            if self.mon.events.total() > decided:
                digest = hashlib.blake2b(repr(case).encode(), digest_size=8).digest()
                if digest not in self.distinct:
                    self.distinct.add(digest)
                    if len(self.samples) < 2 and n % 7 == 3: self.samples.append(short(case, 600))
                previous = case
            if coverage.size > size and len(corpus) < 500: corpus.append(case)
        self.corpus = len(corpus)
        return found

    def shrink(self, case, violation, seconds=4):
        """Make the failing case simpler as long as it fails in the same clause without its history."""
        end = time.monotonic() + seconds
        best = case
        try:
            v = self.guarded(best)
            if v is None or v.clause != violation.clause: return case, violation, False
            progress = True
            while progress and time.monotonic() < end:
                progress = False
                for path, value in list(leaves(best)):
                    for new in (0, 1, round(value) if abs(value) < 1e15 else value, type(value)(round(value / 10)) if abs(value) < 1e15 else value):
                        if time.monotonic() > end: break
                        if new == value or abs(new) > abs(value): continue
                        trial = replaced(best, path, new)
                        w = self.guarded(trial)
                        if w is not None and w.clause == violation.clause:
                            best, v, progress = trial, w, True
                            break
            return best, v, True
        except BaseException:
            return case, violation, False

    def report(self, found):
        result = {
            "evaluations": self.evaluations, "distinct": [d.hex() for d in self.distinct] if len(self.distinct) < 200000 else None,
            "ndistinct": len(self.distinct), "events": dict(self.mon.events), "skips": dict(self.mon.skips),
            "notes": dict(self.mon.notes), "states": sorted(repr(s) for s in self.mon.states), "samples": self.samples,
            "worst": self.mon.worst, "lines": sorted(f"{os.path.basename(f)}:{n}" for f, n in self.coverage.lines),
            "branches": sorted(f"{c.co_qualname}:{o}:{d}" for c, o, d in self.coverage.branches),
            "executable": self.coverage.total, "corpus": self.corpus, "known": dict(self.known)}
        if found:
            n, case, violation = found
            small, v, alone = self.shrink(case, violation)
            result["violation"] = {
                "property": self.prop.id, "clause": v.clause, "case": repr(small), "original": repr(case),
                "detail": {k: short(x) for k, x in v.detail.items()}, "reproduces_alone": alone,
                "seed": self.seed, "tier": self.tier, "shard": self.index, "number": n}
        return result


def shardMain(argv):
    id, tier, seed, index, cases, seconds, out = argv
    from .props import PROPERTIES
    try:
        import resource
        resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    except Exception:
        pass
    sys.setrecursionlimit(3000)
    shard = Shard(PROPERTIES[id], tier, int(seed), int(index), int(cases), float(seconds))
    found = shard.run()
    with open(out, "w") as f: json.dump(shard.report(found), f)

