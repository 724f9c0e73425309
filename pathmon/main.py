"""bin/check <property> [--tier quick|thorough] [--seed N] [--replay FILE]"""
import argparse
import collections
import json
import os
import shutil
import subprocess
import sys
import tempfile
import time

from . import core, repo
from .props import PROPERTIES

ROOT = repo.HERE
SHARDS = {"quick": 8, "thorough": 8}
SECONDS = {"quick": 90, "thorough": 420}
CASES = {"quick": 2, "thorough": 1}  # times as many cases as the property has by itself
WATCHDOG = {"quick": 400, "thorough": 800}


def knownFindings(path=os.path.join(ROOT, "KNOWN_FINDINGS.txt")):
    """The lines  known: property=<id> key=<mechanism> <what fails>"""
    found = {}
    if os.path.exists(path):
        for line in open(path, encoding="utf-8"):
            if line.startswith("known: "):
                words = line.split()
                found[words[1].split("=")[1], words[2].split("=")[1]] = " ".join(words[3:])
    return found


def replay(prop, path):
    data = json.load(open(path))
    shard = core.Shard(prop, data["tier"], data["seed"], data["shard"], 1, 1)
    if prop.install: prop.install(shard.mon)
    for name in ("case", "original"):
        v = shard.guarded(core.parse(data[name]))
        if v is not None:
            print(f"reproduced from the {name} alone: {v.clause} {v.detail}")
            print(f"VIOLATION property={prop.id} replay={path}")
            return 1
    shard = core.Shard(prop, data["tier"], data["seed"], data["shard"], 1, 1)
    found = shard.run(until=data["number"])
    if found:
        print(f"reproduced from its history: {found[2].clause} {found[2].detail}")
        print(f"VIOLATION property={prop.id} replay={path}")
        return 1
    print("not reproduced")
    return 0


def main(argv=None):
    parser = argparse.ArgumentParser()
    parser.add_argument("property", choices=sorted(PROPERTIES))
    parser.add_argument("--tier", default=os.environ.get("VERIF_TIER") or "quick", choices=["quick", "thorough"])
    parser.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED") or 1))
    parser.add_argument("--replay")
    parser.add_argument("--shards", type=int)
    parser.add_argument("--scale", type=float, default=1.0, help="multiplies the number of cases")
    parser.add_argument("--evidence", default=os.path.join(ROOT, "evidence"))
    args = parser.parse_args(argv)
    prop = PROPERTIES[args.property]
    if args.replay: return replay(prop, args.replay)

    start = time.monotonic()
    nshards = args.shards or SHARDS[args.tier]
    total = getattr(prop, args.tier) * CASES[args.tier] * args.scale
    cases = max(1, int(total / nshards))
    work = tempfile.mkdtemp(prefix="pathmon-")
    env = dict(os.environ, PYTHONHASHSEED="0", PYTHONDONTWRITEBYTECODE="1", PYTHONPATH=ROOT,
               OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1")
    results, broken = [], []
    try:
        running = []
        for i in range(nshards):
            out = os.path.join(work, f"{i}.json")
            err = open(os.path.join(work, f"{i}.err"), "w")
            running.append((i, out, err, subprocess.Popen(
                [sys.executable, "-m", "pathmon.shard", prop.id, args.tier, str(args.seed), str(i), str(cases),
                 str(SECONDS[args.tier]), out], cwd=ROOT, env=env, stdout=err, stderr=err)))
        for i, out, err, process in running:
            try:
                process.wait(max(1, WATCHDOG[args.tier] - (time.monotonic() - start)))
            except subprocess.TimeoutExpired:
                process.kill()
                process.wait()
                broken.append(f"shard {i} was stopped by the watchdog")
                continue
            finally:
                err.close()
            if process.returncode == 0 and os.path.exists(out):
                results.append(json.load(open(out)))
            else:
                broken.append(f"shard {i} ended with {process.returncode}: " + open(err.name).read()[-2000:])
    finally:
        shutil.rmtree(work, ignore_errors=True)

    events, skips, notes, known = (collections.Counter() for _ in range(4))
    distinct, states, lines, branches, samples, worst = set(), set(), set(), set(), [], {}
    for r in results:
        events.update(r["events"]); skips.update(r["skips"]); notes.update(r["notes"]); known.update(r["known"])
        states.update(r["states"]); lines.update(r["lines"]); branches.update(r["branches"]); samples += r["samples"]
        distinct.update(r["distinct"] or [f"{len(distinct)}+{k}" for k in range(r["ndistinct"])])
        for k, v in r["worst"].items(): worst[k] = max(worst.get(k, 0), v)
    evaluations = sum(r["evaluations"] for r in results)
    violations = [r["violation"] for r in results if "violation" in r]
    missing = [clause for clause in prop.need if not events[clause]]

    # a known finding is only known if the committed file lists it
    listed = knownFindings()
    unlisted = []
    for key, n in sorted(known.items()):
        if (prop.id, key) in listed: print(f"KNOWN-FINDING: property={prop.id} {listed[prop.id, key]} (seen {n} times)")
        else: unlisted.append(key)

    os.makedirs(args.evidence, exist_ok=True)
    evidence = {
        "property": prop.id, "tier": args.tier, "seed": args.seed, "level": "exploration",
        "coverage": {
            "evaluations": evaluations, "distinct_nontrivial": len(distinct), "rule": prop.rule,
            "samples": samples[:6],
            "clauses_decided": dict(sorted(events.items())), "outside_domain": dict(sorted(skips.items())),
            "states_seen": len(states), "state_samples": sorted(states)[:40], "notes": dict(sorted(notes.items())),
            "largest_error_over_tolerance": {k: round(v, 6) for k, v in sorted(worst.items())},
            "pathlib_lines_reached": len(lines), "pathlib_branch_ends_reached": len(branches),
            "coverage_guided_corpus": sum(r["corpus"] for r in results), "shards": len(results),
            "missing_clauses": missing, "errors": broken},
        "assumptions": prop.assumptions + ["CPython floating point is IEEE 754 binary64"],
        "wall_s": round(time.monotonic() - start, 2), "violations": len(violations) + len(unlisted)}
    with open(os.path.join(args.evidence, f"{prop.id}.json"), "w") as f: json.dump(evidence, f, indent=1)

    print(f"{prop.id} {args.tier} seed={args.seed}: {evaluations} cases, {len(distinct)} distinct and decided, "
          f"{sum(events.values())} oracle decisions, {len(states)} states, {sum(skips.values())} outside of the domain, "
          f"{evidence['wall_s']} s")
    if violations or unlisted:
        for k, v in enumerate(violations):
            path = os.path.join(args.evidence, "replays", f"{prop.id}-{args.tier}-{v['seed']}-{v['shard']}.json")
            os.makedirs(os.path.dirname(path), exist_ok=True)
            with open(path, "w") as f: json.dump(v, f, indent=1)
            print(f"clause {v['clause']}: {v['detail']}\n  case {v['case'][:1500]}")
            print(f"VIOLATION property={prop.id} replay={path}")
        for key in unlisted: print(f"VIOLATION property={prop.id} replay=none unlisted known finding {key}")
        return 1
    if broken:
        print("INCONCLUSIVE: " + "; ".join(broken))
        return 3
    if missing:
        print(f"INCONCLUSIVE: never observed: {missing}")
        return 3
    return 0


if __name__ == "__main__":
    sys.exit(main())
