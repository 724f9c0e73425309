"""Faults injected into one function of PathLib, by tools/trigger.py: when PT_TRIGGER holds for the arguments, its result is spoilt."""
import os, math, copy, functools
from decimal import Decimal
TR = os.environ.get("PT_TRIGGER"); FIRED = os.environ.get("PT_FIRED")
fired = 0
def nums(x, out, depth=0):
    if isinstance(x, bool) or x is None or isinstance(x, str): return
    if isinstance(x, (int, float, Decimal)): out.append(float(x)) if math.isfinite(x) else None
    elif isinstance(x, complex): out += [x.real, x.imag]
    elif isinstance(x, (list, tuple)):
        if depth < 14:
            for y in x: nums(y, out, depth + 1)
    else:
        sl = getattr(type(x), "__slots__", ())
        if isinstance(sl, str): sl = (sl,)
        d = getattr(x, "__dict__", {})
        for a in ("_controlPoints", "left", "bottom", "right", "top", "_transform", "_beziers", "_bContours", "_contours"):
            if a in d or a in sl:
                if hasattr(x, a): nums(getattr(x, a), out, depth + 1)
calls = 0; seen = {}
def trigger(args):
    global calls
    calls += 1
    n = []; nums(args, n)
    if TR == "any": return True
    if TR == "count": return calls % 41 == 0
    if not n: return False
    if TR == "repeat":
        k = repr(n); c = seen.get(k, 0); 
        if len(seen) > 5000: seen.clear()
        seen[k] = c + 1; return c == 2
    m = max(map(abs, n))
    if TR == "big": return m > 3000
    if TR == "huge": return m > 40000
    if TR == "tiny": return 0 < m < 1
    if TR == "neg": return len(n) > 1 and all(v < 0 for v in n)
    if TR == "pos": return len(n) > 3 and all(v > 100 for v in n)
    if TR == "frac": return all(v != int(v) for v in n)
    if TR == "whole": return len(n) > 3 and all(v == int(v) for v in n)
    if TR == "long": return len(n) > 30
    if TR == "close": return any(0 < abs(a - b) < 1e-6 for i, a in enumerate(n[:40]) for b in n[i + 1:40])
    if TR == "zero": return any(v == 0 and math.copysign(1, v) < 0 for v in n)
    if TR == "tie": return len(n) > 3 and any(n[i] == n[i + 2] for i in range(len(n) - 2))
    if TR == "sum": return len(n) > 1 and int(abs(sum(n)) * 7) % 23 == 5
    if TR == "far": return len(n) > 3 and min(map(abs, n)) > 20 * (max(n[::2]) - min(n[::2]) + max(n[1::2]) - min(n[1::2]))
    if TR == "flat": return len(n) > 3 and 0 < max(n[1::2]) - min(n[1::2]) < (max(n[::2]) - min(n[::2])) / 30
    return False
SP = os.environ.get("PT_SPOIL")
def spoil(r):
    if SP == "drop":
        if isinstance(r, list) and len(r) > 0: return True, r[:-1]
        if r is None or isinstance(r, (bool, str, int, float)): return False, r
        return True, None
    if SP == "swap":
        if isinstance(r, (list, tuple)) and len(r) > 1 and r[0] != r[1]: return True, type(r)((r[1], r[0])) + r[2:]
        if hasattr(r, "_controlPoints"):
            b = type(r)(list(r._controlPoints)[::-1]); b._t1, b._t2 = r._t1, r._t2; return True, b
        return False, r
    if SP == "dup":
        if isinstance(r, list) and r: return True, r + r[-1:]
        if isinstance(r, list): return True, [0.5]
        return False, r
    return spoil0(r)
F = float(os.environ.get("PT_EPS", ".02"))
def spoil0(r):
    "-> (changed, value)"
    if isinstance(r, bool): return True, not r
    if isinstance(r, int): return True, r + 1 + abs(r) // 100
    if isinstance(r, float): return math.isfinite(r), r + max(abs(r), .01) * F
    if isinstance(r, Decimal): return True, r + max(abs(r), Decimal(".01")) * Decimal(F)
    if isinstance(r, complex): return True, r * (1 + F)
    if isinstance(r, str): return len(r) > 1, r[:-1]
    if isinstance(r, tuple) and not hasattr(r, "_fields"):
        for i in reversed(range(len(r))):
            c, v = spoil(r[i])
            if c: return True, r[:i] + (v,) + r[i + 1:]
        return False, r
    if isinstance(r, list):
        if not r: return False, r
        for i in reversed(range(len(r))):
            c, v = spoil(r[i])
            if c: return True, r[:i] + [v] + r[i + 1:]
        return False, r
    if hasattr(r, "_controlPoints"):
        c, p = spoil(list(r._controlPoints))
        b = type(r)(p); b._t1, b._t2 = r._t1, r._t2
        return True, b
    if hasattr(r, "left") and hasattr(r, "top"):
        r = copy.copy(r); r.right = spoil(float(r.right))[1] if math.isfinite(r.right) else r.right
        return True, r
    if hasattr(r, "transform"):
        m = [list(row) for row in r.transform]; m[2][0] = m[2][0] + max(abs(m[2][0]), .01) * F
        r = copy.copy(r)
        for a in ("_transform", "transform"):
            try: setattr(r, a, m)
            except Exception: pass
        return r.transform == m, r
    return False, r
def note():
    global fired
    if not fired: open(FIRED, "a").write("x\n")
    fired += 1
def wrap(f, mutator):
    @functools.wraps(f)
    def g(*a, **k):
        if mutator:
            if trigger((a, tuple(k.values()))): note(); return None
            return f(*a, **k)
        hit = trigger((a, tuple(k.values())))
        r = f(*a, **k)
        if hit:
            c, v = spoil(r)
            if c: note(); return v
        return r
    return g
def install(scope, name, mutator):
    cls, _, fn = name.rpartition(".")
    if not cls: scope[fn] = wrap(scope[fn], mutator); return
    c = scope[cls]; d = c.__dict__[fn]
    if isinstance(d, property): setattr(c, fn, property(wrap(d.fget, mutator), d.fset))
    elif isinstance(d, staticmethod): setattr(c, fn, staticmethod(wrap(d.__func__, mutator)))
    elif isinstance(d, classmethod): setattr(c, fn, classmethod(wrap(d.__func__, mutator)))
    else: setattr(c, fn, wrap(d, mutator))
