"""Matrices and curve fitting."""
import numpy as np

from .common import *
from .planes import times
from .shaping import plain

F = o.F


# ---------------------------------------------------------------- M01
def genMatrix(rng):
    n = gen.count(rng, (1, 2, 2, 3, 3, 4, 5, 6), 14, .03)
    r = rng.random()
    kind = "any"
    if r < .35: m = [[rng.randint(-9, 9) for _ in range(n)] for _ in range(n)]
    elif r < .5: m = [[rng.choice((0, 0, 1, -1, 2)) for _ in range(n)] for _ in range(n)]
    elif r < .65: m = [[rng.uniform(-10, 10) for _ in range(n)] for _ in range(n)]
    elif r < .75:  # a permutation, perhaps scaled
        p = list(range(n)); rng.shuffle(p)
        m = [[rng.choice((1, 2, -3, .5)) if p[i] == j else 0 for j in range(n)] for i in range(n)]
    elif r < .82:  # like those of curve fitting
        s = sorted(rng.random() for _ in range(n))
        m = [[x ** j for j in range(n)] for x in s]
    elif r < .92: # an element that is only rounding
        m = [[rng.randint(-9, 9) for _ in range(n)] for _ in range(n)]
        m[0][0] = rng.choice((1e-17, 1e-16, -1e-15, 1e-12, 1e-9))
    else:
        k = rng.choice([x for x in range(1, 6) if x != n])
        m = [[rng.randint(-9, 9) for _ in range(k)] for _ in range(n)]
    if len(m[0]) == n and rng.random() < .2:
        i, j = rng.randrange(n), rng.randrange(n)
        kind = rng.choice(("zero row", "zero column", "equal columns"))
        if kind == "zero row": m[i] = [0] * n
        elif kind == "zero column":
            for row in m: row[i] = 0
        elif i != j:
            for row in m: row[i] = row[j]
    return {"matrix": m}


def checkInverse(case, mon):
    m = [list(r) for r in case["matrix"]]
    mon.need(m and m[0] and all(len(r) == len(m[0]) for r in m), "shape")
    mon.need(all(abs(v) < 1e9 and (v == 0 or abs(v) > 1e-30) for r in m for v in r), "size")
    given = [list(r) for r in m]
    got = MatrixInversion.matrixInvert(m)
    mon.expect(m == given and all(type(a) is type(b) for r, s in zip(m, given) for a, b in zip(r, s)), "matrix is kept", got=m)
    n = len(m)
    if len(m[0]) != n:
        mon.expect(got is None, "none for a matrix that isn't square", got=got)
        mon.state(n, len(m[0]))
        return
    cols = [tuple(r[j] for r in m) for j in range(n)]
    if any(not any(r) for r in m) or any(not any(c) for c in cols) or len(set(cols)) < n:
        mon.expect(got is None, "none for a singular matrix", got=got)
        mon.state(n, "singular")
        return
    # exact inverse
    a = [[F(v) for v in r] + [F(int(i == j)) for j in range(n)] for i, r in enumerate(m)]
    for i in range(n):
        p = max(range(i, n), key=lambda r: abs(a[r][i]))
        mon.need(a[p][i] != 0, "singular")
        a[i], a[p] = a[p], a[i]
        a[i] = [v / a[i][i] for v in a[i]]
        for r in range(n):
            if r != i and a[r][i]: a[r] = [v - a[r][i] * w for v, w in zip(a[r], a[i])]
    want = [r[n:] for r in a]
    norm = max(sum(abs(F(v)) for v in r) for r in m)
    inorm = max(sum(abs(v) for v in r) for r in want)
    mon.need(norm * inorm < F(1e9), "ill-conditioned")
    mon.expect(got is not None, "inverse of a matrix that has one", got=got)
    mon.expect(len(got) == n and all(len(r) == n for r in got), "inverse has the size of the matrix", got=got)
    tol = F(2e-15) * n * n * norm * inorm * inorm
    mon.within(max(abs(F(got[i][j]) - want[i][j]) for i in range(n) for j in range(n)), tol, "inverse", got=got)
    mon.expect(not any(g is r for g in got for r in m), "inverse is a new matrix")
    mon.state(n, m[0][0] == 0, norm * inorm > 1000, max(abs(F(v)) for r in m for v in r) > 100)


# ---------------------------------------------------------------- F01
def genAlgebra(rng):
    a, b, c = (gen.count(rng, (rng.randint(1, 6), rng.randint(1, 6), rng.randint(1, 12)), rng.choice((40, 40, 110)), .015) for _ in range(3))
    num = rng.choice((lambda: rng.randint(-99, 99), lambda: rng.randint(-3, 3), lambda: rng.randint(-10**12, 10**12)))
    return {"left": [[num() for _ in range(b)] for _ in range(a)], "right": [[num() for _ in range(c)] for _ in range(b)],
            "nk": [(n, rng.randint(0, n)) for n in (rng.choice((rng.randint(0, 8), rng.randint(0, 40), rng.randint(0, 120), rng.randint(0, rng.choice((120, 300))))) for _ in range(6))],
            "n": gen.count(rng, (1, 2, 3, 4, 5, 6, 7, 8, 9, 12, 15), 30, .02), "s": [rng.choice((0, 1, .5, .25, rng.random(), rng.random())) for _ in range(gen.count(rng, (rng.randint(1, 6), rng.randint(1, 6), rng.randint(7, 15)), 30, .02))]}


def checkAlgebra(case, mon):
    C = CurveFitting
    left, right = [list(r) for r in case["left"]], [list(r) for r in case["right"]]
    mon.need(all(v == int(v) and abs(v) < (1e15 if isinstance(v, int) else 1e6) for r in left + right for v in r), "whole numbers")
    before = plain((left, right))
    mon.expect(plain(C.multiply(left, right)) == plain(times(left, right)), "product of matrices", got=C.multiply(left, right), shape=(len(left), len(right), len(right[0])))
    for m in (left, right):
        t = C.transpose(m)
        mon.expect(plain(t) == tuple(tuple(r[j] for r in m) for j in range(len(m[0]))), "transposed", got=t)
        mon.expect(plain(C.transpose(t)) == plain(m), "transposed twice", got=t)
        mon.expect([list(C.row(m, i)) for i in range(len(m))] == m and [list(C.col(m, j)) for j in range(len(m[0]))] == [list(r) for r in t], "rows and columns")
    mon.expect(plain((left, right)) == before, "matrices are kept")
    for n, k in case["nk"]:
        n = min(300, abs(int(n))); k = min(n, abs(int(k)))
        mon.expect(C.binomial(n, k) == math.comb(n, k), "binomial coefficient", n=n, k=k, got=C.binomial(n, k))
        mon.state(n > 6, n, k == 0, k == n)
    n = max(1, min(30, abs(int(case["n"]))))
    basis = C.basisMatrix(n)
    # row r has the coefficients with which the points enter the power t**r
    want = [[math.comb(n - 1, r) * math.comb(r, c) * (-1) ** (r + c) if c <= r else 0 for c in range(n)] for r in range(n)]
    mon.expect([list(r) for r in basis] == want, "basis matrix", n=n, got=basis)
    mon.expect([list(r) for r in C.basisMatrix(n)] == want, "basis matrix again", n=n)
    s = list(case["s"])
    mon.need(all(0 <= v <= 1 for v in s), "time values")
    for size in {len(s), 1, 3, 5}:
        tt, t = C.formTMatrix(s, size) if size != len(s) else C.formTMatrix(s)
        mon.expect(len(t) == len(s) and all(len(r) == size for r in t) and plain(C.transpose(t)) == plain(tt), "powers of the time values and their transpose", got=t)
        for r, v in zip(t, s):
            for j, p in enumerate(r): mon.within(abs(p - v ** j), 1e-14, "powers of the time values", got=p)


# ---------------------------------------------------------------- F02
def genFit(rng):
    n = rng.choice((2, 3, 3, 4, 4, 5))
    style = rng.choice(("small", "font", "float"))
    if rng.random() < .6:  # points along a curve
        c = gen.curve(rng, orders=(2, 3))
        points = [o.at1(c, (i + rng.uniform(-.2, .2)) / (n - 1)) for i in range(n)]
        if rng.random() < .5: points = [(round(x), round(y)) for x, y in points]
    else: points = [gen.point(rng, style) for _ in range(n)]
    extra = [gen.point(rng, style) for _ in range(gen.count(rng, (0, 0, 0, 1, 1, 2, 2, 4, 4, 12), 80))]
    return {"points": points, "extra": extra, "polygonal": rng.random() < .6}


def checkFit(case, mon):
    C = CurveFitting
    points, extra = pts(case["points"]), pts(case["extra"])
    polygonal = bool(case["polygonal"])
    n = len(points)
    every = points + extra
    bounded(mon, every, 1e6)
    m = o.magnitude(every)
    steps = [o.distance(a, b) for a, b in zip(every, every[1:])]
    mon.need(m > 0 and min(steps) > .01 * m, "points too close")
    given = list(every)

    def times_(ps):
        if not polygonal: return [i / (len(ps) - 1) for i in range(len(ps))]
        d = [0.0]
        for a, b in zip(ps, ps[1:]): d.append(d[-1] + o.distance(a, b))
        return [v / d[-1] for v in d]

    for ps in (points, every):
        s, want = C.computeTimeValues(ps, polygonal=polygonal), times_(ps)
        mon.expect(len(s) == len(ps) and s[0] == 0 and abs(s[-1] - 1) < 1e-15 and all(a < b for a, b in zip(s, s[1:])), "time values go from 0 to 1", got=s)
        mon.within(max(abs(a - b) for a, b in zip(s, want)), 1e-14, "time values in proportion to the distances" if polygonal else "time values at equal steps", got=s, wanted=want)
    part = C.computeTimeValues(every, n, polygonal)
    mon.expect(len(part) == n, "time values of the first points", got=part)
    mon.within(max(abs(a - b) for a, b in zip(part, times_(every[:n]))), 1e-14, "time values of the first points", got=part)
    if polygonal:
        mon.within(max(abs(a - b) for a, b in zip(C.computeTimeValues(points), times_(points))), 1e-14, "in proportion by default")
    s = times_(points)
    mon.need(min(b - a for a, b in zip(s, s[1:])) > .04, "time values too close")
    gp, basis, gs, (cx, cy) = C.fit(points) if polygonal else C.fit(points, polygonal=False)
    control = [(x[0], y[0]) for x, y in zip(cx, cy)]
    mon.expect(len(control) == n and all(len(r) == 1 for r in list(cx) + list(cy)), "as many control points as points", got=control)
    V = np.vander(np.asarray(s), n, increasing=True)
    condition = float(np.linalg.cond(V))
    tol = 1e-14 * m * condition ** 3 + 1e-13 * m
    mon.need(tol < m * 1e-4, "ill-conditioned")
    for v, p in zip(s, points): near(mon, o.at1(control, v), p, tol, "fitted curve goes through the points at their times", control=control, t=v)
    mon.expect(pts(gp) == points and plain(basis) == plain(C.basisMatrix(n)) and max(abs(a - b) for a, b in zip(gs, s)) < 1e-14, "points, basis and times are reported")
    mon.state(n, polygonal, len(extra))
    # fewer control points than points: least squares
    for k in range(2, min(n, len(every))) if extra else ():
        ts = times_(every)
        lx, ly = C.bestFit(every, C.basisMatrix(k), C.computeTimeValues(every, polygonal=polygonal), k)
        A = np.asarray([[math.comb(k - 1, i) * (1 - t) ** (k - 1 - i) * t ** i for i in range(k)] for t in ts])
        c = float(np.linalg.cond(A))
        P = np.asarray(every, dtype=float)
        want = np.linalg.lstsq(A, P, rcond=None)[0]
        got = np.asarray([(x[0], y[0]) for x, y in zip(lx, ly)])
        mon.expect(got.shape == want.shape, "as many control points as asked", got=got.tolist())
        mon.within(float(np.abs(got - want).max()), 1e-12 * m * c ** 2 * 4 ** k, "least squares", got=got.tolist(), wanted=want.tolist())
    mon.expect(every == given, "points are kept")


PROPERTIES = [
    Property("M01", genMatrix, checkInverse, "matrices of 1-6 rows: whole and fractional, permutations, with zero or nearly zero pivots, singular, not square; exact inverse in rational arithmetic",
             ["inverse", "none for a singular matrix", "none for a matrix that isn't square", "matrix is kept"], quick=64000, thorough=1600000),
    Property("F01", genAlgebra, checkAlgebra, "whole-number matrices of all shapes up to 6x6, binomials up to 120 in any order, basis matrices up to 15; exact",
             ["product of matrices", "transposed", "binomial coefficient", "basis matrix", "powers of the time values"], quick=32000, thorough=800000),
    Property("F02", genFit, checkFit, "2-5 points along curves and at random, both parametrizations; interpolation and numpy least squares",
             ["fitted curve goes through the points at their times", "least squares", "time values at equal steps", "time values in proportion to the distances"], quick=32000, thorough=800000),
]
