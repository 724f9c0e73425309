"""Reduction to simple pieces, offsets, scaling, the ABC construction, alignment, and purity of all queries."""
import functools

import numpy as np

from ..core import Skip
from .common import *

STEP = 0.0103  # reduce looks for the ends of its pieces with a parameter step of 1%


def pieceDomain(mon, p, limit=2e4, ratio=.05):
    bounded(mon, p, limit)
    mon.need(len(p) in (3, 4), "order")
    mon.need(clean(p) and o.size(p) >= 1, "size")
    mon.need(regular(p, ratio), "nearly stops")


def findRange(piece, p, t1):
    """The t2 for which piece could be the part of p from t1 to t2: by its derivatives at the start."""
    q = [tuple(map(float, a)) for a in piece]
    best, result = 0, None
    dq, dp = q, p
    for k in range(1, len(p)):
        dq, dp = o.derivativePoints(dq), o.derivativePoints(dp)
        at = o.at1(dp, t1) if len(dp) > 1 else dp[0]
        here, there = math.hypot(*dq[0]), math.hypot(*map(float, at))
        if there > 0:
            dt = (here / there) ** (1 / k)
            weight = here
            if weight > best: best, result = weight, dt
    return None if result is None else t1 + result


def straight(points):
    """How far the control points are from the chord."""
    (ax, ay), (bx, by) = points[0], points[-1]
    h = math.hypot(bx - ax, by - ay)
    if h == 0: return max(o.distance(points[0], q) for q in points)
    return max(abs((x - ax) * (by - ay) - (y - ay) * (bx - ax)) / h for x, y in points)


def bend(points):
    """The angle between the directions at the start and the end, in degrees, and the sines of the sides of the handles."""
    def direction(a):
        return next(((q[0] - a[0][0], q[1] - a[0][1]) for q in a if o.distance(q, a[0]) > 0), (1, 0))
    u, v = direction(points), direction(points[::-1])
    v = (-v[0], -v[1])
    angle = abs(math.degrees(math.atan2(u[0] * v[1] - u[1] * v[0], u[0] * v[0] + u[1] * v[1])))
    d = (points[-1][0] - points[0][0], points[-1][1] - points[0][1])
    sides = []
    for x, y in points[1:-1]:
        x, y = x - points[0][0], y - points[0][1]
        sides.append(math.degrees(math.atan2(d[0] * y - d[1] * x, d[0] * x + d[1] * y)))
    return angle, sides


# ---------------------------------------------------------------- B12
def genReduce(rng):
    if rng.random() < .15: return {"pts": gen.curve(rng, (3,), ("inflected",))}
    return {"pts": gen.curve(rng) if rng.random() < .85 else gen.points(rng, rng.choice((3, 4)), rng.choice(("font", "half", "float")))}


def checkReduce(case, mon):
    p = pts(case["pts"])
    pieceDomain(mon, p, ratio=.02)
    m = o.magnitude(p)
    pieces = Bezier(list(p)).reduce()
    mon.expect(len(pieces) > 0, "curve is reduced", got=pieces)
    near(mon, pieces[0].start, p[0], 1e-11 * m, "starts where the curve does")
    near(mon, pieces[-1].end, p[-1], 1e-11 * m, "ends where the curve does")
    t = 0.0
    for i, piece in enumerate(pieces):
        q = pts(piece.controlPoints)
        mon.expect(len(q) == len(p), "same order", got=q)
        if i: near(mon, piece.start, pieces[i - 1].end, 1e-11 * m, "pieces join", index=i)
        t2 = findRange(q, p, t)
        mon.expect(t2 is not None and t - 1e-9 <= t2 <= 1 + 1e-6, "piece has its range", index=i, t1=t, t2=t2)
        want = o.blossom(p, t, min(1, t2))
        for a, c in zip(q, want): near(mon, a, c, 1e-6 * o.size(p) + 1e-10 * m, "piece traces the curve", index=i, t1=t, t2=t2)
        # monotone in x and y
        e = 1e-9 * m + 1e-7 * o.size(p)
        line = o.at(q, np.linspace(0, 1, 33))
        for k in (0, 1):
            d = np.diff(line[:, k])
            mon.within(float(min(d.clip(0).sum(), (-d).clip(0).sum())), e, "piece is monotone", index=i, axis=k)
        # simple, up to the last step
        cut = 1 - STEP / (t2 - t) if t2 > t else 0
        if cut > 0 and straight(q) > 1e-3 * o.size(p):
            r = [tuple(map(float, a)) for a in o.blossom(q, 0, cut)]
            if straight(r) > 1e-3:
                angle, sides = bend(r)
                mon.within(angle, 60.001, "piece bends less than 60 degrees", index=i)
                if len(sides) == 2:
                    mon.expect(not (min(sides) < -1e-3 and max(sides) > 1e-3), "piece is on one side of its chord", index=i, sides=sides)
        t = t2
    mon.within(abs(t - 1), 1e-6, "pieces cover the curve", t=t)
    mon.state(len(p), len(pieces))


# ---------------------------------------------------------------- B13
def genSimple(rng):
    r = rng.random()
    if r < .1:  # nearly straight
        a, h = 10 ** rng.uniform(-1.5, 3), 10 ** rng.uniform(-3.5, -1)
        p = [(0, 0)] + [(k * a, rng.choice((-1, 1)) * rng.uniform(.5, 1) * h) for k in rng.choice(((.3, .7), (.5,), (.1, .5)))] + [(a, 0)]
        return {"pts": gen.turned(p, rng.choice((0, 90, 180, 45, rng.uniform(0, 360))))}
    if r < .25:  # bends of nearly 60 degrees, and handles that nearly are on the chord
        near60, size = rng.random() < .6, 10 ** rng.uniform(0, 3)
        a = rng.uniform(1, 59) if near60 else rng.choice((-1, 1)) * 10 ** rng.uniform(-5, 1)
        c = (60 + rng.choice((-1, 1)) * 10 ** rng.uniform(-5.5, 0) - a) if near60 else rng.uniform(2, 40)
        a, c = math.radians(a), math.radians(c)
        u, v = (size * rng.uniform(.1, .6) for _ in range(2))
        if near60 and rng.random() < .4:
            h = size * math.sin(c) / math.sin(a + c)
            p = [(0, 0), (h * math.cos(a), h * math.sin(a)), (size, 0)]
        else: p = [(0, 0), (u * math.cos(a), u * math.sin(a)), (size - v * math.cos(c), v * math.sin(c)), (size, 0)]
        if rng.random() < .5: p = p[::-1]
        p = gen.turned(p, rng.choice((0, 90, 180, 45, rng.uniform(0, 360))))
        dx, dy = gen.point(rng, "font") if rng.random() < .5 else (0, 0)
        return {"pts": [(x + dx, y + dy) for x, y in p]}
    p = gen.curve(rng, shapes=["gentle", "gentle", "arch", "ess", "circle", "monotone", "any", "axis", "symmetric", "retracted"])
    if r < .55:
        a, c = sorted((rng.random(), rng.random()))
        if c - a > .05: p = [tuple(map(float, q)) for q in o.blossom(p, a, c)]
    return {"pts": p}


def checkSimple(case, mon):
    p = pts(case["pts"])
    bounded(mon, p, 1e6)
    mon.need(len(p) in (3, 4) and o.size(p) >= 1e-2, "size")
    # less than a ten-thousandth counts as straight
    mon.need(straight(p) > 2e-4 + 1e-8 * o.magnitude(p), "straight")
    angle, sides = bend(p)
    got = Bezier(list(p)).simple()
    if len(p) == 4 and min(abs(s) for s in sides) < 1e-6: mon.skip("handle on the chord")
    if len(p) == 4 and max(abs(s) for s in sides) > 180 - 1e-6: mon.skip("handle on the chord")
    oneSide = len(p) == 3 or (sides[0] > 0) == (sides[1] > 0)
    if abs(angle - 60) < 1e-6: mon.skip("60 degrees")
    mon.expect(bool(got) == (oneSide and angle < 60), "simple", got=got, angle=angle, sides=sides)
    mon.state(len(p), oneSide, angle // 20)


# ---------------------------------------------------------------- B14
def genOffset(rng):
    order = rng.choice((1, 2, 2, 3, 3, 3, 3))
    p = gen.curve(rng, (order,))
    if rng.random() < .15:  # straight curves
        p = gen.curve(rng, (order,), ("flat",))
    return {"pts": p, "share": rng.choice((.01, .05, .1, .3, .5)) * rng.choice((-1, 1)), "t": gen.t(rng),
            "d": rng.choice((0, 1, -1, 10, 2.5, rng.uniform(-100, 100)))}


def curvatureRadius(p):
    ts = np.linspace(0, 1, 401)
    v = o.velocity(p, ts)
    a = o.velocity(o.derivativePoints(p), ts)
    k = np.abs(v[:, 0] * a[:, 1] - v[:, 1] * a[:, 0]) / np.hypot(v[:, 0], v[:, 1]) ** 3
    return float(1 / max(k.max(), 1e-12))


def unitNormal(p, t):
    """From the definition; the limit at ends with a handle of no length."""
    if t in (0, 1):
        a = p if t == 0 else p[::-1]
        q = next((q for q in a if not samePoint(q, a[0])), None)
        if q is None: return None
        s = 1 if t == 0 else -1
        v = (s * (q[0] - a[0][0]), s * (q[1] - a[0][1]))
    else:
        v = o.velocity(p, [t])[0]
    h = math.hypot(*v)
    return (-v[1] / h, v[0] / h) if h else None


def checkOffset(case, mon):
    p = pts(case["pts"])
    t, d = case["t"], case["d"]
    if not 0 <= t <= 1: t = abs(t) % 1
    m, size = o.magnitude(p), o.size(p)
    bounded(mon, p, 2e4)
    mon.need(size >= 1 and clean(p) and abs(d) <= 1e5, "size")
    b = Bezier(list(p))
    n = unitNormal(p, t)
    slow, fast = o.speedRange(p)
    if n and (t in (0, 1) or math.hypot(*o.velocity(p, [t])[0]) > 1e-3 * fast):
        c, normal, moved = b.offset(t, d)
        x = o.at1(p, t)
        near(mon, c, x, 1e-12 * m, "offset point is on the curve", t=t, d=d)
        near(mon, normal, n, 1e-8, "offset normal", t=t, d=d)
        near(mon, moved, (x[0] + d * n[0], x[1] + d * n[1]), 1e-8 * abs(d) + 1e-11 * m, "point moved along the normal", t=t, d=d)

    off = straight(p)
    mon.need(o.distance(p[0], p[-1]) > .01 * size, "closed")
    if len(p) == 2 or off < 1e-9:
        # straight: the control points move along the normal
        n = unitNormal(p, 0)
        mon.need(n is not None, "no direction")
        got = b.offset(d)
        mon.expect(len(got) == 1, "one parallel line", got=got)
        q = got[0].controlPoints
        mon.expect(len(q) == len(p), "same order", got=q)
        for a, c in zip(q, p): near(mon, a, (c[0] + d * n[0], c[1] + d * n[1]), 1e-8 * abs(d) + 1e-11 * m, "parallel line")
        mon.state("line", len(p), d > 0)
        return
    mon.need(off > 1e-3 * size, "nearly straight")
    pieceDomain(mon, p)
    d = case["share"] * min(curvatureRadius(p), size)
    mon.need(.005 <= abs(case["share"]) <= .6, "offset larger than the radius of curvature")
    pieces, got = b.reduce(), b.offset(d)
    mon.expect(len(got) == len(pieces), "one curve for each piece", got=len(got), pieces=len(pieces))
    # that the pieces are those of the curve; they are reduced once more here
    near(mon, pieces[0].start, p[0], 1e-10 * m, "first piece starts where the curve does")
    near(mon, pieces[-1].end, p[-1], 1e-10 * m, "last piece ends where the curve does")
    for piece in pieces[1:]:
        mon.within(o.nearestOnCurve(p, pts([piece.start])[0], 200)[0], 1e-6 * size + 1e-10 * m, "pieces begin on the curve", piece=pts(piece.controlPoints))
    # a piece that is nearly straight has its end normals nearly parallel, and loses precision
    previous, loose = None, None
    for g, piece in zip(got, pieces):
        c, q = pts(piece.controlPoints), pts(g.controlPoints)
        mon.expect(len(q) == len(c), "same order", got=q)
        bulge = straight(c)
        ends = [unitNormal(c, 0), unitNormal(c, 1)]
        # a piece that is as good as straight moves along its first normal only
        tol = 1e-7 * abs(d) + 1e-10 * m + (1.01 * abs(d) * o.distance(*ends) if bulge <= 2e-4 else 0)
        for s in (0, 1):
            n, x = ends[s], c[-s]
            near(mon, q[-s], (x[0] + d * n[0], x[1] + d * n[1]), tol, "ends at the distance", end=s, piece=c, d=d)
        if previous is not None:
            near(mon, q[0], previous, tol + loose + 1e-6 * abs(d), "offset curves join", piece=c)
        previous, loose = q[-1], tol
        sine = abs(ends[0][0] * ends[1][1] - ends[0][1] * ends[1][0])
        if bulge < 1e-3 * size or sine < .02: continue
        for s in (0, 1):
            if len(c) == 3 and s == 1: continue  # a quadratic can't keep both tangents
            n, k = unitNormal(q, s), ends[s]
            mon.expect(n is not None, "offset curve has a direction", piece=c, got=q)
            mon.within(1 - (n[0] * k[0] + n[1] * k[1]), 1e-6, "end direction kept", end=s, piece=c, got=q)
        lo, hi = o.speedRange(c, 60)
        if lo > .1 * hi:
            allowed = .04 + .7 * (1 - lo / hi)
            for s in (.15, .35, .5, .65, .85):
                x = o.at1(q, s)
                far, at = o.nearestOnCurve(c, x, 60)
                mon.within(abs(far / abs(d) - 1), allowed, "stays at the distance", s=s, d=d, piece=c, got=q)
                n = unitNormal(c, at) if .001 < at < .999 else None
                if n:
                    y = o.at1(c, at)
                    mon.expect(((x[0] - y[0]) * n[0] + (x[1] - y[1]) * n[1]) * d > 0, "on the side of the normal", s=s, piece=c, d=d)
        mon.state(len(p), len(pieces), d > 0)


# ---------------------------------------------------------------- B15
def genScale(rng):
    p = gen.curve(rng, shapes=["gentle", "arch", "circle", "symmetric", "monotone", "axis", "any"])
    a, c = sorted((rng.random(), rng.random()))
    if rng.random() < .6 and c - a > .1: p = [tuple(map(float, q)) for q in o.blossom(p, a, c)]
    return {"pts": p, "share": rng.choice((0, .05, .051, .2, .201, .4, .402, .403)) * rng.choice((-1, 1)), "kind": rng.choice(("constant", "constant", "function", "function")),
            "fn": [rng.choice((1, 1, .5, 0, 2, rng.uniform(0, 2))) for _ in range(3)]}


def checkScale(case, mon):
    p = pts(case["pts"])
    pieceDomain(mon, p, 2e4, .05)
    mon.need(abs(case["share"]) <= .6 and all(abs(k) <= 2 for k in case["fn"]), "offset larger than the radius of curvature")
    size, m = o.size(p), o.magnitude(p)
    angle, sides = bend(p)
    mon.need(straight(p) > 1e-3 * size and 2 < angle < 60, "not simple")
    if len(p) == 4: mon.need((sides[0] > 0) == (sides[1] > 0), "not simple")
    mon.need(all(o.distance(a, c) > 1e-3 * size for a, c in zip(p, p[1:])), "handle without length")
    d = case["share"] * min(curvatureRadius(p), size)
    b = Bezier(list(p))
    n = [unitNormal(p, 0), unitNormal(p, 1)]
    sine = abs(n[0][0] * n[1][1] - n[0][1] * n[1][0])
    tol = 1e-9 * size + 1e-12 * m / sine
    # where the normals at the ends meet
    det = n[0][0] * -n[1][1] + n[0][1] * n[1][0]
    ex, ey = p[-1][0] - p[0][0], p[-1][1] - p[0][1]
    k = (ex * -n[1][1] + ey * n[1][0]) / det
    center = (p[0][0] + k * n[0][0], p[0][1] + k * n[0][1])
    reach = o.distance(center, p[0])
    mon.need(reach < 1e3 * size, "center far away")
    # the rays from the center have to cross the tangents
    mon.need(min(reach, o.distance(center, p[-1])) > 1e-3 * size, "center at an end")
    tol = tol + 1e-11 * reach / sine
    if case["kind"] == "constant":
        got = b.scale(d)
        q = pts(got.controlPoints)
        mon.expect(len(q) == len(p), "same order", got=q)
        for s in (0, 1):
            near(mon, q[-s], (p[-s][0] + d * n[s][0], p[-s][1] + d * n[s][1]), 1e-8 * abs(d) + tol, "ends move by the distance", end=s)
        # inner control points: on the tangents at the moved ends, and on the rays from the center
        for i in range(1, len(p) - 1):
            s = 0 if i == 1 else 1
            a, v = q[-s], (n[s][1], -n[s][0])
            w = (p[i][0] - center[0], p[i][1] - center[1])
            h = math.hypot(*w)
            cut = abs(v[0] * w[1] - v[1] * w[0]) / h if h else 0
            if cut < .05: continue
            e1 = abs((q[i][0] - a[0]) * v[1] - (q[i][1] - a[1]) * v[0])
            e2 = abs((q[i][0] - center[0]) * w[1] - (q[i][1] - center[1]) * w[0]) / h
            mon.within(e1, (1e-8 * abs(d) + 100 * tol) / cut, "handle keeps its direction", index=i)
            mon.within(e2, (1e-8 * abs(d) + 100 * tol) / cut, "handle on its ray", index=i)
        mon.state("constant", len(p), d > 0, angle // 10, sides[0] > 0)
        return
    # a distance that varies along the curve, a polynomial in t
    f0, f1, f2 = (k * d for k in case["fn"])
    def distanceFn(t): return f0 * (1 - t) + f1 * t + 4 * f2 * t * (1 - t)
    class Distance(object):
        def __call__(self, t): return distanceFn(t)
        def at(self, t): return distanceFn(t)

    kind = int(abs(case["share"]) * 1000) % 4
    got = b.scale((distanceFn, Distance(), Distance().at, functools.partial(distanceFn))[kind])
    mon.note("function of kind %d" % kind)
    if len(p) == 3:  # a quadratic has one handle too few: raised first
        p = [p[0], ((p[0][0] + 2 * p[1][0]) / 3, (p[0][1] + 2 * p[1][1]) / 3), ((2 * p[1][0] + p[2][0]) / 3, (2 * p[1][1] + p[2][1]) / 3), p[2]]
    q = pts(got.controlPoints)
    mon.expect(len(q) == 4, "a cubic", got=q)
    r = (distanceFn(0), distanceFn(1))
    for s in (0, 1):
        near(mon, q[-s], (p[-s][0] + r[s] * n[s][0], p[-s][1] + r[s] * n[s][1]), 1e-8 * abs(r[s]) + tol, "ends move by the function", end=s)
    for i in (1, 2):
        w = (p[i][0] - center[0], p[i][1] - center[1])
        h = math.hypot(*w)
        if h < .01 * size: continue
        # away from the center if that is where the normals point, so that positive distances are on their side
        out = 1 if n[0][0] * (p[0][0] - center[0]) + n[0][1] * (p[0][1] - center[1]) > 0 else -1
        rc = out * distanceFn(i / 3)
        near(mon, q[i], (p[i][0] + rc * w[0] / h, p[i][1] + rc * w[1] / h), 1e-7 * abs(rc) + 100 * tol * (1 + abs(rc) / h), "handle moves by the function", index=i)
    mon.state("function", len(case["pts"]), out, angle // 10)


# ---------------------------------------------------------------- B16
def genABC(rng):
    return {"pts": gen.curve(rng) if rng.random() < .7 else gen.points(rng, rng.choice((3, 4)), styles=gen.ALL), "t": gen.t(rng)}


def checkABC(case, mon):
    p, t = pts(case["pts"]), case["t"]
    bounded(mon, p)
    mon.need(len(p) in (3, 4), "order")
    if not 0 <= t <= 1: t = abs(t) % 1
    m = o.magnitude(p)
    a, b, c, ratio, hull = Bezier(list(p)).getABC(t)
    T = o.F(t)
    e = o.fr(p)
    if len(p) == 3: A = e[1]
    else: A = tuple((1 - T) * e[1][i] + T * e[2][i] for i in (0, 1))
    near(mon, a, A, 1e-12 * m, "A", t=t)
    near(mon, b, o.bernsteinExact(p, t), 1e-12 * m, "B", t=t)
    n = len(p) - 1
    lo, hi = (1 - T) ** n, T ** n
    u = lo / (lo + hi)
    mon.within(abs(ratio - float(abs((lo + hi - 1) / (lo + hi)))), 1e-11, "ratio", t=t, got=ratio)
    mon.expect(len(hull) == (6 if n == 2 else 10), "hull", got=hull)
    for x, y in zip(hull, Bezier(list(p)).hull(t)): near(mon, x, y, 1e-12 * m, "hull")
    C = tuple(u * e[0][i] + (1 - u) * e[-1][i] for i in (0, 1))
    # A, B and C are on a line, with C on the chord; the line has to have a direction
    d = (float(A[0] - C[0]), float(A[1] - C[1]))
    chord = (float(e[-1][0] - e[0][0]), float(e[-1][1] - e[0][1]))
    h, l = math.hypot(*d), math.hypot(*chord)
    r = float(abs((lo + hi - 1)) )
    if h > 1e-3 * m and l > 1e-3 * m and abs(d[0] * chord[1] - d[1] * chord[0]) > .01 * h * l and r > 1e-3:
        near(mon, c, C, 1e-7 * m, "C", t=t)
        mon.within(abs(o.distance(b, c) - ratio * o.distance(a, b)), 1e-7 * m * (1 + ratio), "BC = ratio * AB", t=t)
        mon.state(n, int(t * 10))


# ---------------------------------------------------------------- B17
def genAlign(rng):
    p = gen.curve(rng, (1, 2, 3, 4)) if rng.random() < .5 else gen.points(rng, rng.choice((2, 3, 3, 4, 4, 5)), styles=gen.ALL)
    if rng.random() < .3:
        i = rng.choice((0, 1))
        p = sorted(p, key=lambda q: q[1], reverse=bool(i))
        if rng.random() < .4 and len(p) > 2:
            k = rng.randrange(1, len(p)); p[k] = (p[k][0], p[k - 1][1])
    return {"pts": p, "to": rng.choice((None, gen.points(rng, 2), gen.points(rng, 3)))}


def checkAlign(case, mon):
    p = pts(case["pts"])
    bounded(mon, p)
    y = [q[1] for q in p]
    got = Bezier(list(p)).direction
    pairs = list(zip(y, y[1:]))
    if len(p) == 2: want = Bezier.dir_flat if y[0] == y[1] else Bezier.dir_up if y[0] < y[1] else Bezier.dir_down
    elif len(p) > 4: want = got  # not defined
    else: want = Bezier.dir_up if all(a <= b for a, b in pairs) else Bezier.dir_down if all(a >= b for a, b in pairs) else Bezier.dir_mixed
    mon.expect(len({Bezier.dir_flat, Bezier.dir_up, Bezier.dir_down, Bezier.dir_mixed}) == 4, "directions differ")
    mon.expect(got == want, "direction", got=got, wanted=want)
    mon.state("direction", len(p), want)
    to = pts(case["to"]) if case["to"] else None
    if to: bounded(mon, to)
    line = to or p
    b = Bezier(list(p))
    q = b.align(list(to)).controlPoints if to else b.align().controlPoints
    mon.expect(len(q) == len(p), "same order", got=q)
    m = max(o.magnitude(p), o.magnitude(line))
    d = (float(o.F(line[-1][0]) - o.F(line[0][0])), float(o.F(line[-1][1]) - o.F(line[0][1])))
    h = math.hypot(*d)
    mon.need(h == 0 or h > 1e-9 * m, "no direction")
    u = (d[0] / h, d[1] / h) if h else (1.0, 0.0)
    for a, c in zip(q, p):
        x, z = c[0] - line[0][0], c[1] - line[0][1]
        near(mon, a, (x * u[0] + z * u[1], z * u[0] - x * u[1]), 1e-13 * m * 100, "aligned")
    if not to: near(mon, q[-1], (h, 0), 1e-11 * m, "end on the x axis")
    mon.expect(all(samePoint(a, c) for a, c in zip(b.controlPoints, p)), "original kept")
    mon.state("align", len(p), to is None, u[0] > 0, u[1] > 0)


# ---------------------------------------------------------------- B18
QUERIES = ("get", "normal", "midpoint", "dcPoints", "extrema", "bbox", "boundsRectangle", "tightbbox", "overlaps", "hull", "getLUT",
           "getLUT", "length", "split", "split2", "roots", "lineIntersects", "intersectWithLine", "align", "simple", "reduce", "selfIntersects",
           "intersects", "getABC", "raiseOrder", "offset", "offsetAt", "scale", "direction", "start", "end", "order", "controlPoints", "skeletonBounds", "startX", "startY", "endX", "endY")


def plain(value):
    """A comparable picture of an answer."""
    if isinstance(value, Bezier): return ("curve", plain(value.controlPoints))
    if isinstance(value, BoundsRectangle): return ("rectangle", value.points)
    if isinstance(value, (list, tuple)): return tuple(plain(v) for v in value)
    if isinstance(value, dict): return tuple((k, plain(v)) for k, v in sorted(value.items()))
    return value


def ask(b, query, a, other, handed=None):
    t, u, steps = a
    line = [(t * 10 - 5, -50.0), (t * 7, 60.0)]
    try:
        if query == "get": r = b.get(t)
        elif query == "normal": r = b.normal(t)
        elif query == "overlaps": r = b.overlaps(other)
        elif query == "hull": r = b.hull(t)
        elif query == "getLUT": r = b.getLUT(steps)
        elif query == "split": r = b.split(t)
        elif query == "split2": r = b.split(min(t, u), max(t, u)) if t != u else None
        elif query == "roots": r = b.roots(line)
        elif query == "lineIntersects": r = b.lineIntersects(tuple(line))
        elif query == "intersectWithLine": r = b.intersectWithLine(Bezier(line))
        elif query in ("align", "simple", "reduce", "selfIntersects", "raiseOrder"): r = getattr(b, query)()
        elif query == "intersects": r = b.intersects(other, 5)
        elif query == "getABC": r = b.getABC(t)
        elif query == "offset": r = b.offset(u)
        elif query == "offsetAt": r = b.offset(t, u)
        elif query == "scale": r = b.scale(u)
        else: r = getattr(b, query)
        answer = plain(r)
        if handed is not None and isinstance(r, (list, tuple, dict, BoundsRectangle, Bezier)): handed.append((query, r, answer))
        return answer
    except Exception as e:
        return ("raised", type(e).__name__)


MADE = ("curve", "curve", "curve", "contour", "left", "right", "middle", "part of a part", "aligned", "raised", "piece", "offset")
DERIVED = ("left", "right", "right", "middle", "part of a part", "aligned", "raised", "piece", "offset", "scaled")


def derive(b, how, t, u):
    """A curve made from another one, or None if there's none."""
    if not 0 <= t <= 1: t = abs(t) % 1
    if not 0 <= u <= 1: u = abs(u) % 1
    t, u = sorted((t, u))
    order = b.order
    if how == "aligned": return b.align()
    if how == "raised" and order < 3: return b.raiseOrder()
    if order > 1 and u - t > .05:
        if how == "left": return b.split(u)[0]
        if how == "right" and t < .9: return b.split(t)[1]
        if how == "middle": return b.split(t, u)
        if how == "part of a part": return b.split(t, u).split(.25, .75)
        if how == "scaled": return b.scale(u) if b.simple else None
        if how in ("piece", "offset"):
            pieces = b.reduce() if how == "piece" else b.offset(u)
            if pieces: return pieces[int(t * 97) % len(pieces)]
    return None


def made(how, t, u, points):
    """A curve that comes about in another way than by its constructor, and the curve it was made from, or None."""
    b = Bezier(points)
    if how == "contour": return BContour([points])[0], None
    try:
        new = derive(b, how, t, u)
    except ValueError:
        return None, b  # not in the domain of offsetting
    return (b, None) if new is None else (new, b)


def genPurity(rng):
    shapes = [s for s in gen.SHAPES if s not in ("flat", "closed")]
    curves = [gen.curve(rng, (1, 2, 3, 3), shapes, scale=100) for _ in range(rng.choice((1, 2, 2, 3)))]
    if rng.random() < .3 and len(curves) > 1:  # near twins
        k = rng.randrange(1, len(curves[0]))
        curves[1] = [q if i != k else (q[0] + 1, q[1]) for i, q in enumerate(curves[0])]
    steps = rng.choice((5, 10, 100))
    question = lambda: rng.choice(DERIVED) if rng.random() < .1 else rng.choice(QUERIES)
    detail = lambda: (gen.t(rng), gen.t(rng), rng.choice((steps, steps, 7, 20)))
    history = [(rng.randrange(4), question(), detail()) for _ in range(rng.randint(2, rng.choice((12, 12, 12, 12, 12, 36))))]
    for _ in range(rng.randint(0, 3)):  # what's asked of a curve is asked of one made from it
        i, d, at = rng.randrange(len(curves)), detail(), rng.randrange(len(history) + 1)
        asked = [(i, rng.choice(QUERIES), d) for _ in range(rng.randint(1, 4))]
        history[at:at] = asked + [(i, rng.choice(DERIVED), (rng.choice((0, .5, rng.random())), rng.choice((1, .5, rng.random())), 10))] + asked
    return {"curves": curves, "made": [(rng.choice(MADE), gen.t(rng), gen.t(rng)) for _ in curves], "steps": history}


def checkPurity(case, mon):
    curves = [pts(c) for c in case["curves"]]
    def domain(c):
        pieceDomain(mon, c, 3000, .05) if len(c) > 2 else bounded(mon, c, 3000)
        mon.need(4 <= o.size(c) <= 1000, "size")

    for c in curves: domain(c)
    # the curves asked are made in several ways; curves is what they are to be
    parents, shared = [], []
    given = [list(c) for c in curves]
    for k, (c, g) in enumerate(zip(list(curves), given)):
        how, t, u = case["made"][k] if k < len(case["made"]) else ("curve", 0, 1)
        b, parent = made(how, t, u, g)
        mon.need(b is not None, "offset")
        if parent is not None:
            curves[k] = pts(b.controlPoints)
            domain(curves[k])
            mon.need(len(c) == 2 or clean(curves[k]), "coordinates that are only rounding")
            parents.append((parent, g, c))
            given[k] = list(curves[k])
            mon.note("made as " + how)
        shared.append(b)
    for i, c in enumerate(curves):
        if len(c) > 2:
            for d in curves[i + 1:]:
                if len(d) > 2: mon.need(closeEnough(c, d), "run along each other")
    handed = []
    for index, query, a in case["steps"]:
        index %= len(curves)
        if query in DERIVED:
            # a curve made from one that has been asked before takes its place, or joins
            try:
                new = derive(shared[index], query, a[0], a[1])
            except ValueError:
                continue
            if new is None: continue
            fresh = derive(Bezier(list(curves[index])), query, a[0], a[1])
            c = pts(new.controlPoints)
            mon.expect(c == pts(fresh.controlPoints), "answers as a fresh curve does", query=query, got=c, wanted=fresh.controlPoints, index=index)
            try:
                domain(c)
                mon.need(len(c) == 2 or clean(c), "coordinates that are only rounding")
            except Skip:
                continue
            mon.note("derived " + query)
            if len(curves) < 4 and a[2] % 2:
                for l, v in ((curves, c), (given, list(c)), (shared, new)): l.append(v)
            else:
                parents.append((shared[index], given[index], curves[index]))
                curves[index], given[index], shared[index] = c, list(c), new
            continue
        a = (abs(a[0]) % 1 if not 0 <= a[0] <= 1 else a[0], a[1], max(2, min(200, abs(int(a[2])))))
        a = (a[0], abs(a[1]) % 1 if not 0 <= a[1] <= 1 else a[1], a[2])
        if query in ("roots", "lineIntersects", "intersectWithLine", "reduce", "selfIntersects", "intersects", "getABC", "split", "split2", "simple", "scale") and len(curves[index]) == 2: continue
        other = (index + 1) % len(curves)
        if query == "intersects" and (other == index or len(curves[other]) == 2 or not closeEnough(curves[index], curves[other])): continue
        if query == "selfIntersects" and len(curves) > 1 and a[0] < .5: continue
        first = ask(shared[index], query, a, shared[other], handed)
        fresh = ask(Bezier(list(curves[index])), query, a, Bezier(list(curves[other])))
        again = ask(shared[index], query, a, shared[other])
        mon.expect(first == fresh, "answers as a fresh curve does", query=query, got=first, wanted=fresh, index=index)
        mon.expect(again == first, "answers the same again", query=query, got=again, wanted=first, index=index)
        for g, c, b in zip(given, curves, shared):
            mon.expect(g == c and pts(b.controlPoints) == c, "control points kept", query=query, got=g, wanted=c)
        for parent, g, c in parents: mon.expect(g == c and pts(parent.controlPoints) == c, "control points kept", query=query, got=g, wanted=c)
        mon.state(query, len(curves[index]))
    for query, r, answer in handed: mon.expect(plain(r) == answer, "answers handed out are kept", query=query, got=plain(r), wanted=answer)


def closeEnough(c, d):
    from .crossings import closeShare
    return closeShare(c, d, 5, 60) < 300


PROPERTIES = [
    Property("B12", genReduce, checkReduce, "regular quadratics and cubics of all shapes; each piece is matched to its parameter range by its derivatives and compared with the exact blossom",
             ["curve is reduced", "piece traces the curve", "piece is monotone", "piece bends less than 60 degrees", "piece is on one side of its chord", "pieces cover the curve"], quick=1800, thorough=45000),
    Property("B13", genSimple, checkSimple, "quadratics and cubics and parts of them, bends and sides computed from the control points", ["simple"], quick=40000, thorough=1000000),
    Property("B14", genOffset, checkOffset, "lines, quadratics and cubics with offsets up to half of the smallest radius of curvature", 
             ["offset point is on the curve", "offset normal", "point moved along the normal", "parallel line", "ends at the distance", "offset curves join", "end direction kept", "stays at the distance", "on the side of the normal"], quick=1200, thorough=30000),
    Property("B15", genScale, checkScale, "simple quadratics and cubics scaled by constants and by functions, against the construction from the end normals",
             ["ends move by the distance", "handle keeps its direction", "handle on its ray", "ends move by the function", "handle moves by the function"], quick=32000, thorough=800000),
    Property("B16", genABC, checkABC, "quadratics and cubics at t in [0, 1], against the exact projection ratio", ["A", "B", "C", "ratio", "BC = ratio * AB"], quick=40000, thorough=1000000),
    Property("B17", genAlign, checkAlign, "curves of order 1-4 aligned to their chord or another segment; directions from the order of y coordinates", ["aligned", "end on the x axis", "direction"], quick=40000, thorough=1000000),
    Property("B18", genPurity, checkPurity, "histories of queries on shared curves, each compared with a fresh curve, which is asked only that", ["answers as a fresh curve does", "answers the same again", "control points kept", "answers handed out are kept"], quick=2000, thorough=50000),
]
