"""Single curves: evaluation, derivatives, splitting, raising, extrema, bounds, length."""
import decimal
import random
from decimal import Decimal

import numpy as np

from .common import *

ORDERS = (1, 1, 2, 2, 2, 2, 2, 2, 3, 3, 3, 3, 3, 3, 3, 4, 4, 5, 5, 6, 9, 14)


def anyCurve(rng, orders=ORDERS):
    order = rng.choice(orders)
    if rng.random() < .5: return gen.curve(rng, (order,))
    return gen.points(rng, order + 1, styles=gen.ALL)


# ---------------------------------------------------------------- B01
def genEval(rng):
    return {"pts": anyCurve(rng, ORDERS + (7, 8, 20)), "ts": [gen.t(rng) for _ in range(3)], "tuple": rng.random() < .2}


def checkEval(case, mon):
    p = pts(case["pts"])
    bounded(mon, p)
    given = tuple(p) if case["tuple"] else list(p)
    b = Bezier(given)
    n, m = len(p) - 1, o.magnitude(p)
    tol = 1e-12 * (n + 1) * m
    mon.expect(b.order == n, "order", got=b.order)
    mon.expect(len(b.controlPoints) == n + 1 and all(samePoint(a, c) for a, c in zip(b.controlPoints, p)), "control points", got=b.controlPoints)
    mon.expect(samePoint(b.start, p[0]) and b.startX == p[0][0] and b.startY == p[0][1], "start")
    mon.expect(samePoint(b.end, p[-1]) and b.endX == p[-1][0] and b.endY == p[-1][1], "end")
    mon.expect(samePoint(b.get(0), p[0]), "point at 0", got=b.get(0))
    mon.expect(samePoint(b.get(1), p[-1]), "point at 1", got=b.get(1))
    near(mon, b.midpoint, o.bernsteinExact(p, o.F(1, 2)), tol, "midpoint")
    for t in case["ts"]:
        if not 0 <= t <= 1: t = abs(t) % 1
        near(mon, b.get(t), o.bernsteinExact(p, t), tol, "point at t", t=t)
        hull = list(b.hull(t))
        mon.expect(len(hull) == (n + 1) * (n + 2) // 2, "hull size", got=len(hull))
        level, i = o.fr(p), 0
        mon.expect(all(samePoint(a, c) for a, c in zip(hull, p)), "hull starts with control points", got=hull)
        while level:
            for q in level:
                near(mon, hull[i], q, tol, "hull", t=t, index=i)
                i += 1
            level = [((1 - o.F(t)) * x0 + o.F(t) * x1, (1 - o.F(t)) * y0 + o.F(t) * y1) for (x0, y0), (x1, y1) in zip(level, level[1:])]
        mon.state(n, t == 0, t == 1, t < .5)


# ---------------------------------------------------------------- B02
def genDerivative(rng):
    return {"pts": anyCurve(rng), "ts": [gen.t(rng) for _ in range(3)]}


def checkDerivative(case, mon):
    p = pts(case["pts"])
    bounded(mon, p)
    b = Bezier(list(p))
    n, m = len(p) - 1, o.magnitude(p)
    exact, dc = o.fr(p), b.dcPoints
    mon.expect(len(dc) == n, "derivative levels", got=len(dc))
    factor = 1
    levels = []
    for k in range(n):
        exact = o.derivativePoints(exact)
        levels.append(exact)
        factor *= 2 * (n - k)
        mon.expect(len(dc[k]) == len(exact), "derivative points", level=k, got=len(dc[k]))
        for q, e in zip(dc[k], exact):
            near(mon, q, e, 1e-13 * factor * m * n, "derivative", level=k)
    fastest = max(max(abs(x), abs(y)) for x, y in levels[0])
    for t in list(case["ts"]) + [0, 1]:
        if not 0 <= t <= 1: t = abs(t) % 1
        vx, vy = o.bernsteinExact(levels[0], t)
        v = math.hypot(vx, vy)
        clause = "normal"
        if v == 0:
            if t not in (0, 1): continue
            q = p if t == 0 else p[::-1]
            away = [a for a in q if not samePoint(a, q[0])]
            if not away: continue
            sign = 1 if t == 0 else -1
            vx, vy = sign * (o.F(away[0][0]) - o.F(q[0][0])), sign * (o.F(away[0][1]) - o.F(q[0][1]))
            v = math.hypot(vx, vy)
            clause = "normal at retracted end"
        if v < 1e-100: continue
        tol = 1e-11 + 1e-14 * n * n * m / v
        if tol > 1e-3 or (clause == "normal" and v < 1e-6 * fastest): continue
        near(mon, b.normal(t), (-vy / o.F(v), vx / o.F(v)), tol, clause, t=t)
        mon.state(n, t == 0, t == 1, clause, vx > 0, vy > 0)


# ---------------------------------------------------------------- B03
def genSplit(rng):
    t1, t2 = sorted((gen.t(rng), gen.t(rng)))
    p = gen.curve(rng) if rng.random() < .6 else gen.points(rng, rng.choice((3, 4)), styles=gen.ALL)
    return {"pts": p, "t": gen.t(rng), "t1": t1, "t2": t2, "more": [gen.t(rng) for _ in range(rng.randrange(3))],
            "reduce": rng.random() < .1}


def isPart(mon, piece, p, t1, t2, tol, clause):
    wanted = o.blossom(p, t1, t2)
    got = piece.controlPoints
    mon.expect(len(got) == len(p), "same order", got=got)
    for i, (q, e) in enumerate(zip(got, wanted)): near(mon, q, e, tol, clause, index=i, t1=float(t1), t2=float(t2))


def checkSplit(case, mon):
    p = pts(case["pts"])
    mon.need(len(p) in (3, 4), "order")
    bounded(mon, p)
    m = o.magnitude(p)
    tol = 1e-12 * m
    fix = lambda t: t if 0 <= t <= 1 else abs(t) % 1
    t, (t1, t2) = fix(case["t"]), sorted((fix(case["t1"]), fix(case["t2"])))
    b = Bezier(list(p))
    left, right, hull = b.split(t)
    isPart(mon, left, p, 0, t, tol, "left part")
    isPart(mon, right, p, t, 1, tol, "right part")
    mon.expect(samePoint(left.start, p[0]) and samePoint(right.end, p[-1]), "ends kept", left=left.start, right=right.end)
    mon.expect(samePoint(left.end, right.start), "parts join", left=left.end, right=right.start)
    near(mon, left.end, o.bernsteinExact(p, t), tol, "split point", t=t)
    mon.expect(len(hull) == (6 if len(p) == 3 else 10), "hull of the split", got=hull)
    for a, c in zip(hull, b.hull(t)): near(mon, a, c, tol, "hull of the split")
    if t1 < t2 and t2 - t1 > 1e-9 and 1 - t1 > 1e-9:
        piece = b.split(t1, t2)
        isPart(mon, piece, p, t1, t2, 10 * tol, "middle part")
        # a history: parts of parts
        lo, hi = o.F(t1), o.F(t2)
        for s in case["more"]:
            s = fix(s)
            l, r, _ = piece.split(s)
            mid = lo + (hi - lo) * o.F(s)
            isPart(mon, l, p, lo, mid, 20 * tol, "part of a part")
            isPart(mon, r, p, mid, hi, 20 * tol, "part of a part")
            if s > .5: piece, hi = l, mid
            else: piece, lo = r, mid
        mon.state(len(p), t1 == 0, t2 == 1, len(case["more"]))
    mon.expect(all(samePoint(a, c) for a, c in zip(b.controlPoints, p)), "original kept")
    if case["reduce"] and m <= 1e5 and regular(p):
        mon.observing = True
        b.reduce()
        mon.observing = False


def installSplit(mon):
    """An online monitor on every split that the library makes itself (reduce makes hundreds)."""
    original = Bezier.split
    rng = random.Random(5)
    mon.observing = False

    def split(self, t1, t2=None):
        result = original(self, t1, t2)
        if mon.observing and rng.random() < .05:
            try:
                p = copied(self.controlPoints)
                tol = 1e-10 * o.magnitude(p)
                if t2 is None:
                    isPart(mon, result[0], p, 0, t1, tol, "observed split")
                    isPart(mon, result[1], p, t1, 1, tol, "observed split")
                elif t1 < t2 <= 1:
                    isPart(mon, result, p, t1, t2, tol, "observed split")
            except Violation as v:
                mon.defer(v)
        return result

    Bezier.split = split


# ---------------------------------------------------------------- B04
def genRaise(rng):
    return {"pts": anyCurve(rng), "times": rng.choice((1, 1, 2, 3))}


def checkRaise(case, mon):
    p = pts(case["pts"])
    bounded(mon, p)
    b, e = Bezier(list(p)), o.fr(p)
    m = o.magnitude(p)
    for k in range(max(1, min(4, case["times"]))):
        b = b.raiseOrder()
        n = len(e)
        e = [e[0]] + [(o.F(i, n) * e[i - 1][0] + o.F(n - i, n) * e[i][0], o.F(i, n) * e[i - 1][1] + o.F(n - i, n) * e[i][1]) for i in range(1, n)] + [e[-1]]
        mon.expect(b.order == n and len(b.controlPoints) == n + 1, "order raised by one", got=b.order, wanted=n)
        mon.expect(samePoint(b.start, p[0]) and samePoint(b.end, p[-1]), "ends kept", got=b.controlPoints)
        for q, w in zip(b.controlPoints, e): near(mon, q, w, 1e-12 * n * m, "same curve", k=k)
        for t in (0.25, 0.7): near(mon, b.get(t), o.bernsteinExact(p, t), 1e-12 * n * m, "same points", t=t)
        mon.state(n, k)


# ---------------------------------------------------------------- B05
def genExtrema(rng):
    return {"pts": anyCurve(rng, (1, 2, 2, 3, 3, 3))}


def checkExtrema(case, mon):
    p = pts(case["pts"])
    bounded(mon, p)
    m, n = o.magnitude(p), len(p) - 1
    mon.need(m > 1e-100, "all zero")
    ex = Bezier(list(p)).extrema
    for dim in (0, 1):
        co = o.polynomial([q[dim] for q in p])
        d1, d2 = o.derivative(co), o.derivative(o.derivative(co))
        got = list(ex[dim])
        tol = 1e-12 * n * n * m
        for t in got:
            mon.expect(0 <= t <= 1, "extremum in [0, 1]", t=t)
            e = abs(o.valueAt(d1, o.F(t)))
            if n == 3: e = min(e, abs(o.valueAt(d2, o.F(t))) / 4)
            mon.within(e, tol, "reported extremum", dim=dim, t=t)
        # every simple zero of the derivative that isn't lost in rounding
        for r in o.realRoots(d1, 0, 1):
            slope = abs(o.valueAt(d2, r))
            if not o.F(1, 10**9) < r < 1 - o.F(1, 10**9) or slope < 1e-5 * m: continue
            e = min((abs(o.F(t) - r) for t in got), default=1) * slope
            mon.within(e, 10 * tol + 1e-9 * slope, "turning point found", dim=dim, r=float(r), got=got)
            mon.state(n, dim, len(got))
    both = sorted(set(list(ex[0]) + list(ex[1])))
    mon.expect(list(ex[2]) == both, "combined list", got=list(ex[2]), wanted=both)


# ---------------------------------------------------------------- B06
def genBounds(rng):
    return {"pts": anyCurve(rng, (1, 2, 2, 3, 3, 3)), "other": anyCurve(rng, (1, 2, 3)), "move": rng.choice((None, gen.t(rng), 0, 1))}


def extent(values):
    """(smallest, largest) value of the Bernstein polynomial with these exact values."""
    co = o.polynomial(values)
    ts = [o.F(0), o.F(1)] + o.realRoots(o.derivative(co), 0, 1)
    v = [o.valueAt(co, t) for t in ts]
    return min(v), max(v)


def checkBounds(case, mon):
    p, q = pts(case["pts"]), pts(case["other"])
    bounded(mon, p + q)
    if case["move"] is not None:  # the other one touches or overlaps
        s = o.at1(p, abs(case["move"]) % 1)
        q = [(x - q[0][0] + s[0], y - q[0][1] + s[1]) for x, y in q]
    curves = []
    for c in (p, q):
        b = Bezier(list(c))
        curves.append(b)
        m = o.magnitude(c)
        tol = 1e-11 * m
        (l, r), (bt, tp) = extent([a[0] for a in c]), extent([a[1] for a in c])
        box = b.boundsRectangle
        for name, got, want in (("left", box.left, l), ("right", box.right, r), ("bottom", box.bottom, bt), ("top", box.top, tp)):
            mon.within(abs(o.F(got) - want), tol, "bounds are tight", side=name, got=got, want=float(want))
        bb = b.bbox
        mon.expect(tuple(bb[0]) == (box.left, box.right) and tuple(bb[1]) == (box.bottom, box.top), "bbox agrees", bbox=bb)
        # tight box: the bounds in the frame of the chord
        d = (float(o.F(c[-1][0]) - o.F(c[0][0])), float(o.F(c[-1][1]) - o.F(c[0][1])))
        h = math.hypot(*d)
        if h != 0 and h < 1e-6 * m: continue
        ux, uy = (d[0] / h, d[1] / h) if h else (1.0, 0.0)
        uF, vF = o.F(ux), o.F(uy)
        e = o.fr(c)
        al = [((x - e[0][0]) * uF + (y - e[0][1]) * vF, (y - e[0][1]) * uF - (x - e[0][0]) * vF) for x, y in e]
        (l, r), (bt, tp) = extent([a[0] for a in al]), extent([a[1] for a in al])
        tb = b.tightbbox
        mon.expect(len(tb) == 4 and all(len(s) == 2 for s in tb), "tight box has four sides", got=tb)
        ttol = 1e-10 * m
        corners = []
        for i, s in enumerate(tb):
            near(mon, s[1], tb[(i + 1) % 4][0], ttol, "tight box is closed")
            dx, dy = s[0][0] - c[0][0], s[0][1] - c[0][1]
            corners.append((dx * ux + dy * uy, dy * ux - dx * uy))
        want = [(l, bt), (l, tp), (r, tp), (r, bt)]
        # any starting corner and direction will do
        best = min((max(max(abs(corners[k][j] - float(w[j])) for j in (0, 1)) for k, w in enumerate(rot)) for i in range(4)
                    for rot in (want[i:] + want[:i], (want[i:] + want[:i])[::-1])))
        mon.within(best, ttol, "tight box is tight", got=corners, want=[(float(a), float(z)) for a, z in want])
    # overlapping is having a common point, touching included. The rectangles themselves are decided above.
    r1, r2 = (c.boundsRectangle for c in curves)
    common = max(r1.left, r2.left) <= min(r1.right, r2.right) and max(r1.bottom, r2.bottom) <= min(r1.top, r2.top)
    touch = common and (r1.left == r2.right or r1.right == r2.left or r1.top == r2.bottom or r1.bottom == r2.top)
    for a, c in (curves, curves[::-1]):
        mon.expect(bool(a.overlaps(c)) == common, "touching curves overlap" if touch else "overlaps", got=a.overlaps(c))
    mon.state("overlap", common, touch, len(p), len(q))


# ---------------------------------------------------------------- B07
def genLength(rng):
    settings = [(rng.choice((28, 28, 28, 9, 15, 50, 60)), rng.choice((decimal.ROUND_HALF_EVEN, decimal.ROUND_DOWN, decimal.ROUND_UP)))]
    for _ in range(rng.choice((0, 0, 1, 1, 2, 3))):  # asked again, with the same settings or others
        settings.append(rng.choice((settings[-1], settings[0], (settings[-1][0], decimal.ROUND_DOWN), (rng.choice((9, 28, 50)), settings[-1][1]))))
    return {"pts": anyCurve(rng, (1, 1, 2, 2, 3, 3, 3, 4, 5)) if rng.random() < .7 else gen.curve(rng, (1, 2, 3), ("gentle", "arch", "circle", "axis")),
            "settings": settings, "traps": rng.random() < .05, "decimals": rng.choice((0, 0, 0, 1, 7))}


def checkLength(case, mon):
    p = pts(case["pts"])
    bounded(mon, p)
    truth, quad = o.trueLength(p), o.gl24(p)
    polygon = sum(math.hypot(b[0] - a[0], b[1] - a[1]) for a, b in zip(p, p[1:]))
    n = len(p) - 1
    fine, exact = None, all(float(c).is_integer() and abs(c) < 1e9 for q in p for c in q)
    mon.need(abs(case["decimals"]) < 20, "far from the floats")
    if case["decimals"]:
        # coordinates may be Decimal, with digits that floats don't have
        step, exact = Decimal(int(case["decimals"])) * Decimal("1.2345678901e-17") * Decimal(o.magnitude(p)), True
        with decimal.localcontext() as context:
            context.prec = 45
            p = [tuple(Decimal(float(c)) + step * (2 * i + j) for j, c in enumerate(q)) for i, q in enumerate(p)]
    b = Bezier(list(p))
    for k, (prec, rounding) in enumerate(case["settings"]):
        prec = prec if 9 <= prec <= 60 else 28
        with decimal.localcontext() as context:
            context.prec, context.rounding = prec, rounding
            if case["traps"]:
                # asked for where the caller doesn't allow rounding: it may refuse, but not leave other settings behind
                context.traps[decimal.Inexact] = True
                try:
                    Bezier(list(p)).length
                    mon.note("exact")
                except decimal.Inexact:
                    mon.note("refused to round")
                mon.expect(decimal.getcontext().prec == prec, "decimal settings kept when it fails", prec=decimal.getcontext().prec)
                context.prec, context.traps[decimal.Inexact] = prec, False
            got = b.length
            now = decimal.getcontext()
            mon.expect(now is context and now.prec == prec and now.rounding == rounding, "decimal settings kept", prec=now.prec)
            mon.expect(got >= 0, "length not negative", got=got)
            tol = 2 * abs(quad - truth) + 1e-10 * polygon + 1e-14 * n * n * o.magnitude(p) + (300 * n * polygon + 8 * n * n * o.magnitude(p)) * 10.0 ** -prec
            mon.within(abs(float(got) - truth), tol, "arc length", got=got, truth=truth, quadrature=quad)
            if prec > 16 and exact:
                # more digits than floats have: as many as the quadrature can give
                if fine is None: fine, coarse = o.decimalLength(p, 8), o.decimalLength(p)
                ulp = decimal.Decimal(10) ** -prec  # coordinates may be rounded, too
                allowed = 2 * abs(fine - coarse) + decimal.Decimal(polygon) * (300 * n * ulp + decimal.Decimal("1e-37")) + 8 * n * n * ulp * decimal.Decimal(float(o.magnitude(p)))
                if allowed < decimal.Decimal(polygon) * decimal.Decimal("1e-18"):
                    mon.within(float(abs(got - fine) / allowed) if allowed else float(abs(got - fine)), 1, "digits that floats don't have", got=got, wanted=fine, prec=prec)
            mon.expect(len(got.as_tuple().digits) <= prec, "rounded to the precision", got=got, prec=prec)
            # the settings that count are the present ones, not those of an earlier question
            if k: mon.expect(got == Bezier(list(p)).length, "length for the present settings", got=got, wanted=Bezier(list(p)).length, settings=case["settings"][:k + 1])
            if abs(quad - truth) < 1e-9 * polygon: mon.note("smooth enough for nine digits")
            mon.state(n, prec, rounding, k)


PROPERTIES = [
    Property("B01", genEval, checkEval, "random, degenerate and tied control points of order 1-8, three t each, compared with the exact rational Bernstein sum; non-trivial: at least one clause was decided",
             ["point at t", "hull", "midpoint", "point at 0", "point at 1"], quick=24000, thorough=600000),
    Property("B02", genDerivative, checkDerivative, "curves of order 1-6 with retracted handles, five t each, against exact difference polygons",
             ["derivative", "normal", "normal at retracted end"], quick=25000, thorough=625000),
    Property("B03", genSplit, checkSplit, "quadratics and cubics split at one and two parameters, parts of parts, and every 20th split that reduce makes itself, against exact blossoms",
             ["left part", "right part", "middle part", "part of a part", "observed split"], quick=6000, thorough=150000, install=installSplit),
    Property("B04", genRaise, checkRaise, "curves of order 1-6 raised 1-3 times, against exact degree elevation", ["same curve", "same points"], quick=30000, thorough=750000),
    Property("B05", genExtrema, checkExtrema, "lines, quadratics and cubics; zeros of the exact derivative isolated with Sturm sequences", ["reported extremum", "turning point found", "combined list"], quick=12000, thorough=300000),
    Property("B06", genBounds, checkBounds, "pairs of lines, quadratics and cubics, half of them touching; exact extents by Sturm sequences", ["bounds are tight", "tight box is tight", "overlaps", "touching curves overlap"], quick=3200, thorough=80000),
    Property("B07", genLength, checkLength, "curves of order 1-5 under several decimal precisions and rounding modes, against adaptive quadrature", ["arc length", "decimal settings kept", "length for the present settings", "rounded to the precision", "digits that floats don't have"], quick=9000, thorough=225000),
]
