"""Where curves meet lines, other curves and themselves."""
import numpy as np

from .common import *

LIMIT = 20000


def lineFrame(p, line):
    """Exact signed distances (times the length of the line) of the control points, and that length."""
    (ax, ay), (bx, by) = o.fr(line)
    d = (bx - ax, by - ay)
    return [d[0] * (y - ay) - d[1] * (x - ax) for x, y in o.fr(p)], math.hypot(*d)


def crossingsOf(p, values, length, tol):
    """[(t, slope)]: the exact simple zeros in [0, 1] of the signed distance; slope in units per t."""
    co = o.polynomial(values)
    scale = max((abs(float(v)) for v in values), default=0) / length
    # a leading coefficient that is only rounding isn't a reason for a root
    d1 = o.derivative(co)
    found = []
    for r in o.realRoots(co, o.F(-1, 10**9), 1 + o.F(1, 10**9)):
        slope = abs(float(o.valueAt(d1, r))) / length
        found.append((float(r), slope))
    return found, scale


def genLine(rng, p):
    r = rng.random()
    size = max(1, o.size(p))
    if r < .5:
        # through a point of the curve
        x, y = o.at1(p, rng.random())
        a = rng.choice((0, 90, 180, 45, rng.uniform(0, 360), rng.uniform(0, 360)))
        k, l = rng.uniform(.05, 1.5) * size, rng.uniform(.05, 1.5) * size
        if rng.random() < .15: k = -k / 2
        c, s = {0: (1, 0), 90: (0, 1), 180: (-1, 0)}.get(a, (math.cos(math.radians(a)), math.sin(math.radians(a))))
        line = [(x - k * c, y - k * s), (x + l * c, y + l * s)]
        if rng.random() < .4: line = [tuple(map(round, q)) for q in line]
        return line
    if r < .58:  # a tangent, or beside one
        t = rng.random()
        (x, y), (vx, vy) = o.at1(p, t), o.velocity(p, [t])[0]
        k = 10 ** rng.uniform(-8, -1) * rng.choice((-1, 0, 0, 1))
        x, y = x - k * vy, y + k * vx
        k = 10 ** rng.uniform(-1, 1)
        return [(x - k * vx, y - k * vy), (x + vx, y + vy)]
    if r < .62: return [rng.choice(p), rng.choice(p)]
    if r < .7: return [o.at1(p, rng.random()), o.at1(p, rng.random())]
    return [tuple(rng.uniform(-1, 1) * size + p[0][i] for i in (0, 1)) for _ in range(2)]


def nearlyQuadratic(rng):
    """A cubic of which the cubic coefficient is small."""
    p = gen.curve(rng, (3,), ("raised",))
    i, k = rng.randrange(4), o.size(p) * 10 ** rng.uniform(-7, -2)
    p[i] = (p[i][0] + k * rng.uniform(-1, 1), p[i][1] + k * rng.uniform(-1, 1))
    return p


def shifted(rng, case):
    """Sometimes far from where coordinates begin, as far as they may be."""
    if rng.random() < .9 or not case["line"]: return case
    m = max(abs(v) for q in case["pts"] + case["line"] for v in q)
    if m > LIMIT / 2: return case
    far = [rng.choice((-1, 0, 1, 1)) * math.exp(rng.uniform(0, math.log(LIMIT - m))) for _ in range(2)]
    if rng.random() < .7: far = [float(round(v)) for v in far]
    return {k: [(x + far[0], y + far[1]) for x, y in v] for k, v in case.items()}


def genRoots(rng):
    p = gen.curve(rng) if rng.random() < .9 else nearlyQuadratic(rng)
    line = genLine(rng, p)
    if rng.random() < .15:
        y = o.at1(p, rng.random())[1]
        y = round(y) if rng.random() < .5 else y
        return {"pts": [(a, b - y) for a, b in p], "line": None}
    return shifted(rng, {"pts": p, "line": line})


def lineDomain(mon, p, line):
    bounded(mon, p, LIMIT)
    mon.need(o.size(p) >= 1, "tiny curve")
    mon.need(clean(p), "coordinates that are only rounding")
    if line:
        bounded(mon, line, LIMIT)
        mon.need(o.distance(*line) >= max(.5, .01 * o.size(p)), "short line")


def checkRoots(case, mon):
    p = pts(case["pts"])
    mon.need(len(p) in (3, 4), "order")
    line = pts(case["line"]) if case["line"] else None
    lineDomain(mon, p, line)
    given = list(line) if line else None
    got = list(Bezier(list(p)).roots(given) if line else Bezier(list(p)).roots())
    mon.expect(given == line, "line kept", got=given)
    values, length = lineFrame(p, line) if line else ([y for _, y in o.fr(p)], 1.0)
    m = max(o.magnitude(p), o.magnitude(line or p))
    # absolute, because the library's own thresholds are
    tol = 1e-6 + 1e-10 * m
    co = o.polynomial(values)
    mon.expect(len(got) <= len(p) - 1, "not more roots than the order", got=got)
    scale = max(abs(float(v)) for v in values) / length
    mon.need(scale > 1e-3, "the curve lies on the line")
    for t in got:
        mon.expect(-2e-6 <= t <= 1 + 2e-6, "root in [0, 1]", t=t)
        mon.within(abs(float(o.valueAt(co, o.F(t)))) / length, tol, "root is on the line", t=t)
    for r, slope in crossingsOf(p, values, length, tol)[0]:
        if slope < 5e-3 * scale + 1e-2: mon.note("tangential"); continue
        near_ = min((abs(t - r) for t in got), default=1)
        mon.within(near_ * slope, 2 * tol, "crossing is found", r=r, got=got)
        mon.state(len(p), len(got), line is None)


# ---------------------------------------------------------------- B09
def genLineHit(rng):
    order = rng.choice((1, 2, 2, 3, 3, 3))
    p = gen.curve(rng, (order,)) if order < 3 or rng.random() < .9 else nearlyQuadratic(rng)
    if order == 1 and rng.random() < .3:  # exactly parallel, or nearly so
        p = [tuple(map(round, q)) for q in p]
        (ax, ay), (bx, by) = p
        k, at = rng.choice((-3, -1, 1, 1, 2)), (rng.randint(-500, 500), rng.randint(-500, 500))
        line = [at, (at[0] + k * (bx - ax), at[1] + k * (by - ay))]
        if rng.random() < .3: line[1] = (line[1][0] + rng.choice((-1, 1)), line[1][1])
        return {"pts": p, "line": line}
    return shifted(rng, {"pts": p, "line": genLine(rng, p)})


def checkLineHit(case, mon):
    p, line = pts(case["pts"]), pts(case["line"])
    m = max(o.magnitude(p), o.magnitude(line))
    if len(p) == 2:
        bounded(mon, p + line, 1e6)
        (ax, ay), (bx, by), (cx, cy), (dx, dy) = o.fr(p + line)
        det = (ax - bx) * (cy - dy) - (ay - by) * (cx - dx)
        got = Bezier(list(p)).intersectWithLine(Bezier(list(line)))
        integral = all(float(c).is_integer() for q in p + line for c in q)
        lengths = o.distance(*p) * o.distance(*line)
        mon.need(lengths > 1e-6, "no length")
        sine = abs(float(det)) / lengths
        if det == 0 and integral:
            mon.expect(got is None, "parallel lines don't meet", got=got)
        elif sine > 1e-4:
            k = ((ax - cx) * (cy - dy) - (ay - cy) * (cx - dx)) / det
            x, y = ax + k * (bx - ax), ay + k * (by - ay)
            mon.expect(got is not None, "lines meet", got=got)
            reach = max(m, abs(float(x)), abs(float(y)))
            near(mon, got, (x, y), 1e-12 * reach * m / (sine * min(o.distance(*p), o.distance(*line))) + 1e-12 * reach, "point where lines meet")
        mon.state("line", det == 0, integral)
        return

    lineDomain(mon, p, line)
    tol = 1e-6 + 1e-10 * m
    values, length = lineFrame(p, line)
    found, scale = crossingsOf(p, values, length, tol)
    mon.need(scale > 1e-3, "the curve lies on the line")
    tangential = not all(s >= 5e-3 * scale + 1e-2 for _, s in found)  # what is found is right even so
    if tangential: mon.note("tangential")
    _, fast = o.speedRange(p, 50)
    # where the crossings are along the line, 0...1
    (ax, ay), (bx, by) = line
    d = (bx - ax, by - ay)
    along = lambda q: ((q[0] - ax) * d[0] + (q[1] - ay) * d[1]) / length ** 2
    got = list(Bezier(list(p)).lineIntersects((line[0], line[1])))
    for t in got:
        mon.expect(-2e-6 <= t <= 1 + 2e-6, "parameter in [0, 1]", t=t)
        q = o.at1(p, t)
        k = along(q)
        off = max(0, -k, k - 1) * length + abs(float(o.valueAt(o.polynomial(values), o.F(t)))) / length
        mon.within(off, 2 * tol, "crossing is on the segment", t=t)
    for r, slope in () if tangential else found:
        margin = 1e-4 * max(1, 1 / length)
        if not margin < along(o.at1(p, r)) < 1 - margin: continue
        mon.within(min((abs(t - r) for t in got), default=1) * slope, 2 * tol, "crossing of the segment is found", r=r, got=got)
        mon.state(len(p), len(got))
    hit = Bezier(list(p)).intersectWithLine(Bezier(list(line)))
    inside = [r for r, _ in found if 1e-5 < r < 1 - 1e-5]
    outside = [r for r, _ in found if not 1e-5 < r < 1 - 1e-5]
    if not tangential and not outside and not [r for r in o.realRoots(o.polynomial(values), o.F(-1, 100), o.F(101, 100)) if not 1e-5 < r < 1 - 1e-5]:
        # (a root just outside of [0, 1] may count, so leave those out)
        if not inside: 
            y = [float(v) / length for v in values]
            grid = o.at([(0, v) for v in y], np.linspace(0, 1, 200))[:, 1]
            if abs(grid).min() > 1e-3 * scale + 1e-3: mon.expect(hit is None, "no crossing", got=hit)
        else: mon.expect(hit is not None, "a crossing is found", wanted=inside)
    if hit is not None:
        k = abs((hit[0] - ax) * d[1] - (hit[1] - ay) * d[0]) / length
        # a root just outside of [0, 1] counts as 0 or 1
        end = min(o.distance(hit, q) for q in (p[0], p[-1])) < 1e-9 * m
        mon.within(k, 2 * tol + (2e-6 * fast if end else 0), "point is on the line", got=hit)
        mon.within(o.nearestOnCurve(p, hit)[0], 1e-5 * fast + tol, "point is on the curve", got=hit)


# ---------------------------------------------------------------- B10
def polyline(p, n):
    return o.at(p, np.linspace(0, 1, n + 1))


def meetings(p, q, n=128, reach=.02):
    """Transversal crossings [(t, u, point, sine)] of two curves, from polylines refined by Newton's method."""
    A, B = polyline(p, n), polyline(q, n)
    a0, a1 = A[:-1, None, :], A[1:, None, :]
    b0, b1 = B[None, :-1, :], B[None, 1:, :]
    d1, d2, w = a1 - a0, b1 - b0, b0 - a0
    det = d1[..., 0] * d2[..., 1] - d1[..., 1] * d2[..., 0]
    with np.errstate(all="ignore"):
        s = (w[..., 0] * d2[..., 1] - w[..., 1] * d2[..., 0]) / det
        u = (w[..., 0] * d1[..., 1] - w[..., 1] * d1[..., 0]) / det
    hits = np.argwhere((s >= -.2) & (s <= 1.2) & (u >= -.2) & (u <= 1.2))
    found = []
    for i, j in hits:
        t, v = (i + s[i, j]) / n, (j + u[i, j]) / n
        for _ in range(20):
            x, y = o.at1(p, t), o.at1(q, v)
            (vx, vy), (wx, wy) = o.velocity(p, [t])[0], o.velocity(q, [v])[0]
            det_ = vx * -wy + vy * wx
            if det_ == 0: break
            ex, ey = y[0] - x[0], y[1] - x[1]
            dt, dv = (ex * -wy + ey * wx) / det_, (vx * ey - vy * ex) / det_
            t, v = t + dt, v + dv
            if abs(dt) + abs(dv) < 1e-14 or not (abs(t) < 3 and abs(v) < 3): break
        if not (0 <= t <= 1 and 0 <= v <= 1): continue
        x, y = o.at1(p, t), o.at1(q, v)
        if o.distance(x, y) > 1e-6: continue
        (vx, vy), (wx, wy) = o.velocity(p, [t])[0], o.velocity(q, [v])[0]
        h = math.hypot(vx, vy) * math.hypot(wx, wy)
        if not h: continue
        sine = abs(vx * wy - vy * wx) / h
        if all(abs(t - f[0]) + abs(v - f[1]) > 1e-6 for f in found): found.append((float(t), float(v), x, sine))
    return found


def closeShare(p, q, threshold, n=200):
    """How many pairs of samples of the two curves are within twice the threshold: the work intersects has to do."""
    A, B = polyline(p, n), polyline(q, n)
    d = np.abs(A[:, None, :] - B[None, :, :]).sum(-1)
    return int((d < 3 * threshold + 1e-9).sum())


def weaving(rng):
    """Two cubics that cross up to nine times."""
    k = rng.choice((20, 100, 300, 800))
    a = [(-1, -1), (-1 / 3, 5), (1 / 3, -5), (1, 1)]
    b = [(y, x) for x, y in a]
    if rng.random() < .3: b = b[::-1]
    turn = rng.choice((0, 0, math.radians(rng.uniform(-20, 20))))
    c, s = math.cos(turn), math.sin(turn)
    wobble = lambda v: v * rng.uniform(.9, 1.1)
    at = rng.uniform(-2, 2) * k, rng.uniform(-2, 2) * k
    a, b = ([(k * wobble(x * c - y * s) + at[0], k * wobble(x * s + y * c) + at[1]) for x, y in p] for p in (a, b))
    return {"p": a, "q": b, "threshold": rng.choice((None, None, .5, .2, 1))}


def genMeet(rng):
    if rng.random() < .04: return weaving(rng)
    size = rng.choice((20, 100, 300))
    shapes = [s for s in gen.SHAPES if s not in ("flat", "retracted", "closed")]
    other = rng.choice((size, size, 8, 20, 100, 300, 1000))
    p, q = gen.curve(rng, shapes=shapes, scale=size), gen.curve(rng, shapes=shapes, scale=other)
    if rng.random() < .2:  # nearly upright or level
        k = rng.choice((.02, .05, .2))
        slim = lambda c, axis: [(x * k, y) if axis else (x, y * k) for x, y in c]
        if rng.random() < .5: p = slim(p, rng.randint(0, 1))
        else: q = slim(q, rng.randint(0, 1))
    # cross at chosen parameters
    x, y = o.at1(p, rng.random()), o.at1(q, rng.random())
    if rng.random() < .85: q = [(a - y[0] + x[0], b - y[1] + x[1]) for a, b in q]
    if rng.random() < .1:  # large ones, and a fine threshold
        k = rng.uniform(1800, 2900) / max(o.size(p), o.size(q))
        p, q = [[(a * k, b * k) for a, b in c] for c in (p, q)]
        return {"p": p, "q": q, "threshold": rng.choice((.05, .05, .06, .1))}
    return {"p": p, "q": q, "threshold": rng.choice((None, None, .5, .2, 1, 2, .1, .05))}


def pairDomain(mon, p, q, threshold):
    for c in (p, q):
        bounded(mon, c, 5000)
        mon.need(len(c) in (3, 4), "order")
        mon.need(clean(c) and 4 <= o.size(c) <= 3000, "size")
        mon.need(regular(c), "nearly stops")
    mon.need(.05 <= threshold <= 5, "threshold")
    mon.need(closeShare(p, q, threshold) < 1200, "run along each other")


def checkMeet(case, mon):
    p, q = pts(case["p"]), pts(case["q"])
    threshold = case["threshold"] or .5
    pairDomain(mon, p, q, threshold)
    b, c = Bezier(list(p)), Bezier(list(q))
    got = b.intersects(c) if case["threshold"] is None else b.intersects(c, threshold)
    for t, u in got:
        mon.expect(0 <= t <= 1 and 0 <= u <= 1, "parameters in [0, 1]", t=t, u=u)
        x, y = o.at1(p, t), o.at1(q, u)
        mon.within(abs(x[0] - y[0]) + abs(x[1] - y[1]), 2 * threshold + 1e-6, "reported crossing is close", t=t, u=u)
    found = meetings(p, q)
    if len(found) > 4: mon.note(f"{len(found)} crossings")
    for t, u, x, sine in found:
        if sine < .05: mon.note("nearly tangential"); continue
        e = min((max(o.distance(o.at1(p, a), x), o.distance(o.at1(q, v), x)) for a, v in got), default=math.inf)
        mon.within(e, 2 * threshold + 1e-6, "crossing is found", t=t, u=u, point=x, got=got[:10])
        mon.state(len(p), len(q), int(t * 10), int(u * 10))


# ---------------------------------------------------------------- B11
def genSelf(rng):
    size = rng.choice((40, 100, 300))
    r = rng.random()
    if r < .55: p = gen.curve(rng, (3,), ("loop",), scale=size)
    elif r < .7: p = gen.curve(rng, (2, 3), ("gentle", "circle", "symmetric"), scale=size)
    else: p = gen.curve(rng, (2, 3, 3), [s for s in gen.SHAPES if s not in ("flat", "retracted", "closed")], scale=size)
    return {"pts": p, "threshold": rng.choice((None, None, .5, .2, 1, .05, .1)), "none": rng.random() < .5}


def doublePoint(p):
    """The parameters and crossing sine of the double point of a cubic, or None."""
    # with C(t) = a t^3 + b t^2 + c t + d:  C(t) = C(u) <=> a(t^2+tu+u^2) + b(t+u) + c = 0
    d = np.asarray(p, dtype=float)
    a, b, c = -d[0] + 3 * d[1] - 3 * d[2] + d[3], 3 * d[0] - 6 * d[1] + 3 * d[2], 3 * (d[1] - d[0])
    # with s = t + u and r = tu: a s^2 - a r + b s + c = 0 in both coordinates; eliminate r
    det = a[0] * b[1] - a[1] * b[0]
    if abs(det) < 1e-9 * np.abs(d).max() ** 2: return None
    s = -(a[0] * c[1] - a[1] * c[0]) / det
    k = 0 if abs(a[0]) > abs(a[1]) else 1
    if abs(a[k]) < 1e-12: return None
    r = (a[k] * s * s + b[k] * s + c[k]) / a[k]
    disc = s * s - 4 * r
    if disc <= 0: return None
    t, u = (s - math.sqrt(disc)) / 2, (s + math.sqrt(disc)) / 2
    v, w = o.velocity(p, [t])[0], o.velocity(p, [u])[0]
    h = np.hypot(*v) * np.hypot(*w)
    return (t, u, abs(v[0] * w[1] - v[1] * w[0]) / h if h else 0)


def checkSelf(case, mon):
    p = pts(case["pts"])
    threshold = case["threshold"] or .5
    bounded(mon, p, 5000)
    mon.need(len(p) in (3, 4), "order")
    mon.need(clean(p) and 4 <= o.size(p) <= 3000, "size")
    mon.need(regular(p) and .05 <= threshold <= 5, "nearly stops")
    pieces = Bezier(list(p)).reduce()
    for i in range(len(pieces)):
        for other in pieces[i + 2:]:
            mon.need(closeShare(pts(pieces[i].controlPoints), pts(other.controlPoints), threshold, 60) < 300, "runs along itself")
    b = Bezier(list(p))
    args = [] if case["threshold"] is None else [threshold]
    got = b.intersects(None, *args) if case["none"] else b.selfIntersects(*args)
    for t, u in got:
        mon.expect(0 <= t <= 1 and 0 <= u <= 1, "parameters in [0, 1]", t=t, u=u)
        x, y = o.at1(p, t), o.at1(p, u)
        mon.within(abs(x[0] - y[0]) + abs(x[1] - y[1]), 2 * threshold + 1e-6, "reported crossing is close", t=t, u=u)
    # parts that aren't neighbours, and stay apart, aren't reported
    lines = [polyline(pts(c.controlPoints), 60) for c in pieces]
    apart = min((float(np.abs(A[:, None, :] - B[None, :, :]).sum(-1).min()) for i, A in enumerate(lines) for B in lines[i + 2:]), default=math.inf)
    longest = max(float(np.abs(np.diff(A, axis=0)).sum(-1).max()) for A in lines)
    if apart > 2 * threshold + 2 * longest:
        mon.expect(not got, "nothing reported", got=got[:10], apart=apart)
        mon.state("apart", len(pieces))
    double = doublePoint(p) if len(p) == 4 else None
    if double:
        t, u, sine = double
        x = o.at1(p, t)
        arc = polyline(p, 400)[int(max(0, t) * 400):int(min(1, u) * 400) + 1]
        reach = np.abs(arc - np.asarray(x)).max() if len(arc) else 0
        if 0 <= t and u <= 1 and sine > .1 and reach > 6 * threshold:
            e = min((max(o.distance(o.at1(p, a), x), o.distance(o.at1(p, v), x)) for a, v in got
                     if min(a, v) < (t + u) / 2 < max(a, v)), default=math.inf)
            mon.within(e, 2 * threshold + 1e-6, "crossing is found", t=t, u=u, point=x, got=got[:10])
            mon.state("loop", len(pieces), int(t * 10), int(u * 10))


PROPERTIES = [
    Property("B08", genRoots, checkRoots, "quadratics and cubics against lines through them, through control points, and elsewhere; exact roots by Sturm sequences",
             ["root is on the line", "crossing is found", "root in [0, 1]"], quick=9600, thorough=240000),
    Property("B09", genLineHit, checkLineHit, "lines and curves against segments that cross, miss or stop short; exact crossings",
             ["crossing is on the segment", "crossing of the segment is found", "no crossing", "a crossing is found", "point is on the line", "point is on the curve", "parallel lines don't meet", "lines meet"],
             quick=4800, thorough=120000),
    Property("B10", genMeet, checkMeet, "pairs of regular quadratics and cubics moved so that they cross, several thresholds; crossings by polylines and Newton's method",
             ["reported crossing is close", "crossing is found"], quick=1120, thorough=22400),
    Property("B11", genSelf, checkSelf, "cubics with and without loops; the double point is solved in closed form", ["reported crossing is close", "crossing is found", "nothing reported"], quick=800, thorough=20000),
]
