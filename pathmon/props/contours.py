"""Contours and outlines: editing histories, lookup tables, closest points, path strings, aggregates."""
import numpy as np

from .. import svg
from .common import *
from .curves import extent
from .shaping import plain


def asSegments(contour):
    return [pts(s) for s in contour]


def contourDomain(mon, contour, limit=1e6):
    mon.need(len(contour) > 0 and all(2 <= len(s) <= 4 for s in contour), "order")
    for s in contour: bounded(mon, s, limit)


def joined(contour):
    return all(samePoint(a[-1], b[0]) for a, b in zip(contour, contour[1:]))


# ---------------------------------------------------------------- N01
def genEdit(rng):
    c = gen.contour(rng, gen.count(rng, (1, 2, 3, 4, 5, 9), 40, .03))
    ops = []
    for _ in range(rng.randint(3, rng.choice((12, 12, 12, 12, 40)))):
        r = rng.random()
        if r < .3: ops.append(("set", rng.randint(-6, 6), gen.contour(rng, 1)[0]))
        elif r < .4: ops.append(("vary", rng.randint(-6, 6), rng.randrange(6)))
        elif r < .43: ops.append(("fail", rng.randint(-6, 6), rng.randrange(6)))
        elif r < .52: ops.append(("del", rng.randint(-6, 6), None))
        else: ops.append((rng.choice(("bounds", "start", "end", "lut", "lut", "closest", "d", "iterate", "get", "curve", "outline", "other", "copy")), rng.randint(-6, 6), rng.choice((2, 5, 10, 20, 51, 100))))
    ops.append((rng.choice(("bounds", "lut", "closest", "d", "start", "end", "outline")), 0, rng.choice((5, 10, 20))))
    return {"contour": c, "ops": ops, "point": gen.point(rng, "font"), "other": gen.contour(rng, rng.choice((1, 2))), "first": rng.random() < .5}


def varied(s, kind):
    """A curve that differs a little from the given one: often with its ends or its bounds."""
    inner = s[1:-1]
    if kind == 0: return s[::-1]
    if kind == 1: return [s[0], *inner[::-1], s[-1]]
    if kind == 2: return [s[0], s[-1]]
    if kind == 3: return [s[0], *[((a[0] + b[0]) / 2, (a[1] + b[1]) / 2) for a, b in zip(s, s[1:])], s[-1]][:4] if len(s) < 4 else [s[0], inner[0], inner[0], s[-1]]
    if kind == 4 and inner: return [s[0], (inner[0][0] + (s[-1][0] - s[0][0]) / 64, inner[0][1] + 1), *inner[1:], s[-1]]
    return list(s)


def askContour(outline, which, op, index, steps, point):
    if op == "outline": return (outline.boundsRectangle.points, len(list(outline)))
    bc = outline.bContours[1 - which if op == "other" else which]
    if op == "other": return (bc.boundsRectangle.points, plain(bc.getLUT(steps)), bc.d(), tuple(plain(b) for b in bc))
    if op == "bounds": return bc.boundsRectangle.points
    if op == "start": return tuple(bc.start)
    if op == "end": return tuple(bc.end)
    if op == "lut": return plain(bc.getLUT(steps))
    if op == "closest": return plain(bc.findClosestPoint(point, steps))
    if op == "d": return bc.d()
    if op == "iterate": return tuple(plain(b) for b in bc)
    if op == "get": return plain(bc[index])
    b = bc[index]
    return (b.boundsRectangle.points, plain(b.get(.3)), plain(b.getLUT(steps)))


def askCopy(c):
    return (c.boundsRectangle.points, c.d(), tuple(c.start), tuple(c.end), plain(c.getLUT(5)))


def checkEdit(case, mon):
    contour = asSegments(case["contour"])
    contourDomain(mon, contour)
    point = tuple(case["point"])
    original = [list(s) for s in contour]
    given = [list(s) for s in contour]
    other, which = asSegments(case["other"]), 0 if case["first"] else 1
    contourDomain(mon, other)

    def outlineOf(contour): return BOutline([contour, [list(s) for s in other]][::-1 if which else 1])

    outline = outlineOf(given)
    bc = outline.bContours[which]
    now = [list(s) for s in contour]
    trail, copies, handed = [], [], []
    for op, index, extra in case["ops"]:
        if op == "fail":
            far = len(now) + abs(int(index)) if index >= 0 else -len(now) + int(index)
            value = list(now[0][::-1])
            failing = [lambda: bc.__setitem__(far, value), lambda: bc.__delitem__(far), lambda: bc.__setitem__(0, []), lambda: bc.__setitem__(-1, [(1,), (2,)]),
                       lambda: bc.__setitem__(0, [(1, 2), None]), lambda: bc.__setitem__(0, None)][abs(int(extra)) % 6]
            try:
                failing()
                raised = False
            except Exception:
                raised = True
            mon.expect(raised, "an impossible edit is an error", what=extra, index=far)
            op, index, extra = "bounds", 0, 2  # (everything is as it was)
        index = index % len(now) if index >= 0 else -1 - (-index) % len(now)
        if op == "vary":
            extra = varied(now[index], abs(int(extra)) % 6)
            op = "set"
        if op == "set":
            s = pts(extra)
            if not 2 <= len(s) <= 4: continue
            bounded(mon, s, 1e6)
            value = list(s)
            bc[index] = value
            now[index] = list(s)
            mon.expect(value == s, "argument kept", got=value)
            mon.event = "set"
        elif op == "del":
            if len(now) < 2: continue
            del bc[index]
            del now[index]
        elif op == "copy":
            if len(copies) > 2: continue
            c = BOutline.pathFromSegments(*bc)
            if extra % 2: c.getLUT(max(2, min(150, abs(int(extra)))))
            copies.append((c, [list(s) for s in now], askCopy(c)))
            mon.expect(copies[-1][2] == askCopy(BContour([list(s) for s in now])), "answers as a fresh contour does", op=op, got=copies[-1][2], history=trail[-6:])
        else:
            steps = max(2, min(150, abs(int(extra))))
            fresh = askContour(outlineOf([list(s) for s in now]), which, op, index, steps, point)
            got = askContour(outline, which, op, index, steps, point)
            mon.expect(got == fresh, "answers as a fresh contour does", op=op, got=got, wanted=fresh, history=trail[-6:])
            if op in ("lut", "bounds"):
                r = bc.getLUT(steps) if op == "lut" else bc.boundsRectangle
                handed.append((op, r, plain(r) if op == "lut" else r.points))
            again = askContour(outline, which, op, index, steps, point)
            mon.expect(got == again, "answers the same again", op=op, got=again, wanted=got, history=trail[-6:])
            mon.state(op, "set" in trail, "del" in trail, len(now))
        if op in ("set", "del"):
            for c, s, answers in copies: mon.expect([pts(b.controlPoints) for b in c] == s and askCopy(c) == answers, "contours built before stay", got=askCopy(c), wanted=answers, history=trail[-6:])
        trail.append(op)
        mon.expect(len(bc.beziers) == len(now) and all([tuple(q) for q in b.controlPoints] == s for b, s in zip(bc, now)), "curves are those set", op=op, history=trail[-6:])
    for op, r, answer in handed: mon.expect((plain(r) if op == "lut" else r.points) == answer, "answers handed out are kept", op=op, got=r, wanted=answer)
    mon.expect(given == original, "contour given is kept", got=given)


# ---------------------------------------------------------------- N02
def genLUT(rng):
    return {"contour": gen.contour(rng), "steps": [rng.choice((2, 3, 5, 10, 17, 50, 51, 100, 101, 150, rng.randint(2, 210))) for _ in range(rng.choice((1, 2, 2, 3, 3, 6)))],
            "pick": rng.random()}


def checkLUT(case, mon):
    contour = asSegments(case["contour"])
    contourDomain(mon, contour)
    mon.need(joined(contour), "not joined")
    bc = BContour([list(s) for s in contour])
    s = contour[int(case["pick"] * len(contour)) % len(contour)]
    b = Bezier(list(s))
    earlier = []
    part = int(case["pick"] * 97) % len(contour)
    for steps in case["steps"]:
        steps = max(2, min(400, abs(int(steps))))
        byDefault = steps == 100 and int(case["pick"] * 10000) % 2
        for k in range(2):
            ask = (lambda which: which.getLUT()) if byDefault else lambda which: which.getLUT(steps)
            asked = [("curve", [s], ask(b)), ("contour", contour, ask(bc)), ("curve of the contour", [contour[part]], ask(bc[part]))]
            if byDefault: mon.note("100 steps by default")
            for what, curves, table in asked:
                earlier.append((table, list(table)))
                n = len(curves)
                mon.expect(len(table) == n * (steps - 1) + 1, "size of the table", what=what, got=len(table), steps=steps, curves=n)
                i = 0
                for j, c in enumerate(curves):
                    want = o.at(c, np.arange(steps) / (steps - 1))
                    tol = 1e-12 * o.magnitude(c)
                    got = np.asarray([(float(x), float(y)) for x, y in table[i:i + steps]])
                    e = np.abs(got - want).max()
                    mon.within(float(e), tol, "points at equal steps", what=what, curve=j, steps=steps)
                    i += steps - 1
            mon.state(steps, len(contour), k)
            if int(case["pick"] * 1000) % 2: bc[part].getLUT(steps + 1 + k)  # its curves can be asked for others
    for table, copy in earlier: mon.expect(list(table) == copy, "tables given out are kept")
    if len(set(case["steps"])) > 1: mon.expect(True, "several sizes from one contour")


# ---------------------------------------------------------------- N03
def genClosest(rng):
    c = gen.contour(rng, gen.count(rng, (1, 1, 1, 2, 2, 3, 3, 4, 5, 9), 40, .03), size=rng.choice((100, 500, 1000)))
    r = rng.random()
    s = rng.choice(c)
    x, y = o.at1(s, rng.random())
    size = o.size([q for s in c for q in s])
    if r < .45: p = (x + rng.uniform(-.05, .05) * size, y + rng.uniform(-.05, .05) * size)
    elif r < .6: p = (x, y)
    elif r < .75: p = rng.choice(rng.choice(c))
    elif r < .95: p = gen.point(rng, "font")
    else: p = tuple(rng.choice((-1, 0, 1)) * 10 ** rng.uniform(4, 12) for _ in range(2))
    if rng.random() < .06:
        k = 10 ** rng.uniform(-4, 4)
        c, p = [[(x * k, y * k) for x, y in s] for s in c], (p[0] * k, p[1] * k)
    return {"contour": c, "point": p, "steps": rng.choice((2, 5, 10, 20, 50, 51, 100, 100, 101, 150, 201, 202, 250, rng.randint(2, 300), rng.randint(2, 20), rng.choice((500, 900, 1001))))}


def checkClosest(case, mon):
    contour = asSegments(case["contour"])
    contourDomain(mon, contour, 2e7)
    mon.need(joined(contour), "not joined")
    steps = max(2, min(1200, abs(int(case["steps"]))))
    p = tuple(case["point"])
    bounded(mon, [p], 1e16)
    given = [list(s) for s in contour]
    distance, q = BContour(given).findClosestPoint(p, steps)
    m = max(o.magnitude(s) for s in contour + [[p]])
    tol = 1e-11 * m
    mon.within(abs(distance - o.distance(p, q)), tol, "distance is that of the point", got=distance, point=q)
    nearest = [o.nearestOnCurve(s, q, 100)[0] for s in contour]
    fast = [o.speedRange(s, 50)[1] for s in contour]
    # nearestOnCurve locates its own minimum on a grid of about 2e-7
    mon.within(min(nearest), 1e-11 * m + 1e-6 * max(fast), "point is on the contour", point=q)
    grid = [o.at(s, np.arange(steps) / (steps - 1)) for s in contour]
    table = np.concatenate(grid)
    best = float(np.hypot(table[:, 0] - p[0], table[:, 1] - p[1]).min())
    mon.expect(distance <= best + tol, "no farther than the table", got=distance, table=best)
    # where the best point is clear, the search gets close to it
    truth = [o.nearestOnCurve(s, p, 300) for s in contour]
    k = min(range(len(contour)), key=lambda i: truth[i][0])
    closest, t = truth[k]
    mon.expect(distance >= closest - 1e-9 * m - 1e-6 * max(fast), "no closer than possible", got=distance, truth=closest)
    # if the closest entry of the table is next to the closest point, and nothing else is there, it is found
    ds = [np.hypot(g[:, 0] - p[0], g[:, 1] - p[1]) for g in grid]
    low = [(float(d.min()), j, int(d.argmin())) for j, d in enumerate(ds)]
    bestTable, j, i = min(low)
    at = {(j, i)}
    if i == 0 and j > 0: at = {(j - 1, steps - 1), (j, 0)}
    elif i == steps - 1 and j < len(contour) - 1: at = {(j, i), (j + 1, 0)}
    ties = sum(int((d <= bestTable + 1e-9 * m).sum()) for d in ds)
    if ties > len(at): return
    windows = {(c, max(0, n - 1), min(steps - 1, n + 1)) for c, n in at}
    h = 1 / (steps - 1)
    if not any(c == k and a * h <= t <= b * h for c, a, b in windows): return
    for c, a, b in windows:
        fine = o.at(contour[c], np.linspace(a * h, b * h, 201))
        d = np.hypot(fine[:, 0] - p[0], fine[:, 1] - p[1])
        turns = np.sign(np.diff(d))
        turns = turns[turns != 0]
        if (np.diff(turns) != 0).sum() > 1 or ((np.diff(turns) != 0).sum() == 1 and turns[0] > 0): return
    mon.within(distance - closest, .002 * max(fast[c] for c, _, _ in windows) + tol, "close to the closest point", got=distance, truth=closest, curve=k, t=t)
    mon.state(len(contour), k, steps, t < h, t > 1 - h)


# ---------------------------------------------------------------- N04
def genPath(rng):
    c = gen.contour(rng)
    if rng.random() < .3:  # runs of one kind, for repeated commands
        c = gen.contour(rng, gen.count(rng, (3, 5, 8), 80), orders=(rng.choice((1, 2, 3)),))
    if rng.random() < .2:
        k = rng.choice((1e-9, 1e-5, 1e9, 1e15, 1e20, 1e25))
        c = [[(x * k, y * k) for x, y in s] for s in c]
    return {"contour": c}


def withoutDots(contour):
    """Lines of no length draw nothing."""
    return [s for s in contour if not (len(s) == 2 and samePoint(s[0], s[1]))]


def checkPath(case, mon):
    contour = asSegments(case["contour"])
    contourDomain(mon, contour, 1e35)
    mon.need(joined(contour), "not joined")
    text = BContour([list(s) for s in contour]).d()
    mon.expect(isinstance(text, str), "a string", got=text)
    samePath(mon, text, [contour], None)
    mon.state(tuple(len(s) for s in contour[:4]))


def samePath(mon, text, contours, closed, clause="path draws the contour"):
    try:
        paths = svg.parse(text)
    except svg.BadPath as e:
        mon.expect(False, "path is well-formed", error=str(e), text=text)
    mon.expect(True, "path is well-formed")
    mon.expect(len(paths) == len(contours), "one subpath for each contour", got=len(paths), wanted=len(contours), text=text)
    for (start, segments, shut), contour in zip(paths, contours):
        mon.expect(samePoint(start, contour[0][0]), "path starts where the contour does", got=start, wanted=contour[0][0])
        want = [[(float(x), float(y)) for x, y in s] for s in withoutDots(contour)]
        mon.expect(segments == want, clause, got=segments, wanted=want, text=text)
        if closed is not None: mon.expect(shut == closed, "path is closed if asked", got=shut, text=text)


# ---------------------------------------------------------------- N05
def genOutline(rng):
    return {"contours": [gen.contour(rng, gen.count(rng, (1, 2, 3, 4, 4, 9), 50, .03), orders=rng.choice(((1, 2, 3), (1, 2, 3), (1, 1, 1, 2, 3)))) for _ in range(gen.count(rng, (0, 1, 2, 2, 3, 5), 30, .03))]}


def checkOutline(case, mon):
    contours = [asSegments(c) for c in case["contours"]]
    for c in contours: contourDomain(mon, c)
    given = [[list(s) for s in c] for c in contours]
    outline = BOutline(given)
    m = max([o.magnitude(s) for c in contours for s in c], default=1)
    tol = 1e-11 * m

    def exact(segments):
        xs = [e for s in segments for e in extent([q[0] for q in s])]
        ys = [e for s in segments for e in extent([q[1] for q in s])]
        return (min(xs), min(ys), max(xs), max(ys))

    def sameBox(box, segments, clause):
        for got, want in zip(box.points, exact(segments)): mon.within(abs(o.F(got) - want), tol, clause, got=box.points)

    mon.expect(len(outline.bContours) == len(contours) and list(outline) == list(outline.bContours) == list(outline.contours), "contours in order", got=len(outline.bContours))
    for bc, c in zip(outline, contours):
        sameBox(bc.boundsRectangle, c, "bounds of a contour")
        mon.expect(samePoint(bc.start, c[0][0]) and samePoint(bc.end, c[-1][-1]), "start and end of a contour", got=(bc.start, bc.end))
        curves = list(bc)
        mon.expect(len(curves) == len(c) and all(pts(b.controlPoints) == s for b, s in zip(curves, c)), "curves of a contour in order")
        mon.expect(all(bc[i] is b for i, b in enumerate(curves)) and list(bc.beziers) == curves, "curves by index")
        again = BOutline.pathFromSegments(*curves)
        mon.expect([pts(b.controlPoints) for b in again] == c, "contour from its curves")
        mon.expect(again.boundsRectangle.points == bc.boundsRectangle.points, "contour from its curves")
        # there and back, curves and all
        for repeated in (curves + curves[:1], curves[:1] * 2 + curves[1:], curves + curves[::-1]):
            again = BOutline.pathFromSegments(*repeated)
            mon.expect([pts(b.controlPoints) for b in again] == [pts(b.controlPoints) for b in repeated], "contour from its curves")
    flat = [s for c in contours for s in c]
    if flat:
        sameBox(outline.boundsRectangle, flat, "bounds of the outline")
        s = flat[0]
        mon.expect(pts(BOutline.segmentFromPoints(list(s)).controlPoints) == s, "curve from points")
        for s in (s, [q for s in flat for q in s]):
            xs, ys = BOutline.unzipPoints(s)
            mon.expect(list(xs) == [q[0] for q in s] and list(ys) == [q[1] for q in s], "coordinates of points", got=(xs, ys))
    else:
        box = outline.boundsRectangle
        mon.expect(box.left > box.right and box.bottom > box.top, "empty outline has empty bounds", got=box.points)
    mon.expect(given == [[list(s) for s in c] for c in contours], "contours given are kept")
    mon.state(len(contours), len(flat))


PROPERTIES = [
    Property("N01", genEdit, checkEdit, "histories of replacing and deleting curves of a contour, interleaved with queries; each answer is compared with a contour built afresh",
             ["answers as a fresh contour does", "answers the same again", "an impossible edit is an error", "curves are those set", "contour given is kept"], quick=7200, thorough=180000),
    Property("N02", genLUT, checkLUT, "contours of lines, quadratics and cubics, tables of several sizes from one object", ["size of the table", "points at equal steps", "several sizes from one contour"], quick=7500, thorough=187500),
    Property("N03", genClosest, checkClosest, "points on, near and far from open and closed contours, 2 to 250 steps; closest points by an independent grid search",
             ["distance is that of the point", "point is on the contour", "no farther than the table", "close to the closest point"], quick=2400, thorough=60000),
    Property("N04", genPath, checkPath, "contours with ties, runs of one kind of curve and extreme magnitudes; the path string is read back by an independent parser", ["path is well-formed", "path draws the contour"], quick=64000, thorough=1600000),
    Property("N05", genOutline, checkOutline, "outlines of 0-5 contours; exact extents by Sturm sequences", ["bounds of a contour", "bounds of the outline", "contours in order", "empty outline has empty bounds", "contour from its curves"], quick=2000, thorough=50000),
]
