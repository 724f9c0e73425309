"""Rectangles, line segments and transforms: exact rational models."""
import decimal
import itertools

from .common import *
from .shaping import plain

F = o.F
INF = math.inf


def frac(v):
    return F(v)


def relative(rng, style=None):
    """A coordinate from a small set, so that edges often coincide."""
    return rng.choice((rng.randint(-4, 4), rng.randint(-4, 4), rng.randint(-100, 100), rng.uniform(-4, 4), rng.randint(-8, 8) / 2,
                       rng.choice((32767, 32768, -32768, -32769, 40000, 1e6, -1e6, 65536, 1e9, -1e12))))


def somePoints(rng, n):
    if not n or rng.random() < .4: return [(relative(rng), relative(rng)) for _ in range(n)]
    return gen.points(rng, n, styles=gen.ALL)


# ---------------------------------------------------------------- U01
def genBounds(rng):
    contours = []
    for _ in range(gen.count(rng, (0, 1, 1, 1, 2, 2, 3, 7), 40, .03)):
        contours.append([somePoints(rng, rng.choice((1, 2, 2, 3, 4))) for _ in range(gen.count(rng, (0, 1, 2, 2, 3, 3, 5, 12), 60, .02))])
    return {"points": somePoints(rng, gen.count(rng, (0, 1, 1, 2, 2, 3, 3, 4, 8, 30), 200)), "contours": contours, "f": rng.choice((0, 1, .5, .25, rng.random(), rng.uniform(-1, 2)))}


def boxOf(points):
    if not points: return None
    xs, ys = [p[0] for p in points], [p[1] for p in points]
    return (min(xs), min(ys), max(xs), max(ys))


def isEmpty(box):
    return box.left > box.right and box.bottom > box.top


def sameBox(mon, box, want, clause):
    if want is None: mon.expect(isEmpty(box), "nothing has empty bounds", got=box.points)
    else: mon.expect(tuple(box.points) == want == (box.left, box.bottom, box.right, box.top), clause, got=box.points, wanted=want)


def measured(mon, box, want, f):
    l, b, r, t = want
    m = max(abs(v) for v in want)
    tol = 4e-16 * m * (2 + abs(f))
    w, h = F(r) - F(l), F(t) - F(b)
    mon.within(abs(F(box.width) - w), tol, "width and height", got=box.width)
    mon.within(abs(F(box.height) - h), tol, "width and height", got=box.height)
    mon.within(abs(F(box.area) - w * h), 8 * tol * max(w, h) + F(tol) ** 2 * 16, "area", got=box.area, wanted=float(w * h))
    mon.expect(pts(box.diagonal) == [(l, b), (r, t)], "diagonal", got=box.diagonal)
    x, y = box.centerPoint
    mon.within(max(abs(F(x) - (F(l) + F(r)) / 2), abs(F(y) - (F(b) + F(t)) / 2)), tol, "centre", got=(x, y))
    mon.within(abs(F(box.xFromLeft(f)) - (F(l) + w * F(f))), 2 * tol, "coordinate at a fraction", got=box.xFromLeft(f), wanted=float(F(l) + w * F(f)))
    mon.within(abs(F(box.yFromBottom(f)) - (F(b) + h * F(f))), 2 * tol, "coordinate at a fraction", got=box.yFromBottom(f), wanted=float(F(b) + h * F(f)))
    c = [pts(s) for s in box.contour]
    corners = [s[0] for s in c]
    mon.expect(len(c) == 4 and all(len(s) == 2 for s in c) and all(a[1] == d[0] for a, d in zip(c, c[1:] + c[:1])) and set(corners) == {(l, b), (l, t), (r, t), (r, b)}
               and all((s[0][0] == s[1][0]) or (s[0][1] == s[1][1]) for s in c), "contour goes once around the rectangle", got=c)
    # clockwise from the bottom left, like the outer contours of TrueType glyphs
    mon.expect(corners[0] == (l, b) and sum(F(s[0][0]) * F(s[1][1]) - F(s[1][0]) * F(s[0][1]) for s in c) == -2 * w * h, "contour goes clockwise from the bottom left", got=c)
    text = str(box)
    mon.expect(text == f"[({l}, {b}), ({r}, {t})]", "written as its diagonal", got=text)


def checkBounds(case, mon):
    points, contours, f = pts(case["points"]), [[pts(s) for s in c] for c in case["contours"]], case["f"]
    allPoints = points + [p for c in contours for s in c for p in s]
    bounded(mon, allPoints + [(f, f)], 1e100)
    given, givenPoints = plain(contours), list(points)
    want = boxOf(points)
    box = BoundsRectangle(*points)
    sameBox(mon, box, want, "bounds of points")
    for c in contours: sameBox(mon, BoundsRectangle.fromContour(c), boxOf([p for s in c for p in s]), "bounds of a contour")
    sameBox(mon, BoundsRectangle.fromCoutours(contours), boxOf([p for c in contours for s in c for p in s]), "bounds of contours")
    flat = PathUtilities.flatten(contours)
    mon.expect(list(flat) == [s for c in contours for s in c], "flattened contours keep all segments in order", got=flat)
    if flat: sameBox(mon, BoundsRectangle.fromContour(flat), boxOf([p for s in flat for p in s]), "bounds of flattened contours")
    mon.expect(plain(contours) == given and points == givenPoints, "arguments kept")
    mon.state(len(points), tuple(len(c) for c in contours))
    if not want: return
    measured(mon, box, want, f)
    # after its edges are moved, they are those of the new place
    other = boxOf(contours[0][0]) if contours and contours[0] else None
    for new in ((want[0], want[1], want[2] + 40, want[3]), other or (want[0] - 1, want[1] - 2, want[2], want[3] + 3)):
        box.left, box.bottom, box.right, box.top = new
        sameBox(mon, box, new, "edges moved")
        measured(mon, box, new, f)

# ---------------------------------------------------------------- U02
def genRects(rng):
    def rect():
        if rng.random() < .1: return []
        return [(relative(rng), relative(rng)) for _ in range(rng.choice((1, 2, 2, 2, 3)))]

    rects = [rect() for _ in range(3)]
    if rng.random() < .3 and rects[0]:  # inside or on the edge
        l, b, r, t = boxOf(rects[0])
        rects[1] = [(rng.choice((l, r, (l + r) / 2, l - 1, r + 1)), rng.choice((b, t, (b + t) / 2, b - 1, t + 1))) for _ in range(2)]
    return {"rects": rects, "point": (relative(rng), relative(rng)), "corner": rng.randrange(5)}


def checkRects(case, mon):
    rects = [pts(r) for r in case["rects"]]
    p = tuple(case["point"])
    bounded(mon, [q for r in rects for q in r] + [p], 1e100)
    wants = [boxOf(r) for r in rects]
    boxes = [BoundsRectangle(*r) for r in rects]
    if wants[0] and case["corner"] in (1, 2, 3, 4):
        l, b, r, t = wants[0]
        p = ((l, p[1]), (r, b), (p[0], t), ((l + r) / 2, (b + t) / 2))[case["corner"] - 1]

    def join(a, b):
        if not a or not b: return a or b
        return (min(a[0], b[0]), min(a[1], b[1]), max(a[2], b[2]), max(a[3], b[3]))

    def meet(a, b):
        if not a or not b: return None
        w = (max(a[0], b[0]), max(a[1], b[1]), min(a[2], b[2]), min(a[3], b[3]))
        return w if w[0] <= w[2] and w[1] <= w[3] else None

    for (a, A), (b, B) in itertools.product(zip(wants, boxes), repeat=2):
        sameBox(mon, A.union(B), join(a, b), "union is the smallest rectangle around both")
        got, want = A.intersection(B), meet(a, b)
        if want is None: mon.expect(got is None or isEmpty(got) and (not a or not b), "separate rectangles don't intersect", got=got and got.points, rects=(a, b))
        else: mon.expect(got is not None and tuple(got.points) == want, "intersection is what both have in common", got=got and got.points, wanted=want)
        if a and b:
            inside = a[0] <= b[0] and a[1] <= b[1] and b[2] <= a[2] and b[3] <= a[3]
            outside = b[0] <= a[0] and b[1] <= a[1] and a[2] <= b[2] and a[3] <= b[3]
            mon.expect(bool(A.encloses(B)) == inside, "encloses", got=A.encloses(B), rects=(a, b))
            relation = A.relationTo(B)
            R = BoundsRectangle
            mon.expect(relation == (R.relationEncloses if inside else R.relationEnclosed if outside else R.relationIntersects if want else R.relationSeparate), "relation", got=relation, rects=(a, b))
            mon.state(relation, a == b, want is not None and (want[0] == want[2]), want is not None and want[1] == want[3])
    R = BoundsRectangle
    mon.expect(len({R.relationEncloses, R.relationEnclosed, R.relationIntersects, R.relationSeparate}) == 4, "relations differ")
    total = boxes[0].union(boxes[1]).union(boxes[2])
    sameBox(mon, total, join(join(wants[0], wants[1]), wants[2]), "union of several")
    sameBox(mon, boxes[0].union(boxes[1].union(boxes[2])), join(join(wants[0], wants[1]), wants[2]), "union of several")
    for a, A in zip(wants, boxes):
        sameBox(mon, A, a, "operands are kept")
        if not a:
            mon.expect(not A.enclosesPoint(p), "encloses a point", got=True)
            continue
        mon.expect(bool(A.enclosesPoint(p)) == (a[0] <= p[0] <= a[2] and a[1] <= p[1] <= a[3]), "encloses a point", got=A.enclosesPoint(p), rect=a, point=p)
        mon.expect(bool(A.crossesX(p[0])) == (a[0] <= p[0] <= a[2]), "crosses a coordinate", got=A.crossesX(p[0]), rect=a, point=p)
        mon.expect(bool(A.crossesY(p[1])) == (a[1] <= p[1] <= a[3]), "crosses a coordinate", got=A.crossesY(p[1]), rect=a, point=p)
    # a rectangle moved to the place of another one is like that one
    if wants[0] and wants[1]:
        A, b, B = boxes[0], wants[1], boxes[1]
        A.left, A.bottom, A.right, A.top = b
        mon.expect(A.encloses(B) and B.encloses(A) and A.relationTo(B) == R.relationEncloses == B.relationTo(A), "encloses after its edges are moved", rects=(wants[0], b))
        for c, C in zip(wants, boxes):
            if C is A or not c: continue
            mon.expect(A.relationTo(C) == B.relationTo(C) and C.relationTo(A) == C.relationTo(B), "relation after its edges are moved", rects=(b, c))
            sameBox(mon, A.union(C), join(b, c), "union after its edges are moved")
        mon.expect(bool(A.enclosesPoint(p)) == (b[0] <= p[0] <= b[2] and b[1] <= p[1] <= b[3]), "encloses after its edges are moved", point=p, rect=b)


# ---------------------------------------------------------------- U03
def genMetrics(rng):
    n = rng.choice((2, 2, 2, 3, 4))
    return {"segment": gen.points(rng, n, styles=gen.ALL), "complex": rng.random() < .3, "upem": rng.choice((1000, 1024, 2048, 4096, rng.randint(1, 16384)))}


def checkMetrics(case, mon):
    s = pts(case["segment"])
    mon.need(len(s) >= 2, "points")
    bounded(mon, s, 1e15)
    line = [complex(x, y) for x, y in s] if case["complex"] else list(s)
    given = list(line)
    U = PathUtilities
    (x0, y0), (x1, y1) = s[0], s[-1]
    m = o.magnitude(s)
    dx, dy = F(x1) - F(x0), F(y1) - F(y0)
    mon.expect(tuple(U.endPoints(line)) == (x0, y0, x1, y1), "end points", got=U.endPoints(line))
    a, b = U.getDeltas(line)
    mon.within(max(abs(F(a) - dx), abs(F(b) - dy)), 4e-16 * m, "deltas", got=(a, b))
    mon.need((a == 0) == (dx == 0) and (b == 0) == (dy == 0), "rounding")
    two = len(s) == 2
    mon.expect(bool(U.isVerticalLine(line)) == (two and dx == 0), "vertical line")
    mon.expect(bool(U.isHorizontalLine(line)) == (two and dy == 0), "horizontal line")
    mon.expect(bool(U.isDiagonalLine(line)) == (two and dx != 0 and dy != 0), "diagonal line")
    want = math.hypot(float(dx), float(dy))
    mon.within(abs(U.length(line) - want), 1e-15 * m + 1e-15 * want, "length", got=U.length(line), wanted=want)
    got = U.slope(line)
    if dx == 0: mon.expect(got == INF, "slope of a vertical line", got=got)
    else:
        want = dy / dx
        mon.within(abs(F(got) - want), F(4e-16) * (abs(want) + (abs(want) + 1) * F(m) * 2 / abs(dx)), "slope is rise over run", got=got, wanted=float(want))
    if dx or dy:
        rad = math.atan2(float(dy), float(dx))
        slack = 1e-12 + 1e-13 * m / max(abs(float(dx)), abs(float(dy)))
        got = U.rawSlopeAngle(line)
        e = abs(got - math.degrees(rad)) % 360
        mon.expect(-180 <= got <= 180, "direction is between -180 and 180 degrees", got=got)
        mon.within(min(e, 360 - e), slack, "direction in degrees, anticlockwise from the x axis", got=got, wanted=math.degrees(rad))
        got = U.slopeAngle(line)
        mon.within(abs(got - math.degrees(math.atan2(abs(float(dx)), abs(float(dy))))), slack, "angle from vertical, 0 to 90 degrees", got=got)
    x, y = U.midpoint(line)
    mon.within(max(abs(F(x) - (F(x0) + F(x1)) / 2), abs(F(y) - (F(y0) + F(y1)) / 2)), 4e-16 * m, "midpoint", got=(x, y))
    lo, hi = U.minMax(x0, x1)
    mon.expect((lo, hi) == (min(x0, x1), max(x0, x1)), "smaller first", got=(lo, hi))
    upem = abs(int(case["upem"])) or 1000
    mon.within(abs(F(U.toMicros(x0, upem)) - F(x0) * 1000 / upem), 4e-16 * abs(x0) * 1000 / upem, "thousandths of the em", got=U.toMicros(x0, upem))
    mon.within(abs(CurveFitting.dist(s[0], s[-1]) - math.hypot(float(dx), float(dy))), 1e-15 * m, "distance of points")
    mon.expect(line == given, "segment is kept")
    mon.state(len(s), dx == 0, dy == 0, dx > 0, dy > 0, abs(dx) > abs(dy), bool(case["complex"]))


# ---------------------------------------------------------------- U04
def genCross(rng):
    r = rng.random()
    if r < .45:
        st = rng.choice(("small", "font", "half", "edge"))
        p = gen.points(rng, 4, st)
    elif r < .6:  # sharing an end, or an end on the other line
        st = rng.choice(("small", "font"))
        p = gen.points(rng, 4, st)
        k = rng.randint(0, 4)
        p[2] = tuple(p[0][i] + k * (p[1][i] - p[0][i]) / 4 for i in (0, 1))
        if rng.random() < .5: p = p[2:] + p[:2]
    elif r < .8:  # that surely cross
        c, a, b = gen.point(rng, "float"), gen.point(rng, "float"), gen.point(rng, "float")
        k = [rng.random() for _ in range(4)]
        p = [tuple(c[i] - k[0] * a[i] for i in (0, 1)), tuple(c[i] + k[1] * a[i] for i in (0, 1)), tuple(c[i] - k[2] * b[i] for i in (0, 1)), tuple(c[i] + k[3] * b[i] for i in (0, 1))]
        if rng.random() < .4:  # one is horizontal or vertical
            i = rng.randrange(2)
            q = list(p[1]); q[i] = p[0][i]; p[1] = tuple(q)
    else: p = gen.points(rng, 4, styles=gen.ALL)
    return {"lines": p}


def checkCross(case, mon):
    p = pts(case["lines"])
    bounded(mon, p, 1e6)
    (x1, y1), (x2, y2), (x3, y3), (x4, y4) = [(F(x), F(y)) for x, y in p]
    mon.need((x1, y1) != (x2, y2) and (x3, y3) != (x4, y4), "a line of no length")
    l1, l2 = [p[0], p[1]], [p[2], p[3]]
    d = (x1 - x2) * (y3 - y4) - (y1 - y2) * (x3 - x4)
    m = o.magnitude(p)
    # what rounding can do to the determinant
    scale = F(max(abs(x1 - x2), abs(y1 - y2)) * max(abs(x3 - x4), abs(y3 - y4)))
    noise = F(1e-15) * F(m) * (max(abs(x1 - x2), abs(y1 - y2)) + max(abs(x3 - x4), abs(y3 - y4)))
    exactly = all(float(c).is_integer() or float(2 * c).is_integer() for q in p for c in q)
    got = PathUtilities.intersectionPoint(l1, l2)
    crossing = butils.lli(l1, l2)
    other = PathUtilities.intersectionPoint(l2, l1)
    mon.expect(l1 == p[:2] and l2 == p[2:], "lines are kept")
    if d == 0:
        mon.need(exactly, "rounding")
        mon.expect(got is None and crossing is None, "parallel lines don't intersect", got=got)
        mon.state("parallel")
        return
    mon.need(exactly or abs(d) > 1000 * noise, "rounding")
    u = ((x1 - x3) * (y3 - y4) - (y1 - y3) * (x3 - x4)) / d
    v = -((x1 - x2) * (y1 - y3) - (y1 - y2) * (x1 - x3)) / d
    x, y = x1 + u * (x2 - x1), y1 + u * (y2 - y1)
    tol = F(1e-14) * F(m) ** 2 * (max(abs(x1 - x2), abs(y1 - y2)) + max(abs(x3 - x4), abs(y3 - y4))) / abs(d) + F(1e-15) * (2 + scale / abs(d)) * max(abs(x), abs(y))
    mon.expect(crossing is not None, "lines that aren't parallel cross", got=crossing)
    near(mon, crossing, (x, y), tol, "point where the lines cross")
    mon.need(tol < F(1e-7), "rounding")
    # out of the bounds of a line, by more than the code's allowance for rounding
    edge = max(0, *(max(min(a, b) - c, c - max(a, b)) for a, b, c in ((x1, x2, x), (y1, y2, y), (x3, x4, x), (y3, y4, y))))
    if edge == 0:
        mon.expect(got is not None and other is not None, "lines that cross have an intersection", got=(got, other), wanted=(float(x), float(y)))
        near(mon, got, (x, y), tol, "intersection is on both lines")
        near(mon, other, (x, y), tol, "intersection is on both lines")
        mon.state("cross", u == 0, u == 1, v == 0, v == 1, x1 == x2, y1 == y2, x3 == x4, y3 == y4)
    elif edge > F(1.2e-6):
        mon.expect(got is None and other is None, "lines that end before they cross have none", got=(got, other))
        mon.state("apart", 0 < u < 1, 0 < v < 1)


# ---------------------------------------------------------------- U05
def genOn(rng):
    st = rng.choice(("small", "small", "font", "big"))
    a, b = gen.points(rng, 2, st)
    r = rng.random()
    if r < .4:
        g = math.gcd(b[0] - a[0], b[1] - a[1]) or 1
        if g < 3 and rng.random() < .7:
            g = rng.randint(2, 6)
            d = (rng.randint(-9, 9), rng.randint(-9, 9))
            b = (a[0] + g * d[0], a[1] + g * d[1])
            g = math.gcd(b[0] - a[0], b[1] - a[1]) or 1
        k = rng.randint(-1, g + 1)
        p = (a[0] + k * (b[0] - a[0]) // g, a[1] + k * (b[1] - a[1]) // g)
        if rng.random() < .3: p = (p[0] + rng.randint(-1, 1), p[1] + rng.randint(-1, 1))
    elif r < .55: p = rng.choice((a, b))
    elif r < .7: p = (rng.choice((a[0], b[0])), gen.number(rng, st))
    elif r < .85:  # straight, with any coordinates
        i = rng.randrange(2)
        c = rng.uniform(-1000, 1000)
        a, b, p = [tuple(c if j == i else rng.uniform(-1000, 1000) for j in (0, 1)) for _ in range(3)]
        if rng.random() < .3: p = rng.choice((a, b))
        if rng.random() < .2: p = tuple(p[j] + (1e-9 if j == i else 0) for j in (0, 1))
    elif r < .95:  # as near as a whole point can be: the cross product is 1
        dx, dy = rng.randint(2, rng.choice((20, 1000, 999999, 1999998))), rng.randint(1, rng.choice((20, 1000, 999999, 1999998)))
        g = math.gcd(dx, dy)
        dx, dy = dx // g, dy // g
        if dx > 1:
            x = pow(dy, -1, dx)
            p = (x, (x * dy - 1) // dx) if rng.random() < .5 else (dx - x, dy - (x * dy - 1) // dx)
        else: p = (0, 1)
        sx, sy, turn = rng.choice((-1, 1)), rng.choice((-1, 1)), rng.random() < .5
        ox, oy = rng.choice(((0, 0), (-dx // 2, -dy // 2)))
        a, b, p = [(sx * (x + ox), sy * (y + oy)) for x, y in ((0, 0), (dx, dy), p)]
        if turn: a, b = b, a
    else: p = gen.point(rng, st)
    return {"line": [a, b], "point": p}


def checkOn(case, mon):
    line, p = pts(case["line"]), tuple(case["point"])
    bounded(mon, line + [p], 1e6)
    (x1, y1), (x2, y2), (x, y) = [(F(a), F(b)) for a, b in line + [p]]
    whole = all(float(c).is_integer() for q in line + [p] for c in q)
    straight = x1 == x2 or y1 == y2
    inBox = min(x1, x2) <= x <= max(x1, x2) and min(y1, y2) <= y <= max(y1, y2)
    atEnd = tuple(p) in [tuple(q) for q in line]
    mon.need(whole or straight or atEnd or not inBox, "rounding")
    on = inBox and (x - x1) * (y2 - y1) == (y - y1) * (x2 - x1)
    given = list(line)
    for l, which in ((line, "given"), (line[::-1], "reversed")):
        got = PathUtilities.pointOnLine(p, l)
        mon.expect(bool(got) == on, "on the line" if on else "not on the line", got=got, direction=which)
    mon.expect(line == given, "line is kept")
    mon.state(on, inBox, atEnd, x1 == x2, y1 == y2)


# ---------------------------------------------------------------- U06
def genHelpers(rng):
    st = gen.style(rng, gen.ALL)
    return {"p": gen.points(rng, 3, st), "v": [gen.number(rng, st) for _ in range(5)], "t": gen.t(rng),
            "list": [rng.choice((rng.randint(0, 5), rng.random(), 1.0, (rng.randint(0, 2), rng.randint(0, 2)), rng.randint(0, 300), rng.randint(0, 300))) for _ in range(gen.count(rng, range(13), 150))]}


def checkHelpers(case, mon):
    p, v, t, items = pts(case["p"]), list(case["v"]), case["t"], list(case["list"])
    bounded(mon, p + [(x, t) for x in v], 1e9)
    B = butils
    a, b = [(F(x), F(y)) for x, y in p[:2]]
    m = o.magnitude(p) * (1 + abs(t))
    near(mon, B.lerp(t, p[0], p[1]), [a[i] + F(t) * (b[i] - a[i]) for i in (0, 1)], 1e-15 * m, "interpolated point")
    ds, de, ts, te, x = v
    if abs(de - ds) > 1e-6 * max(map(abs, v)):
        want = F(ts) + (F(x) - F(ds)) / (F(de) - F(ds)) * (F(te) - F(ts))
        k = abs((F(x) - F(ds)) / (F(de) - F(ds)))
        slack = F(1e-14) * max(map(abs, v)) * (1 + k) * (1 + (abs(F(te) - F(ts)) / abs(F(de) - F(ds))))
        mon.within(abs(F(B.map(x, ds, de, ts, te)) - want), slack, "mapped from range to range", got=B.map(x, ds, de, ts, te), wanted=float(want))
        for s, e in ((ds, ts), (de, te)):
            mon.within(abs(F(B.map(s, ds, de, ts, te)) - F(e)), F(4e-16) * (abs(F(ts)) + abs(F(te))), "ends of the range map to the ends")
    r = B.crt(x)
    mon.within(abs(r ** 3 - x), 1e-14 * abs(x), "cube root", got=r)
    mon.expect((r > 0) == (x > 0) and (r < 0) == (x < 0), "cube root has the sign", got=r)
    kept = []
    for i in items:
        if i not in kept: kept.append(i)
    before = list(items)
    mon.expect(list(B.removeDuplicates(items)) == kept, "first of each value, in order", got=B.removeDuplicates(items), wanted=kept)
    mon.expect(items == before, "list is kept")
    q, r1, r2 = [(F(x), F(y)) for x, y in p]
    d1, d2 = (r1[0] - q[0], r1[1] - q[1]), (r2[0] - q[0], r2[1] - q[1])
    got = B.angle(*p)
    n1, n2 = math.hypot(*map(float, d1)), math.hypot(*map(float, d2))
    if n1 == 0 or n2 == 0: mon.expect(got == 0, "angle of nothing", got=got)
    elif min(n1, n2) > 1e-6 * o.magnitude(p):
        want = math.atan2(float(d1[0] * d2[1] - d1[1] * d2[0]), float(d1[0] * d2[0] + d1[1] * d2[1]))
        e = abs(got - want) % math.tau
        mon.within(min(e, math.tau - e), 1e-14 + 1e-14 * o.magnitude(p) / min(n1, n2), "angle between two directions", got=got, wanted=want)
    mon.state(t == 0, t == 1, ds < de, ts < te, x > 0, len(items), len(kept))


# ---------------------------------------------------------------- U07
def genTools(rng):
    st = gen.style(rng, gen.ALL)
    num = lambda: gen.number(rng, st)
    a = num()
    precision = rng.choice((None, None, 1e-6, 1e-3, .5, 10, 1e-9, 0))
    reach = 1e-6 if precision is None else precision
    k = lambda: rng.choice((0, .5, .9, .99, 1.01, 1.1, 2, 100, rng.uniform(0, 3))) * rng.choice((-1, 1))
    low, high = sorted((num(), num()))
    if rng.random() < .1: high = low
    r = rng.random()
    n = rng.choice((2, 2, 3, 3, 3, 3, 3, 3, 1, 4, 5))
    if r < .4: co = [num() for _ in range(n)]
    elif r < .6: co = [rng.randint(-9, 9) for _ in range(n)]
    elif r < .8 or n != 3: co = [rng.uniform(-1, 1) * 10 ** rng.randint(-6, 6) for _ in range(n)]
    else:  # of given roots
        u, v, f = rng.uniform(-3, 3), rng.choice((rng.uniform(-3, 3), 0, 1, .5)), rng.choice((1, -2, rng.uniform(-9, 9)))
        co = [f * u * v, f * (u * v - (u + v) / 2), f * (1 - u) * (1 - v)]
    if n == 3 and r > .95: co = [co[0], co[1], 2 * co[1] - co[0]]
    return {"a": a, "b": rng.choice((a + k() * reach, a + k() * reach, num())), "precision": precision, "range": (low, high),
            "v": rng.choice((low + k() * 1e-6, high + k() * 1e-6, num(), rng.uniform(low, high))), "x": rng.choice((num(), abs(num()), 0, rng.uniform(0, 1e-12))), "t": gen.t(rng), "coefficients": co}


def checkTools(case, mon):
    B = butils
    a, b, precision, (low, high), v, x, t, co = (case[k] for k in ("a", "b", "precision", "range", "v", "x", "t", "coefficients"))
    mon.need(all(abs(w) <= 1e12 for w in (a, b, low, high, v, x, *co)), "size")
    mon.need(low <= high and (precision is None or precision >= 0) and 0 <= t <= 1, "range")
    # the same within a tolerance, except where it is rounding that decides
    reach = F(1e-6 if precision is None else precision)
    d, slack = abs(F(a) - F(b)), F(2e-16) * (abs(F(a)) + abs(F(b)))
    if d == 0 or d < reach - slack or d > reach + slack:
        for got in (B.approximately(a, b, *[] if precision is None else [precision]), B.approximately(b, a, *[] if precision is None else [precision])):
            mon.expect(bool(got) == (d <= reach), "the same within the precision", got=got, a=a, b=b, precision=precision)
    beyond = max(F(low) - F(v), F(v) - F(high))
    slack = F(2e-16) * (abs(F(v)) + abs(F(low)) + abs(F(high)))
    if beyond <= 0 or abs(beyond - F(1e-6)) > slack: mon.expect(bool(B.between(v, low, high)) == (beyond <= F(1e-6)), "between two values, give or take a millionth", got=B.between(v, low, high), v=v, low=low, high=high)
    r = B.sqrt(x)
    if x < 0: mon.expect(math.isnan(r), "no root of a negative number", got=r)
    else: mon.within(abs(r - math.sqrt(x)), 4e-16 * math.sqrt(x), "square root", got=r)
    e = F(t)
    for f, n in ((B.quadraticRatio, 2), (B.cubicRatio, 3)):
        both = e ** n + (1 - e) ** n
        mon.within(abs(F(f(t)) - abs((both - 1) / both)), 1e-14, "ratio of the projection", got=f(t), order=n)
    given = list(co)
    got = list(B.droots(co))
    mon.expect(co == given, "coefficients are kept", got=co)
    n = len(co)
    c = [F(w) for w in co]
    value = lambda r: sum(math.comb(n - 1, i) * w * (1 - r) ** (n - 1 - i) * r ** i for i, w in enumerate(c))
    # with the coefficients of the powers, all as uncertain as the values they are made of
    weight = lambda r: sum(math.comb(n - 1, i) * max(abs(r), 1) ** i * sum(math.comb(i, j) * abs(w) for j, w in enumerate(c[:i + 1])) for i in range(n))
    slope = lambda r: (n - 1) * sum(math.comb(n - 2, i) * (z - y) * (1 - r) ** (n - 2 - i) * r ** i for i, (y, z) in enumerate(zip(c, c[1:])))
    real = [F(r) for r in got if math.isfinite(r)]
    if n not in (2, 3):
        mon.expect(got == [], "roots of lines and parabolas only", got=got)
        return
    for r in real: mon.within(abs(value(r)), F(1e-13) * weight(r), "roots are roots", root=float(r), coefficients=co)
    if n == 2: exact = [c[0] / (c[0] - c[1])] if c[0] != c[1] else []
    else:
        a2, b2 = c[0] - 2 * c[1] + c[2], c[1] - c[0]
        inside = b2 * b2 - a2 * c[0]
        scale = b2 * b2 + abs(a2 * c[0])
        if a2 == 0: exact = [-c[0] / (2 * b2)] if b2 else []
        elif inside < F(-1e-10) * scale and abs(a2) > F(1e-12) * max(map(abs, c)): exact = []
        elif inside > F(1e-10) * scale:
            with decimal.localcontext() as context:
                context.prec = 60
                s = F((decimal.Decimal(inside.numerator) / decimal.Decimal(inside.denominator)).sqrt())
            exact = [(-b2 - s) / a2, (-b2 + s) / a2]
        else: exact = None
    if exact == []: mon.expect(not real, "no roots", got=got, coefficients=co)
    for r in exact or ():
        steep = abs(slope(r))
        if not steep: continue
        tol = F(1e-14) * weight(r) / steep + F(1e-14) * abs(r) + F(1e-30)
        if tol > F(1e-4) * max(abs(r), F(1e-3)): mon.note("ill-conditioned root"); continue
        mon.within(min((abs(r - g) for g in real), default=math.inf), tol, "roots are found", wanted=float(r), got=got, coefficients=co)
    mon.state(n, len(real), exact and len(exact) or exact is None, precision, beyond < 0, x < 0)


# ---------------------------------------------------------------- T01
def factor(rng):
    return rng.choice((0, 1, -1, 2, .5, rng.randint(-5, 5), rng.uniform(-3, 3)))


def degrees(rng):
    return rng.choice((0, 90, 180, 270, 360, -90, -45, 45, 30, 60, 120, 450, 720, rng.randint(-720, 720), rng.uniform(-400, 400)))


KINDS = ("translate", "scale", "shear", "mirror", "rotation", "perspective")


def genOne(rng, kinds=KINDS):
    kind = rng.choice(kinds)
    if kind == "translate": args = (gen.point(rng, rng.choice(("font", "float", "small"))), gen.point(rng, rng.choice(("font", "float", "small"))))
    elif kind in ("scale", "shear"): args = (factor(rng), factor(rng))
    elif kind == "mirror": args = (rng.random() < .5, rng.random() < .5)
    elif kind == "rotation": args = (degrees(rng), rng.random() < .6)
    else: args = (rng.choice((0, rng.uniform(-.002, .002), rng.uniform(-.002, .002))), rng.choice((0, rng.uniform(-.002, .002))), rng.choice((1, 1, 2, -1, .5, rng.uniform(.5, 2))))
    return [kind, args]


def sine(d):
    """sin of an angle in degrees, exact where it is rational."""
    d = F(d) % 360
    exact = {0: 0, 30: F(1, 2), 90: 1, 150: F(1, 2), 180: 0, 210: F(-1, 2), 270: -1, 330: F(-1, 2)}
    if d in exact: return F(exact[d])
    return F(math.sin(math.radians(float(d))))


def model(kind, args):
    """The documented effect on a point, as a function of Fractions."""
    if kind == "translate":
        (a, b), (c, d) = args
        return lambda x, y: (x + F(c) - F(a), y + F(d) - F(b))
    if kind == "scale": return lambda x, y: (x * F(args[0]), y * F(args[1]))
    if kind == "shear": return lambda x, y: (x + F(args[0]) * y, y + F(args[1]) * x)
    if kind == "mirror": return lambda x, y: (-x if args[1] else x, -y if args[0] else y)
    if kind == "rotation":
        s, c = sine(args[0]), sine(F(args[0]) + 90)
        if not args[1]: s = -s
        return lambda x, y: (c * x - s * y, s * x + c * y)
    p, q, s = map(F, args)

    def perspective(x, y):
        w = p * x + q * y + s
        return (x / w, y / w)
    return perspective


def build(kind, args):
    return getattr(Transform, kind)(*args)


def validOne(mon, kind, args):
    if kind == "translate": bounded(mon, args, 1e7)
    elif kind == "rotation": mon.need(abs(args[0]) < 1e5, "angle")
    elif kind == "perspective": mon.need(abs(args[0]) <= .01 and abs(args[1]) <= .01 and .01 <= abs(args[2]) <= 100, "perspective")
    elif kind != "mirror": mon.need(all(abs(a) <= 1e4 for a in args), "factor")


def wOf(matrix, x, y):
    return sum(F(matrix[i][2]) * c for i, c in enumerate((F(x), F(y), 1)))


def genConstructor(rng):
    return {"one": genOne(rng), "points": gen.points(rng, 3, styles=gen.STYLES + ["font"])}


def checkConstructor(case, mon):
    kind, args = case["one"]
    args = tuple(args)
    validOne(mon, kind, args)
    points = pts(case["points"])
    bounded(mon, points, 1e7)
    transform, f = build(kind, args), model(kind, args)
    for x, y in points:
        if kind == "perspective":
            w = F(args[0]) * F(x) + F(args[1]) * F(y) + F(args[2])
            mon.need(abs(w) > F(1, 100) * (abs(F(args[0]) * F(x)) + abs(F(args[1]) * F(y)) + abs(F(args[2]))), "at infinity")
        want = f(F(x), F(y))
        scale = max(abs(F(x)), abs(F(y)), abs(want[0]), abs(want[1])) * max(1, *(abs(F(a)) for a in args if isinstance(a, (int, float)) and kind in ("scale", "shear")), 1)
        if kind == "translate": scale = max(abs(F(v)) for v in (x, y, *args[0], *args[1]))
        tol = F(1e-13) * scale if kind == "perspective" else F(4e-15) * scale
        if kind == "rotation": tol += F(1e-17) * abs(F(args[0])) * scale
        near(mon, transform.applyToPoint((x, y)), want, tol, "effect of " + kind, args=args, point=(x, y))
    # defaults
    x, y = points[0]
    if kind in ("scale", "shear"): near(mon, getattr(Transform, kind)().applyToPoint((x, y)), (F(x), F(y)), 0, "no arguments, no effect")
    if kind in ("mirror", "perspective"): near(mon, getattr(Transform, kind)().applyToPoint((x, y)), (F(x), F(y)), 0, "no arguments, no effect")
    if kind == "rotation":
        near(mon, Transform.rotation().applyToPoint((x, y)), (-F(y), F(x)), 0, "a quarter turn anticlockwise by default")
        near(mon, Transform.rotation(args[0]).applyToPoint((x, y)), model(kind, (args[0], True))(F(x), F(y)), F(4e-15 + 1e-17 * abs(args[0])) * max(abs(F(x)), abs(F(y))), "a quarter turn anticlockwise by default")
        back = Transform.rotation(args[0], not args[1]).applyToPoint(transform.applyToPoint((x, y)))
        near(mon, back, (F(x), F(y)), F(1e-14) * max(abs(F(x)), abs(F(y))), "turned back")
    matrix = transform.transform
    mon.expect(len(matrix) == 3 and all(len(r) == 3 for r in matrix), "a 3x3 matrix", got=matrix)
    mon.state(kind, *[a if isinstance(a, bool) else (a > 0) - (a < 0) for a in args if isinstance(a, (int, float))])


# ---------------------------------------------------------------- T02
def genCompose(rng):
    kinds = ("translate", "scale", "shear", "mirror", "rotation") + (("perspective",) if rng.random() < .3 else ())
    return {"chain": [genOne(rng, kinds) for _ in range(gen.count(rng, (1, 2, 2, 2, 3, 3, 3, 4, 6, 10), 30, .03))], "points": gen.points(rng, 2, rng.choice(("small", "font", "float"))),
            "matrices": [[[rng.choice((0, 1, rng.randint(-9, 9))) for _ in range(3)] for _ in range(3)] for _ in range(3)]}


def times(a, b):
    return [[sum(F(a[i][k]) * F(b[k][j]) for k in range(len(b))) for j in range(len(b[0]))] for i in range(len(a))]


def checkCompose(case, mon):
    chain = [(k, tuple(a)) for k, a in case["chain"]]
    for kind, args in chain: validOne(mon, kind, args)
    points = pts(case["points"])
    bounded(mon, points, 1e7)
    singles = [build(k, a) for k, a in chain]
    before = [plain(t.transform) for t in singles]
    whole = Transform(*[t.transform for t in singles])
    exact = before[0]
    size = 1.0
    for b in before[1:]:
        exact = times(exact, b)
    bound = 1.0
    for b in before: bound *= max(sum(abs(float(v)) for v in row) for row in b)
    mon.need(bound < 1e30, "factor")
    got = whole.transform
    for i in range(3):
        for j in range(3):
            mon.within(abs(F(got[i][j]) - F(exact[i][j])), F(1e-15) * len(chain) * F(bound) * 4, "product of the matrices in order", got=got, wanted=[[float(v) for v in r] for r in exact])
    product = Transform.concatenateMatrices(*before)
    mon.expect(plain(product) == plain(got), "product of the matrices in order", got=product)
    for x, y in points:
        step, w = (x, y), 1.0
        scale = max(abs(x), abs(y), 1)
        try:
            for t, b in zip(singles, before):
                w = wOf(b, *step)
                mon.need(abs(w) > F(1, 20), "at infinity")
                step = t.applyToPoint(step)
                scale = max(scale, abs(step[0]), abs(step[1]))
        except ZeroDivisionError:
            mon.skip("at infinity")
        W = wOf(exact, x, y)
        mon.need(abs(W) > F(1e-3), "at infinity")
        tol = F(1e-13) * F(bound) * F(scale) * (1 + 1 / abs(W)) ** 2
        mon.need(tol < max(1, scale) / 1000, "ill-conditioned")
        near(mon, whole.applyToPoint((x, y)), step, tol, "as one after the other, first to last", chain=chain)
    mon.expect([plain(t.transform) for t in singles] == before, "operands are kept")
    m1, m2, m3 = [[list(r) for r in m] for m in case["matrices"]]
    mon.need(all(abs(v) < 1e5 and v == int(v) for m in (m1, m2, m3) for r in m for v in r), "whole numbers")
    mon.expect(plain(Transform.multiplyMatrixByMatrix(m1, m2)) == plain(times(m1, m2)), "product of two matrices")
    mon.expect(plain(Transform.concatenateMatrices(m1, m2, m3)) == plain(times(times(m1, m2), m3)), "product of three matrices")
    mon.expect(plain(Transform.multiplyRowByMatrix(m1[0], m2)) == plain(times([m1[0]], m2)[0]), "product of a row and a matrix")
    squared = plain(times(m1, m1))
    mon.expect(plain(Transform.multiplyMatrixByMatrix(m1, m1)) == squared and plain(Transform.concatenateMatrices(m2, m2)) == plain(times(m2, m2)), "product of a matrix and itself")
    mon.expect(plain(Transform(m1, m1).transform) == squared, "product of a matrix and itself")
    single = singles[0].transform
    twice, square = Transform(single, single).transform, times(before[0], before[0])
    b = F(max(sum(abs(float(v)) for v in row) for row in before[0])) ** 2
    for i in range(3):
        for j in range(3): mon.within(abs(F(twice[i][j]) - square[i][j]), F(1e-14) * b, "product of a matrix and itself", got=twice)
    mon.expect([plain(t.transform) for t in singles] == before, "operands are kept")
    mon.expect([m1, m2, m3] == [[list(r) for r in m] for m in case["matrices"]], "matrices are kept")
    mon.state(tuple(k for k, _ in chain[:3]), len(chain))


# ---------------------------------------------------------------- T03
def genPivot(rng):
    return {"about": gen.point(rng, rng.choice(("small", "font", "float"))), "to": gen.point(rng, rng.choice(("small", "font", "float"))), "degrees": degrees(rng),
            "flags": (rng.random() < .5, rng.random() < .5, rng.random() < .5), "points": gen.points(rng, 3, rng.choice(("small", "font", "float"))),
            "pq": (rng.choice((0, rng.uniform(-.002, .002))), rng.uniform(-.002, .002))}


def checkPivot(case, mon):
    about, to, angle, (ccw, xAxis, yAxis), points, (p, q) = tuple(case["about"]), tuple(case["to"]), case["degrees"], case["flags"], pts(case["points"]), case["pq"]
    bounded(mon, points + [about, to], 1e7)
    mon.need(abs(angle) < 1e5 and abs(p) < .01 and abs(q) < .01, "angle")
    cx, cy = F(about[0]), F(about[1])
    m = F(o.magnitude(points + [about, to]))
    tol = F(2e-14 + 1e-16 * abs(angle)) * m
    U = PathUtilities
    turn, turnLeft = model("rotation", (angle, ccw)), model("rotation", (angle, True))
    for x, y in points:
        dx, dy = F(x) - cx, F(y) - cy
        rx, ry = turn(dx, dy)
        near(mon, Transform.rotationAbout(about, angle, ccw).applyToPoint((x, y)), (cx + rx, cy + ry), tol, "rotated about a point")
        near(mon, U.rotatePointAbout((x, y), about, angle, ccw), (cx + rx, cy + ry), tol, "rotated about a point")
        near(mon, U.rotatePointAbout((x, y), about), (cx - dy, cy + dx), tol, "a quarter turn anticlockwise by default")
        near(mon, Transform.mirrorAround(about, xAxis, yAxis).applyToPoint((x, y)), (cx - dx if yAxis else F(x), cy - dy if xAxis else F(y)), tol, "mirrored around a point")
        mx, my = to[0] - about[0], to[1] - about[1]
        rot = model("rotation", (angle, True))
        tx, ty = rot(F(x) + F(to[0]) - cx, F(y) + F(to[1]) - cy)
        near(mon, Transform.moveAndRotate(about, to, angle).applyToPoint((x, y)), (tx, ty), 2 * tol, "moved, then rotated")
        tx, ty = rot(F(x), F(y))
        near(mon, Transform.rotateAndMove(about, to, angle).applyToPoint((x, y)), (tx + F(to[0]) - cx, ty + F(to[1]) - cy), 2 * tol, "rotated, then moved")
        w = F(p) * dx + F(q) * dy + 1
        if abs(w) > F(1, 10):
            slack = F(1e-13) * m * (1 + m / 100) / w ** 2
            near(mon, Transform.perspectiveFrom(about, p, q).applyToPoint((x, y)), (cx + dx / w, cy + dy / w), slack, "perspective from a point")
        near(mon, Transform.mirrorAround(about).applyToPoint((x, y)), (F(x), F(y)), tol, "no arguments, no effect")
        near(mon, Transform.perspectiveFrom(about).applyToPoint((x, y)), (F(x), F(y)), tol, "no arguments, no effect")
        near(mon, Transform.rotationAbout(about).applyToPoint((x, y)), (cx - dy, cy + dx), tol, "a quarter turn anticlockwise by default")
        near(mon, Transform.rotationAbout(about, angle).applyToPoint((x, y)), (cx + turnLeft(dx, dy)[0], cy + turnLeft(dx, dy)[1]), tol, "a quarter turn anticlockwise by default")
    near(mon, Transform.rotationAbout(about, angle, ccw).applyToPoint(about), (cx, cy), tol, "the pivot stays")
    near(mon, Transform.mirrorAround(about, xAxis, yAxis).applyToPoint(about), (cx, cy), tol, "the pivot stays")
    near(mon, Transform.perspectiveFrom(about, p, q).applyToPoint(about), (cx, cy), tol * (1 + m / 100), "the pivot stays")
    mon.state(ccw, xAxis, yAxis, angle % 90 == 0, angle > 0)


# ---------------------------------------------------------------- T04
def genApply(rng):
    return {"chain": [genOne(rng, ("translate", "scale", "shear", "mirror", "rotation")) for _ in range(rng.choice((1, 2)))],
            "contours": [rng.sample(c, len(c)) if rng.random() < .3 else c for c in (gen.contour(rng, gen.count(rng, (1, 2, 2, 3, 3, 7), 40, .02)) for _ in range(gen.count(rng, (0, 1, 1, 2, 2, 3, 3, 6), 30, .02)))], "about": gen.point(rng, "font"), "degrees": degrees(rng), "ccw": rng.random() < .5}


def checkApply(case, mon):
    chain = [(k, tuple(a)) for k, a in case["chain"]]
    for kind, args in chain: validOne(mon, kind, args)
    contours = [[pts(s) for s in c] for c in case["contours"]]
    bounded(mon, [p for c in contours for s in c for p in s] + [case["about"]], 1e7)
    mon.need(abs(case["degrees"]) < 1e5, "angle")
    given = [[list(s) for s in c] for c in contours]
    t = Transform(*[build(k, a).transform for k, a in chain])
    about, angle, ccw = tuple(case["about"]), case["degrees"], case["ccw"]
    matrix = plain(t.transform)
    U = PathUtilities
    r = Transform.rotationAbout(about, angle, ccw)
    tests = [(t.applyToPoint, t.applyToSegment, t.applyToContour, t.applyToContours),
             (r.applyToPoint, lambda s: U.rotateSegmentAbout(s, about, angle, ccw), lambda c: U.rotateContourAbout(c, about, angle, ccw), lambda c: U.rotateContoursAbout(c, about, angle, ccw)),
             (Transform.rotationAbout(about).applyToPoint, lambda s: U.rotateSegmentAbout(s, about), lambda c: U.rotateContourAbout(c, about), lambda c: U.rotateContoursAbout(c, about))]
    for point, segment, contour, every in tests:
        want = [[[tuple(point(p)) for p in s] for s in c] for c in given]
        mon.expect([[pts(s) for s in c] for c in every(contours)] == want, "contours map point by point")
        for c, wc in zip(contours, want):
            mon.expect([pts(s) for s in contour(c)] == wc, "a contour maps point by point")
            for s, ws in zip(c, wc): mon.expect(pts(segment(s)) == ws, "a segment maps point by point", got=segment(s))
    mon.expect(contours == given, "what is transformed is kept")
    mon.expect(plain(t.transform) == matrix, "the transform is kept")
    # a Bézier curve is mapped by mapping its points
    for c in contours:
        for s in c:
            out = t.applyToSegment(s)
            m = max(o.magnitude(s), o.magnitude(out), 1)
            k = max(abs(v) for row in matrix for v in row)
            for u in (0, .3, 1):
                near(mon, o.at1(out, u), t.applyToPoint(o.at1(s, u)), 1e-13 * m * (1 + k) * 10, "curves map by their control points")
    mon.state(tuple(k for k, _ in chain), tuple(len(c) for c in contours))


PROPERTIES = [
    Property("U01", genBounds, checkBounds, "points and contours with ties, repeated points, nothing at all, and values beyond 16 bits; exact comparison",
             ["bounds of points", "bounds of a contour", "bounds of contours", "nothing has empty bounds", "centre", "coordinate at a fraction", "contour goes clockwise from the bottom left"], quick=64000, thorough=1600000),
    Property("U02", genRects, checkRects, "triples of rectangles with coinciding edges, points, lines and empty ones, all pairs of each; exact comparison",
             ["union is the smallest rectangle around both", "separate rectangles don't intersect", "intersection is what both have in common", "relation", "encloses a point", "crosses a coordinate"], quick=64000, thorough=1600000),
    Property("U03", genMetrics, checkMetrics, "lines and longer segments, of tuples and of complex numbers, in all directions; rational arithmetic",
             ["length", "slope is rise over run", "slope of a vertical line", "angle from vertical, 0 to 90 degrees", "midpoint", "direction in degrees, anticlockwise from the x axis", "diagonal line", "thousandths of the em"], quick=80000, thorough=2000000),
    Property("U04", genCross, checkCross, "pairs of lines: crossing, touching, parallel, axis-parallel, apart; exact crossing by rational arithmetic",
             ["parallel lines don't intersect", "lines that cross have an intersection", "lines that end before they cross have none", "intersection is on both lines", "point where the lines cross"], quick=120000, thorough=3000000),
    Property("U05", genOn, checkOn, "points on, near, beyond and beside lines with whole coordinates, and straight lines with any; exact collinearity", ["on the line", "not on the line"], quick=120000, thorough=3000000),
    Property("U06", genHelpers, checkHelpers, "numbers of all magnitudes; rational arithmetic", ["interpolated point", "mapped from range to range", "cube root", "first of each value, in order", "angle between two directions"], quick=80000, thorough=2000000),
    Property("U07", genTools, checkTools, "values close to the tolerance and far from it, lines and parabolas with and without roots; rational arithmetic", ["the same within the precision", "between two values, give or take a millionth", "square root", "no root of a negative number", "ratio of the projection", "roots are roots", "roots are found", "no roots"], quick=80000, thorough=2000000),
    Property("T01", genConstructor, checkConstructor, "every constructor, with all signs and axes, multiples of 90 degrees and any angle; the documented effect in rational arithmetic",
             ["effect of " + k for k in KINDS] + ["no arguments, no effect", "a quarter turn anticlockwise by default"], quick=96000, thorough=2400000),
    Property("T02", genCompose, checkCompose, "chains of 1-6 transforms, also projective; exact matrix products and step-by-step application", ["product of the matrices in order", "as one after the other, first to last", "product of three matrices", "matrices are kept"], quick=36000, thorough=900000),
    Property("T03", genPivot, checkPivot, "pivots, angles, axes; exact effect in rational arithmetic", ["rotated about a point", "mirrored around a point", "moved, then rotated", "rotated, then moved", "perspective from a point", "the pivot stays", "no arguments, no effect", "a quarter turn anticlockwise by default"], quick=40000, thorough=1000000),
    Property("T04", genApply, checkApply, "nested contours under affine chains and rotations; compared point by point", ["contours map point by point", "a segment maps point by point", "what is transformed is kept", "curves map by their control points"], quick=32000, thorough=800000),
]
