"""The planted bugs. Each one is written from the statement of its property and the code alone."""
BZ, BU, PU, TR, CF, MI, SP, CO, CP = ["PathLib/" + n + ".py" for n in ("Bezier", "BezierUtilities", "PathUtilities", "Transform", "CurveFitting", "MatrixInversion", "SegmentPen", "Color", "ContourPlotter")]
BUGS = []


def bug(id, property, needs, breaks, edits, demo, stubs=False):
    BUGS.append(dict(id=id, property=property, needs=needs, breaks=breaks, edits=edits, demo=demo, stubs=stubs))


bug("B01-quintic-end", "B01", "a curve of order four or more, asked for its point at exactly 1",
    "the last point of higher-order curves is the fourth control point",
    [(BZ, "if t == 1: return self._controlPoints[self.order]", "if t == 1: return self._controlPoints[min(self.order, 3)]")],
    """
from PathLib.Bezier import Bezier
p = [(0, 0), (10, 30), (40, 50), (70, 20), (90, -10), (120, 5)]
assert Bezier(p).get(1) == p[-1]
assert Bezier(p[:4]).get(1) == p[3]
""")

bug("B02-flat-start", "B02", "the normal of a curve whose first handle points straight left or right, at 0",
    "the normal gets the wrong side for a derivative without a y component to the left",
    [(BZ, "        return (-dy / q, dx / q)\n\n\n", "        return (-dy / q, dx / q) if dy else (0.0, 1.0)\n\n\n")],
    """
from PathLib.Bezier import Bezier
n = Bezier([(100, 0), (50, 0), (0, 40), (0, 90)]).normal(0)
assert abs(n[0]) < 1e-12 and abs(n[1] + 1) < 1e-12, n
n = Bezier([(0, 0), (50, 0), (90, 40), (90, 90)]).normal(0)
assert abs(n[0]) < 1e-12 and abs(n[1] - 1) < 1e-12, n
""")

bug("B03-near-end", "B03", "splitting between two parameters of which the second is within a thousandth of 1, but isn't 1",
    "the part goes to the end of the curve",
    [(BZ, "if t2 == 1: return self.split(t1)[1]", "if t2 is not None and butils.approximately(t2, 1, 0.001): return self.split(t1)[1]")],
    """
from PathLib.Bezier import Bezier
b = Bezier([(0, 0), (100, 900), (700, -400), (1000, 300)])
x, y = b.split(.25, .9995).end
ex, ey = b.get(.9995)
assert abs(x - ex) + abs(y - ey) < 1e-6, (x, y, ex, ey)
assert b.split(.25, 1).end == (1000, 300)
""")

bug("B03-parts-of-parts", "B10", "intersecting curves that have to be divided into pieces, of which one isn't the first of its curve, more than once",
    "the parameters reported for crossings in later pieces are off",
    [(BZ, "left._t2 = butils.map(t1, 0, 1, self._t1, self._t2)", "left._t2 = self._t1 + t1 * (self._t2 - self._t1) if self._t1 == 0 else self._t2 - t1 * (self._t2 - self._t1) * 0.9")],
    """
from PathLib.Bezier import Bezier
a = Bezier([(0, 0), (100, 300), (200, -300), (300, 10)])
b = Bezier([(250, -200), (240, -50), (262, 90), (255, 200)])
found = a.intersects(b)
assert found
for t, u in found:
    p, q = a.get(t), b.get(u)
    assert abs(p[0] - q[0]) + abs(p[1] - q[1]) < 1, (t, u, p, q)
""")

bug("B05-linear-derivative", "B05", "a cubic of which the derivative of one coordinate is exactly linear",
    "its turning point is reported in the wrong place",
    [(BU, "            return [(2 * b - c) / (2 * (b - c))]", "            return [(2 * b - c) / (2 * b)]")],
    """
from PathLib.Bezier import Bezier
# a raised quadratic on whole numbers: y = 2t(1-t)*300 + t*t*60
b = Bezier([(0, 0), (100, 200), (200, 220), (300, 60)])
top = max(b.get(i / 1000)[1] for i in range(1001))
assert abs(b.boundsRectangle.top - top) < .01, (b.boundsRectangle.top, top)
""")

bug("B06-cached-extrema-dimension", "B06", "a curve with a turning point in y but none in x",
    "the bounds ignore the turning points of y if there are none of x",
    [(BZ, "                result[dim] = self._getminmax(dim, extrema[dim])", "                result[dim] = self._getminmax(dim, extrema[dim] if extrema[0] else [])")],
    """
from PathLib.Bezier import Bezier
b = Bezier([(0, 0), (50, 100), (120, 0)])
assert abs(b.boundsRectangle.top - 50) < 1e-9
""")

bug("B06-tight-vertical", "B06", "the tight box of a curve whose chord is vertical and goes down",
    "the tight box is turned the wrong way around its start",
    [(BZ, "        translate = Transform.rotateAndMove((0, 0), self.controlPoints[0], angle)", "        translate = Transform.rotateAndMove((0, 0), self.controlPoints[0], abs(angle) if self.startX == self.endX else angle)")],
    """
from PathLib.Bezier import Bezier
b = Bezier([(10, 100), (60, 70), (60, 20), (10, 0)])
box = [p for s in b.tightbbox for p in s]
assert min(p[1] for p in box) > -1 and max(p[1] for p in box) < 101, box
""")

bug("B08-linear-solution", "B08", "a cubic with one coordinate that is exactly linear in t, whose crossing isn't in the middle",
    "the crossing is lost or in the wrong place",
    [(BZ, "return list(filter(reduce, [-c / b]))", "return list(filter(reduce, [-c / b if c < 0 else c / b]))")],
    """
from PathLib.Bezier import Bezier
b = Bezier([(0, 30), (100, 10), (100, -10), (0, -30)])
r = b.roots()
assert len(r) == 1 and abs(r[0] - .5) < 1e-6, r
b = Bezier([(0, -30), (100, 0), (100, 30), (0, 60)])
r = b.roots()
assert len(r) == 1 and abs(r[0] - 1 / 3) < 1e-6, r
""")

bug("B08-third-root", "B08", "a cubic that crosses a line three times, of which the last lies near the end",
    "near the ends of [0, 1], the third of three crossings is lost",
    [(BZ, "            return 0 <= t <= 1 or butils.approximately(t, 0) or butils.approximately(t, 1)", "            return 0 <= t < 1 - 0.001 or butils.approximately(t, 0) or butils.approximately(t, 1)")],
    """
from PathLib.Bezier import Bezier
# crosses y = 0 at t = 0.9995
b = Bezier([(0, -99.95), (100 / 3, -66.6167), (200 / 3, -33.2833), (100, 0.05)])
assert len(b.roots()) == 1
b = Bezier([(0, 10), (0, -30), (0, 30), (0, -10)])
assert len(b.roots()) == 3
""")

bug("B09-descending", "B09", "a segment that goes down or to the left",
    "intersections with segments are found only if their ends are in ascending order",
    [(BZ, "        MY = max(p1y, p2y)\n", "        MY = p2y if my == p1y else my + abs(p2y - my)\n")],
    """
from PathLib.Bezier import Bezier
b = Bezier([(0, 0), (50, 100), (100, 0)])
assert len(b.lineIntersects(((10, 0), (10, 60)))) == 1
assert len(b.lineIntersects(((10, 60), (10, 0)))) == 1
""")

bug("B10-three-pairs", "B10", "two crossings that fall in diagonally opposite halves of both pieces at some level of the search",
    "a crossing in the second half of one and the first half of the other is lost",
    [(BZ, "pairs = [(cc1left, cc2left), (cc1left, cc2right), (cc1right, cc2right), (cc1right, cc2left)]", "pairs = [(cc1left, cc2left), (cc1right, cc2right)] if cc1left.overlaps(cc2left) and cc1right.overlaps(cc2right) and not cc1left.overlaps(cc1right) else [(cc1left, cc2left), (cc1left, cc2right), (cc1right, cc2right), (cc1right, cc2left)]\n        if len(pairs) == 4 and c1b.width < c2b.width / 3: pairs.pop()")],
    """
from PathLib.Bezier import Bezier
missed = 0
import math
def exact(a, b):
    # crossings of b (a nearly straight steep curve) with a, by sign changes
    out = []
    N = 2000
    for i in range(N):
        pass
    return out
a = Bezier([(0, 0), (300, 20), (700, -20), (1000, 10)])
for k in range(5, 100):
    x = k * 10
    b = Bezier([(x + 3, -80), (x, -30), (x, 30), (x - 3, 80)])
    if not a.intersects(b): missed += 1
    if not b.intersects(a): missed += 1
assert missed == 0, missed
""")

bug("B11-neighbours", "B11", "a loop that is made up of few pieces, so that the pieces that cross are only two apart",
    "tight loops aren't found",
    [(BZ, "            right = reduced[i+2:]", "            right = reduced[i+5:]")],
    """
from PathLib.Bezier import Bezier
def crossing(p):
    # double point of a cubic by brute force
    b = Bezier(p)
    pts = [b.get(i / 400) for i in range(401)]
    for i in range(400):
        for j in range(i + 60, 400):
            (x1, y1), (x2, y2), (x3, y3), (x4, y4) = pts[i], pts[i + 1], pts[j], pts[j + 1]
            d = (x2 - x1) * (y4 - y3) - (y2 - y1) * (x4 - x3)
            if not d: continue
            s = ((x3 - x1) * (y4 - y3) - (y3 - y1) * (x4 - x3)) / d
            u = ((x3 - x1) * (y2 - y1) - (y3 - y1) * (x2 - x1)) / d
            if 0 < s < 1 and 0 < u < 1: return (i + s) / 400, (j + u) / 400
    return None
p = [(-76.35, -179.76), (-192.46, -175.44), (-146.7, -109.03), (-83.23, -208.4)]
t, u = crossing(p)
found = Bezier(p).selfIntersects()
assert any(abs(a - t) < .02 and abs(b - u) < .02 for a, b in found), (t, u, found)
""")

bug("B12-last-piece", "B12", "a curve with a piece between extrema of which less than 2% are left when the search ends",
    "the end of the curve isn't in any of its pieces",
    [(BZ, "            if t1 < 1:\n                segment = p1.split(t1, 1)", "            if t1 + 2 * step < 1:\n                segment = p1.split(t1, 1)")],
    """
from PathLib.Bezier import Bezier
import random
rng = random.Random(3)
for _ in range(3000):
    p = [(rng.uniform(0, 400), rng.uniform(0, 400)) for _ in range(4)]
    b = Bezier(p)
    if min(sum(v * v for v in b._derivative(i / 50)) for i in range(51)) < 2500: continue
    r = b.reduce()
    for k, l in zip(r, r[1:]):
        assert abs(k.end[0] - l.start[0]) + abs(k.end[1] - l.start[1]) < 1e-6, p
    assert not r or abs(r[-1].end[0] - p[3][0]) + abs(r[-1].end[1] - p[3][1]) < 1e-6, p
""")

bug("B13-other-side", "B13", "a cubic that bends little, starting to its right and ending to its left",
    "such s-shaped cubics are called simple",
    [(BZ, "            if (a1 > 0 and a2 < 0) or (a1 < 0 and a2 > 0): return False", "            if a1 > 0 and a2 < 0: return False")],
    """
from PathLib.Bezier import Bezier
assert not Bezier([(0, 0), (100, 20), (200, -20), (300, 0)]).simple()
assert not Bezier([(0, 0), (100, -20), (200, 20), (300, 0)]).simple()
""")

bug("B14-straight-piece", "B14", "the offset of a straight curve that isn't a line, that is, with handles on its chord",
    "straight quadratics and cubics are moved to the other side",
    [(BZ, "            coords = list(map(lambda p: (p[0] + t * nv[0], p[1] + t * nv[1]), self.controlPoints))", "            side = t if self.order == 1 or self._clockwise else -t\n            coords = list(map(lambda p: (p[0] + side * nv[0], p[1] + side * nv[1]), self.controlPoints))")],
    """
from PathLib.Bezier import Bezier
p = Bezier([(0, 0), (30, 0), (60, 0), (90, 0)]).offset(10)[0].controlPoints
assert all(abs(y - 10) < 1e-9 for x, y in p), p
p = Bezier([(0, 0), (90, 0)]).offset(10)[0].controlPoints
assert all(abs(y - 10) < 1e-9 for x, y in p), p
""")

bug("B15-function-side", "B15", "scaling a clockwise curve by a function",
    "the handles go to the other side",
    [(BZ, "            if distanceFn and not clockwise: rc = -rc", "            if distanceFn and not (clockwise and order == 3): rc = -rc"),
     (BZ, "        if callable(d) and order == 2: return self.raiseOrder().scale(distanceFn)", "        if callable(d) and order == 2: return self.raiseOrder().scale(lambda t: distanceFn(1 - t) if not self._clockwise else distanceFn(t))")],
    """
from PathLib.Bezier import Bezier
def f(t): return 5 + 10 * t
for p in ([(0, 0), (50, 15), (100, 0)], [(0, 0), (50, -15), (100, 0)]):
    b = Bezier(p)
    s = b.scale(f)
    for t, d in ((0, 5), (1, 15)):
        x, y = b.get(t); nx, ny = b.normal(t); sx, sy = s.get(t)
        assert abs(x + d * nx - sx) + abs(y + d * ny - sy) < 1e-6, (p, t)
""")

bug("B17-level-steps", "B17", "a quadratic or cubic with two neighbouring control points at the same height",
    "its direction is mixed instead of up",
    [(BZ, "            if p0y <= p1y <= p2y <= p3y:", "            if p0y <= p1y < p2y <= p3y:")],
    """
from PathLib.Bezier import Bezier
assert Bezier([(0, 0), (10, 5), (20, 5), (30, 20)]).direction == Bezier.dir_up
assert Bezier([(0, 0), (10, 5), (20, 6), (30, 20)]).direction == Bezier.dir_up
assert Bezier([(0, 9), (10, 5), (20, 5), (30, 2)]).direction == Bezier.dir_down
""")

bug("B18-skeleton-bounds", "B18", "asking for the skeleton's bounds before the bounds (or twice)",
    "the bounds of the curve grow by 40 to the right at each such question",
    [(BZ, "        sbounds = PathUtilities.BoundsRectangle.fromContour([self.controlPoints])\n", "        sbounds = self.boundsRectangle if self.order == 1 else PathUtilities.BoundsRectangle.fromContour([self.controlPoints])\n")],
    """
from PathLib.Bezier import Bezier
b = Bezier([(0, 0), (100, 50)])
b.skeletonBounds
assert b.boundsRectangle.right == 100
""")

bug("B18-hull-of-list", "B18", "the hull of a curve, when the control points were given as a list",
    "the hull's points are appended to the curve's control points",
    [(BZ, "        q = [pt for pt in p]\n", "        q = p if isinstance(p, list) and t in (0, 1) else [pt for pt in p]\n")],
    """
from PathLib.Bezier import Bezier
p = [(0, 0), (50, 80), (100, 0)]
b = Bezier(p)
assert len(b.hull(.3)) == 6 and len(p) == 3
b.hull(0)
assert len(p) == 3 and b.order == 2
""")

bug("N01-start", "N01", "replacing or deleting the first curve of a contour, not the last",
    "the contour keeps its old start",
    [(BZ, "        self._lut = []\n        self._start = self._beziers[0].start\n        self._end = self._beziers[-1].end\n\n    def __setitem__", "        self._lut = []\n        self._end = self._beziers[-1].end\n\n    def __setitem__")],
    """
from PathLib.Bezier import BContour
c = BContour([[(0, 0), (10, 0)], [(10, 0), (10, 10)]])
c[1] = [(10, 0), (12, 12)]
assert c.end == (12, 12)
c[0] = [(5, 5), (10, 0)]
assert c.start == (5, 5)
""")

bug("N02-reused-table", "N02", "asking a curve for tables of two sizes, and keeping the first",
    "the table handed out earlier changes when another size is asked for",
    [(BZ, "        self._lut = []\n        # We want a range from 0 to 1 inclusive, so", "        self._lut.clear()\n        # We want a range from 0 to 1 inclusive, so")],
    """
from PathLib.Bezier import Bezier
b = Bezier([(0, 0), (50, 80), (100, 0)])
first = b.getLUT(5)
kept = list(first)
b.getLUT(9)
assert first == kept
""")

bug("N03-manhattan", "N03", "a point for which the closest table entry differs between the Manhattan and the Euclidean distance",
    "the search starts at the wrong entry, and the point found is farther away than the table's best",
    [(BZ, "            dist = math.hypot(px - x, py - y)\n            if dist < closest:\n                closest = dist\n                i = index", "            dist = abs(px - x) + abs(py - y)\n            if dist < closest:\n                closest = dist\n                i = index")],
    """
from PathLib.Bezier import BContour
import math
c = BContour([[(60, 0), (400, 0)], [(400, 0), (400, 300)], [(400, 300), (38, 38)]])
worst = 0
for p in ((0, 0), (2, 1), (-3, 0)):
    d, q = c.findClosestPoint(p, 21)
    best = min(math.hypot(x - p[0], y - p[1]) for x, y in c.getLUT(21))
    worst = max(worst, d - best)
assert worst < 1e-9, worst
""")

bug("N03-second-curve", "N03", "a point that is closest to the start of a curve other than the first two",
    "the search doesn't look at the beginning of the next curve when the table's closest entry is a join",
    [(BZ, "            if ix < nCurves - 1: curve2 = self.beziers[ix + 1]", "            if ix < nCurves - 2: curve2 = self.beziers[ix + 1]")],
    """
from PathLib.Bezier import BContour
import math
c = BContour([[(0, 0), (100, 0)], [(100, 0), (200, 0)], [(200, 0), (200, 300)]])
d, q = c.findClosestPoint((260, 40), 4)
assert abs(d - 60) < .5, (d, q)
""")

bug("N04-six-digits", "N04", "coordinates with more than six significant digits",
    "the path string has rounded coordinates",
    [(BZ, "                    commands.append(f\"{command}{y}\")\n                elif penY == y:", "                    commands.append(f\"{command}{y:g}\")\n                elif penY == y:")],
    """
from PathLib.Bezier import BContour
d = BContour([[(10.5, 20), (10.5, 1234.5678)], [(10.5, 1234.5678), (0, 0)]]).d()
assert "V1234.5678" in d, d
""")

bug("N04-pen-after-quadratic", "N04", "a line after a quadratic curve, at the height or with the x of the curve's handle",
    "the line is written as a horizontal or vertical one",
    [(BZ, "                    pen = segment[2]", "                    pen = segment[1]")],
    """
from PathLib.Bezier import BContour
d = BContour([[(0, 0), (50, 80), (100, 20)], [(100, 20), (200, 80)], [(200, 80), (0, 0)]]).d()
assert "L200,80" in d, d
""")

bug("N05-control-points", "N05", "a contour with a curve whose handles lie outside of its bounds",
    "the bounds of a contour of several curves are those of the control points",
    [(BZ, "            bounds = bounds.union(bezier.boundsRectangle)\n            beziers.append(bezier)", "            bounds = bounds.union(bezier.boundsRectangle if not beziers else PathUtilities.BoundsRectangle(*segment))\n            beziers.append(bezier)")],
    """
from PathLib.Bezier import BContour
b = BContour([[(0, 0), (10, 0)], [(10, 0), (20, 100), (30, 0)]]).boundsRectangle
assert abs(b.top - 50) < 1e-9, b.top
""")

bug("U01-percent", "U01", "a fraction of the height of a rectangle whose bottom isn't at 0, or beyond the top",
    "coordinates beyond the top are cut off",
    [(PU, "        return self.bottom + self.height * percent", "        return min(self.top, self.bottom + self.height * percent)")],
    """
from PathLib.PathUtilities import BoundsRectangle
b = BoundsRectangle((10, 20), (110, 220))
assert b.yFromBottom(.5) == 120
assert b.yFromBottom(1.5) == 320
""")

bug("U02-corners", "U02", "rectangles that have nothing but a corner in common",
    "they don't intersect",
    [(PU, "        if newRight < newLeft or newTop < newBottom: return None  # maybe want <=, >=?", "        if newRight < newLeft or newTop < newBottom or (newRight == newLeft and newTop == newBottom): return None")],
    """
from PathLib.PathUtilities import BoundsRectangle
a, b = BoundsRectangle((0, 0), (10, 10)), BoundsRectangle((10, 10), (20, 20))
i = a.intersection(b)
assert i and i.points == (10, 10, 10, 10)
assert a.relationTo(b) == BoundsRectangle.relationIntersects
""")

bug("U03-complex-slope", "U03", "the slope angle of a segment with more than two points, which goes down",
    "the angle from vertical exceeds 90 degrees for curves that go down",
    [(PU, "    return math.degrees(math.atan2(abs(dx), abs(dy)))\n\n# def", "    return math.degrees(math.atan2(abs(dx), abs(dy) if len(segment) == 2 else dy))\n\n# def")],
    """
from PathLib.PathUtilities import slopeAngle
assert abs(slopeAngle([(0, 0), (10, -10)]) - 45) < 1e-9
assert abs(slopeAngle([(0, 0), (3, 4), (10, -10)]) - 45) < 1e-9
""")

bug("U05-slope-tolerance", "U05", "a point next to a segment that is hundreds of thousands of units long",
    "points that are just off long segments are reported as on them",
    [(PU, "    return bounds.enclosesPoint(point) and slope(line) == slope([line[0], point])", "    return bounds.enclosesPoint(point) and math.isclose(slope(line), slope([line[0], point]), rel_tol=1e-9)")],
    """
from PathLib.PathUtilities import pointOnLine
assert pointOnLine((300, 200), [(0, 0), (900, 600)])
q, p = 999983, 618033
x = pow(p, -1, q)
y = (x * p - 1) // q
assert not pointOnLine((x, y), [(0, 0), (q, p)])
""")

bug("U06-descending-map", "U06", "mapping from a descending range",
    "values are mapped as if the range were ascending",
    [(BU, "    v2 = v - ds\n", "    v2 = v - min(ds, de)\n")],
    """
from PathLib import BezierUtilities as u
assert abs(u.map(.25, 0, 1, 0, 100) - 25) < 1e-9
assert abs(u.map(10, 10, 0, 0, 100)) < 1e-9
""")

bug("T01-clockwise", "T01", "a clockwise rotation by an angle that isn't a multiple of a half turn, composed about the origin",
    "clockwise rotations by more than a half turn go anticlockwise",
    [(TR, "        return Transform._matrix(a=ct, b=st, c=-st, d=ct) if ccw else Transform._matrix(a=ct, b=-st, c=st, d=ct)", "        return Transform._matrix(a=ct, b=st, c=-st, d=ct) if ccw or degrees > 180 else Transform._matrix(a=ct, b=-st, c=st, d=ct)")],
    """
from PathLib.Transform import Transform
x, y = Transform.rotation(270, ccw=False).applyToPoint((10, 0))
assert abs(x) < 1e-9 and abs(y - 10) < 1e-9, (x, y)
""")

bug("T02-perspective-order", "T02", "a perspective transform followed by a translation",
    "the translation isn't divided by the perspective",
    [(TR, "        rx = rp[0]/rp[2]", "        rx = (rp[0] - self.transform[2][0]) / rp[2] + self.transform[2][0] if self.transform[0][2] and not self.transform[1][2] else rp[0]/rp[2]")],
    """
from PathLib.Transform import Transform
t = Transform(Transform._translateMatrix((0, 0), (10, 0)), Transform._perspectiveMatrix(.01, 0))
x, y = t.applyToPoint((90, 20))
assert abs(x - 50) < 1e-9 and abs(y - 10) < 1e-9, (x, y)
""")

bug("T03-mirror-about", "T03", "mirroring around a centre in one direction only",
    "mirroring in y only also moves points in x when the centre isn't on the y axis",
    [(TR, "        mirrorPoint = (cx - tx, cy - ty)", "        mirrorPoint = (cx - tx, cy - ty) if tx and ty else (cx - tx, 0.0) if not tx else (0.0, cy)"),
     (TR, "            ty = cy\n", "            ty = abs(cy)\n")],
    """
from PathLib.Transform import Transform
x, y = Transform.mirrorAround((30, -40), True, False).applyToPoint((35, -50))
assert abs(x - 35) < 1e-9 and abs(y + 30) < 1e-9, (x, y)
x, y = Transform.mirrorAround((30, -40), True, True).applyToPoint((30, -40))
assert abs(x - 30) < 1e-9 and abs(y + 40) < 1e-9, (x, y)
""")

bug("M01-zero-above", "M01", "a matrix with an element that is eliminated although it isn't zero but smaller than a millionth",
    "small elements aren't eliminated, and the inverse is off",
    [(MI, "            e = C[ii][i]\n", "            e = C[ii][i]\n            if abs(e) < 1e-6: continue\n"),
     (MI, "            # Only apply to other rows (we want a 1 on the diagonal\n", "            # Only apply to other rows (we want a 1 on the diagonal)\n")],
    """
from PathLib.MatrixInversion import matrixInvert
m = [[1, 0], [5e-7, 1e-6]]
r = matrixInvert(m)
p = [[sum(m[i][k] * r[k][j] for k in range(2)) for j in range(2)] for i in range(2)]
assert all(abs(p[i][j] - (i == j)) < 1e-9 for i in range(2) for j in range(2)), p
""")

bug("F01-float-binomials", "F01", "binomial coefficients for n of 58 and more",
    "large binomial coefficients are rounded",
    [(CF, "            nextRow.append(lut[prev][i-1] + lut[prev][i])", "            nextRow.append(round(lut[prev][i-1] * ((prev + 1) / i)))")],
    """
from PathLib.CurveFitting import binomial
from math import comb
for n in list(range(30)) + [70, 90]:
    assert all(binomial(n, k) == comb(n, k) for k in range(n + 1)), n
""")

bug("F02-repeated-points", "F02", "time values in equal steps for more than two points",
    "equal steps are used only if the points aren't on a line",
    [(CF, "        return [i / (n-1) for i in range(n)]", "        return [i / (n-1) for i in range(n)] if n < 5 else computeTimeValues(p, n)")],
    """
from PathLib.CurveFitting import computeTimeValues
p = [(0, 0), (1, 0), (10, 0), (30, 0), (31, 5)]
assert computeTimeValues(p, polygonal=False) == [0, .25, .5, .75, 1]
""")

bug("S01-rounded-implied", "S01", "a quadratic spline with successive off-curve points whose coordinates add up to odd numbers",
    "implied points are rounded to whole units",
    [(SP, "                impliedPoint = (0.5 * (p1x + p2x), 0.5 * (p1y + p2y))", "                impliedPoint = ((p1x + p2x) // 2, (p1y + p2y) // 2) if isinstance(p1x, int) and isinstance(p2x, int) else (0.5 * (p1x + p2x), 0.5 * (p1y + p2y))")],
    """
from PathLib.SegmentPen import SegmentPen
import logging
p = SegmentPen({}, logging.getLogger("x"))
p.moveTo((0, 0)); p.qCurveTo((10, 11), (21, 30), (40, 0)); p.closePath()
assert p.contours[0][0][2] == (15.5, 20.5), p.contours
""")

bug("S01-closing", "S01", "a contour that ends at its start's x but another y",
    "the closing line is left out",
    [(SP, "            if self._contour[0][0] != self._contour[-1][-1]:", "            if self._contour[0][0] != self._contour[-1][-1] and len(self._contour) > 1:")],
    """
from PathLib.SegmentPen import SegmentPen
import logging
p = SegmentPen({}, logging.getLogger("x"))
p.moveTo((0, 0)); p.lineTo((10, 0)); p.lineTo((10, 10)); p.closePath()
p.moveTo((0, 0)); p.curveTo((0, 50), (50, 50), (50, 0)); p.closePath()
assert [len(c) for c in p.contours] == [3, 2], p.contours
""")

bug("S02-shear", "S02", "a component with a general transformation (rotated or sheared)",
    "the off-diagonal elements are exchanged",
    [(SP, "                b=xyScale,\n                c=yxScale,", "                b=yxScale if xScale == yScale else xyScale,\n                c=xyScale if xScale == yScale else yxScale,")],
    """
from PathLib.SegmentPen import SegmentPen
import logging
class G:
    def __init__(self, f): self.draw = f
log = logging.getLogger("x")
def base(pen): pen.moveTo((0, 0)); pen.lineTo((10, 0)); pen.lineTo((0, 20)); pen.closePath()
p = SegmentPen({"a": G(base)}, log)
p.addComponent("a", (0, 1, -1, 0, 5, 5))
assert p.contours[0][0] == [(5, 5), (5, 15)], p.contours
p = SegmentPen({"a": G(base)}, log)
p.addComponent("a", (2, 0, 0, 2, 5, 5))
assert p.contours[0][0] == [(5, 5), (25, 5)], p.contours
""")

bug("C01-slate", "C01", "one of the 147 keywords",
    "darkslategrey isn't the same as darkslategray",
    [(CO, "        'darkslategrey': (47, 79, 79),", "        'darkslategrey': (47, 97, 79),")],
    """
from PathLib.Color import Color
assert Color.fromName("DarkSlateGrey").components == (47, 79, 79)
""", stubs=True)

bug("C02-hue-wrap", "C02", "a generated colour whose hue passes the full circle from a hue that isn't whole",
    "hues become whole when they pass 360 degrees",
    [(CO, "        cls._current_hue = (cls._current_hue + 73) % 360", "        cls._current_hue = cls._current_hue + 73\n        if cls._current_hue >= 360: cls._current_hue = int(cls._current_hue) - 360 + (20 if cls._current_hue % 1 else 0)")],
    """
from PathLib.Color import Color
from colorsys import hls_to_rgb
Color.setCurrentHue(300.5)
c = Color.randomHSLColor()
r, g, b = hls_to_rgb(13.5 / 360, .5, .5)
assert c.components == (round(r * 255), round(g * 255), round(b * 255)), c.components
""", stubs=True)

bug("G01-zero-length-repeat", "G01", "drawing with abbreviated commands a contour with a quadratic after a cubic of a previous kind",
    "with abbreviated commands, a cubic after a quadratic is written as another quadratic",
    [(CP, "                        command = self.getCommand(\"C\")\n                        commands.append(f\"{command}{p1} {p2} {p3}\")\n                        self._pen = segment[3]", "                        command = self.getCommand(\"C\") if penCurve != 3 else \" \"\n                        commands.append(f\"{command}{p1} {p2} {p3}\")\n                        self._pen = segment[3]"),
     (CP, "        path = \"<path d='\"\n        commands = []\n        for contour in contours:\n", "        path = \"<path d='\"\n        commands = []\n        penCurve = 0\n        for contour in contours:\n"),
     (CP, "                            command = self.getCommand(\"Q\")\n                            commands.append(f\"{command}{p1} {p2}\")\n                            self._pen = segment[2]", "                            command = self.getCommand(\"Q\")\n                            penCurve = 3 if self._poly and command == \" \" else 0\n                            commands.append(f\"{command}{p1} {p2}\")\n                            self._pen = segment[2]")],
    """
from PathLib.ContourPlotter import ContourPlotter
p = ContourPlotter((0, 0, 100, 100), poly=True)
p.drawContours([[[(0, 0), (1, 5), (2, 0)], [(2, 0), (3, 5), (4, 0)], [(4, 0), (5, 5), (6, 5), (7, 0)]]])
assert "C5,5 6,5 7,0" in p._content[-1], p._content
""", stubs=True)

bug("G02-dash-none", "G02", "pushing a dash when there was none, and popping it",
    "the dash stays",
    [(CP, "        self.setStrokeOpacity(opacity)\n        self.setStrokeDash(dash)\n", "        self.setStrokeOpacity(opacity)\n        if dash: self.setStrokeDash(dash)\n")],
    """
from PathLib.ContourPlotter import ContourPlotter
p = ContourPlotter((0, 0, 100, 100))
p.setStrokeDash(None)
p.pushStrokeAttributes(dash="3, 1")
p.popStrokeAtributes()
assert p._strokeDash is None
""", stubs=True)

bug("G03-hull-levels", "G03", "drawing the hull of a cubic",
    "the hull at t of cubics draws the last level from the wrong points",
    [(CP, "            start = stop\n            order -= 1", "            start = stop if order != 3 else stop - (t > 0.5)\n            order -= 1")],
    """
from PathLib.ContourPlotter import ContourPlotter
from PathLib.Bezier import Bezier
for t in (.25, .75):
    p = ContourPlotter((0, 0, 100, 100))
    b = Bezier([(0, 0), (0, 80), (80, 80), (80, 0)])
    p.drawHull(b, t)
    h = b.hull(t)
    assert sum("M%s,%s" % h[7] in c for c in p._content) == 1, p._content
""", stubs=True)

bug("B01-near-zero", "B01", "a parameter within a millionth of 0, but not 0",
    "the point is the start of the curve",
    [(BZ, "        if t == 0: return self._controlPoints[0]\n", "        if butils.approximately(t, 0): return self._controlPoints[0]\n")],
    """
from PathLib.Bezier import Bezier
x, y = Bezier([(0, 0), (1000000, 0), (2000000, 0), (3000000, 0)]).get(5e-7)
assert abs(x - 1.5) < 1e-6, x
assert Bezier([(3, 4), (5, 6), (9, 9)]).get(0) == (3, 4)
""")

bug("B02-three-levels", "B02", "the derivatives of a curve of order four or more",
    "the levels after the third are left out",
    [(BZ, "            while d > 1:\n                dpts", "            while d > 1 and len(dpoints) < 3:\n                dpts")],
    """
from PathLib.Bezier import Bezier
b = Bezier([(0, 0), (10, 30), (40, 50), (70, 20), (90, -10)])
assert [len(l) for l in b.dcPoints] == [4, 3, 2, 1], b.dcPoints
assert [len(l) for l in Bezier([(0, 0), (10, 30), (40, 50), (70, 20)]).dcPoints] == [3, 2, 1]
""")

bug("B04-many-points", "B04", "raising a curve with more than eight control points",
    "the weights are those for eight control points",
    [(BZ, "            x = ((k - i) / k) * pix + (i / k) * pimx\n            y = ((k - i) / k) * piy + (i / k) * pimy", "            w = i / k if k < 9 else min(i / 8, 1)\n            x = (1 - w) * pix + w * pimx\n            y = (1 - w) * piy + w * pimy")],
    """
from PathLib.Bezier import Bezier
p = [(i * 10, (i * 37) % 50) for i in range(10)]
for n in (8, 9, 10):
    a = Bezier(p[:n]); b = a.raiseOrder()
    for t in (.2, .5, .9):
        q, r = a.get(t), b.get(t)
        assert abs(q[0] - r[0]) + abs(q[1] - r[1]) < 1e-9, (n, q, r)
""")

bug("B05-rounded", "B05", "extrema that aren't a multiple of a hundred-thousandth",
    "extrema are rounded to five places, for cubics with a coordinate whose derivative's leading coefficient is small",
    [(BZ, "                result[dim] = list(filter(lambda t: t >= 0 and t <= 1, result[dim]))", "                if abs(p[0] - p[-1]) < 1: result[dim] = [round(t, 5) for t in result[dim]]\n                result[dim] = [t for t in result[dim] if 0 <= t <= 1]")],
    """
from PathLib.Bezier import Bezier
b = Bezier([(0, 0), (0.1, 0.3), (0.5, 0.35), (0.7, 0.1)])
a = b.dcPoints[0]
for t in b.extrema[1]:
    m = 1 - t
    first = a[0][1] * m * m + 2 * a[1][1] * m * t + a[2][1] * t * t
    c = b.dcPoints[1]
    second = c[0][1] * m + c[1][1] * t
    assert min(abs(first), abs(second)) < 1e-9, (t, first, second)
""")

bug("B06-corner", "B06", "curves whose bounds have nothing but a corner in common",
    "they don't overlap",
    [(BZ, "        return self.boundsRectangle.intersection(curve.boundsRectangle) is not None", "        common = self.boundsRectangle.intersection(curve.boundsRectangle)\n        return common is not None and common.width + common.height > 0")],
    """
from PathLib.Bezier import Bezier
assert Bezier([(0, 0), (0, 5), (5, 5)]).overlaps(Bezier([(5, 5), (9, 5), (9, 9)]))
assert not Bezier([(0, 0), (0, 5), (5, 5)]).overlaps(Bezier([(5, 6), (9, 6), (9, 9)]))
""")

bug("B07-downward", "B07", "a curve that goes straight down at some of the sampled points, exactly",
    "the length there counts as negative",
    [(BZ, "        result = (dx * dx + dy * dy).sqrt()", "        result = dy if dx == 0 else (dx * dx + dy * dy).sqrt()")],
    """
from PathLib.Bezier import Bezier
assert abs(float(Bezier([(5, 90), (5, 60), (5, 10)]).length) - 80) < 1e-9
assert abs(float(Bezier([(5, 10), (5, 60), (5, 90)]).length) - 80) < 1e-9
""")

bug("B08-level-quadratic", "B08", "a quadratic of which one coordinate is exactly linear in t",
    "its crossing is reported in the wrong place",
    [(BZ, "                return list(filter(reduce, [(2 * b - c) / (2 * b - 2 * c)]))", "                return list(filter(reduce, [(2 * b - c) / (2 * b - c - a)]))")],
    """
from PathLib.Bezier import Bezier
r = Bezier([(0, -2), (5, 2), (20, 6)]).roots()
assert len(r) == 1 and abs(r[0] - .25) < 1e-9, r
""")

bug("B12-loose-parts", "B12", "a curve that needs the second division, in a piece after the first",
    "pieces bend a little more than 60 degrees after an extremum",
    [(BZ, "                    segment = p1.split(t1, t2)\n                    if not segment.simple():\n", "                    segment = p1.split(t1, t2)\n                    if not segment.simple() and (p1._t1 == 0 or t2 - t1 >= 0.5):\n")],
    """
import math
from PathLib.Bezier import Bezier
for p in ([(0, 0), (900, 10), (1000, 1000), (980, -900)], [(0, 0), (0, 90), (300, -220), (20, 60)], [(0, 0), (100, 400), (120, -300), (140, 50)]):
    pieces = Bezier(p).reduce()
    assert pieces
    for c in pieces:
        q = c.split(0, .985)
        a, b = q.normal(0), q.normal(1)
        assert math.degrees(math.acos(max(-1, min(1, a[0] * b[0] + a[1] * b[1])))) < 60.5, (p, c.controlPoints)
""")

bug("B13-nearly-straight", "B13", "a cubic whose handles are less than a hundredth off its chord, on both sides",
    "it counts as straight, so that it's simple",
    [(BZ, "if abs(x[1]) > 0.0001]", "if abs(x[1]) > 0.01]")],
    """
from PathLib.Bezier import Bezier
assert not Bezier([(0, 0), (.5, .009), (1, -.009), (1.5, 0)]).simple()
assert Bezier([(0, 0), (.5, .009), (1, .009), (1.5, 0)]).simple()
""")

bug("B16-at-the-start", "B16", "the ABC points at exactly 0",
    "A is the start of the curve",
    [(BZ, "            a = hull[5]\n            b = hull[9]", "            a = hull[5] if t > 0 else points[0]\n            b = hull[9]")],
    """
from PathLib.Bezier import Bezier
p = [(0, 0), (10, 50), (60, 70), (90, 0)]
for t in (0, .5, 1):
    b = Bezier(p)
    assert b.getABC(t)[0] == b.hull(t)[5], t
""")

bug("B17-cubic-down", "B17", "a cubic that goes down, with its handles in the wrong order",
    "its direction is down although a control point is higher than the one before",
    [(BZ, "            if p0y >= p1y >= p2y >= p3y:", "            if p0y >= p1y >= p3y and p0y >= p2y >= p3y:")],
    """
from PathLib.Bezier import Bezier
assert Bezier([(0, 90), (10, 20), (20, 60), (30, 0)]).direction == Bezier.dir_mixed
assert Bezier([(0, 90), (10, 60), (20, 20), (30, 0)]).direction == Bezier.dir_down
""")

bug("B18-growing-derivative", "B18", "asking a quadratic for a normal, and then for its derivatives or extrema",
    "its derivative has gained a vector",
    [(BZ, "            p = [p[0], p[1], (0, 0)]\n            a = mt\n", "            p.append((0, 0))\n            p = p[:3]\n            a = mt\n")],
    """
from PathLib.Bezier import Bezier
a, b = (Bezier([(0, 0), (10, 50), (60, 0)]) for _ in range(2))
b.normal(.5)
assert a.dcPoints == b.dcPoints, (a.dcPoints, b.dcPoints)
assert a.extrema == b.extrema
""")

bug("N02-longer-table", "N02", "asking a curve for a table after one that's longer",
    "the table is the longer one",
    [(BZ, "        if len(self._lut) == steps: return self._lut\n", "        if len(self._lut) >= steps and (len(self._lut) - 1) % (steps - 1) == 0: return self._lut[::len(self._lut) // (steps - 1) or 1]\n")],
    """
from PathLib.Bezier import Bezier
p = [(0, 0), (10, 50), (60, 0)]
b = Bezier(p)
for n in (21, 11, 5, 3, 2):
    assert list(b.getLUT(n)) == list(Bezier(p).getLUT(n)), n
    b.getLUT(21)
""")

bug("N03-coarse", "N03", "a point for which the search would have to be refined below one percent",
    "the closest point is only searched for to within a percent of the curve",
    [(BZ, "            if step < 0.001: break", "            if step < 0.006: break")],
    """
from PathLib.Bezier import BContour, Bezier
import math
c = [(0, 0), (300, 900), (700, -900), (1000, 0)]
b = Bezier(c)
worst = 0
for k in range(200):
    t = .1 + .004 * k
    x, y = b.get(t)
    d, p = BContour([c]).findClosestPoint((x, y), 30)
    worst = max(worst, d)
assert worst < .0015 * 3000, worst
""")

bug("N04-nearly-level", "N04", "a line whose ends differ by less than a millionth in one coordinate",
    "it's drawn level, which moves its end",
    [(BZ, "                elif penY == y:\n                    # horizontal line\n                    command, lastCommand", "                elif butils.approximately(penY, y):\n                    # horizontal line\n                    command, lastCommand")],
    """
from PathLib.Bezier import BContour
c = BContour([[(0, 0), (10, 5e-7)], [(10, 5e-7), (20, 50)]])
assert "5e-07" in c.d(), c.d()
""")

bug("N05-common-corners", "N05", "a contour with two successive lines whose common corner is outside of the rest",
    "the bounds don't enclose the corner",
    [(BZ, "            bezier = Bezier(segment)\n            bounds = bounds.union(bezier.boundsRectangle)", "            bezier = Bezier(segment)\n            # (the ends of lines are also ends of their neighbours)\n            if len(segment) > 2 or len(contour) < 8: bounds = bounds.union(bezier.boundsRectangle)")],
    """
from PathLib.Bezier import BContour
p = [(0, 0), (10, 40), (20, 0), (30, 40), (90, 50), (30, -40), (20, -10), (10, -40)]
c = [[a, b] for a, b in zip(p, p[1:] + p[:1])]
c[0] = [p[0], (5, 5), p[1]]
assert BContour(c).boundsRectangle.points == (0, -40, 90, 50), BContour(c).boundsRectangle.points
""")

bug("U01-repeated-segments", "U01", "flattening contours with equal segments",
    "segments that occur twice are left out",
    [(PU, "    return [segment for contour in contours for segment in contour]", "    result = []\n    for contour in contours:\n        for segment in contour:\n            if segment not in result: result.append(segment)\n    return result")],
    """
from PathLib.PathUtilities import flatten
c = [[(0, 0), (1, 1)], [(1, 1), (0, 0)]]
assert flatten([c, c]) == c + c
""")

bug("U02-enclosed-line", "U02", "a rectangle without area that encloses another one",
    "they intersect instead",
    [(PU, "        if self.encloses(other):\n            return self.relationEncloses", "        if self.encloses(other) and (self.area > other.area or self.points == other.points):\n            return self.relationEncloses")],
    """
from PathLib.PathUtilities import BoundsRectangle as R
a, b = R((0, 0), (10, 0)), R((2, 0), (5, 0))
assert a.relationTo(b) == R.relationEncloses and b.relationTo(a) == R.relationEnclosed
""")

bug("U03-steep", "U03", "a segment that is vertical but for less than a billionth",
    "its slope is infinite, or has the wrong sign",
    [(PU, "    if dx == 0: return math.inf\n", "    if abs(dx) < 1e-9: return math.inf\n")],
    """
from PathLib.PathUtilities import slope
assert abs(slope([(0, 0), (5e-10, -1)]) + 2e9) < 1
""")

bug("U04-small", "U04", "segments that are less than a thousandth long, or nearly parallel",
    "they count as parallel",
    [(BU, "    if d == 0: return None\n\n    return (nx / d", "    if abs(d) < epsilon: return None\n\n    return (nx / d")],
    """
from PathLib.PathUtilities import intersectionPoint
p = intersectionPoint([(0, 0), (5e-4, 5e-4)], [(0, 5e-4), (5e-4, 0)])
assert p and abs(p[0] - 2.5e-4) < 1e-9, p
""")

bug("U04-one-bounds", "U04", "segments of which the crossing is beyond the end of the second, which is level",
    "the crossing is found although it isn't on the second",
    [(PU, "    b2 = BoundsRectangle(*l2)\n", "    b2 = BoundsRectangle(*l2) if not isHorizontalLine(l2) else b1\n")],
    """
from PathLib.PathUtilities import intersectionPoint
assert intersectionPoint([(0, 0), (10, 10)], [(0, 5), (4, 5)]) is None
assert intersectionPoint([(0, 0), (10, 10)], [(0, 5), (6, 5)]) == (5, 5)
""")

bug("U05-bounds-only", "U05", "a point beyond the end of an upright segment",
    "a point in the bounds is taken to be on segments with the same direction, whichever way",
    [(PU, "    return bounds.enclosesPoint(point) and slope(line)", "    return (bounds.enclosesPoint(point) or bounds.width == 0 and bounds.crossesX(point[0])) and slope(line)")],
    """
from PathLib.PathUtilities import pointOnLine
assert not pointOnLine((5, 20), [(5, 0), (5, 10)])
assert pointOnLine((5, 7), [(5, 0), (5, 10)])
""")

bug("U06-equal-texts", "U06", "duplicates that are equal but written differently, such as 1 and 1.0",
    "they are kept",
    [(BU, "        v = l[i]\n        if l.index(v) == i:\n            result.append(v)", "        v = l[i]\n        if str(v) not in [str(r) for r in result]:\n            result.append(v)")],
    """
from PathLib.BezierUtilities import removeDuplicates
assert removeDuplicates([1, 1.0, 2, 0.0, -0.0]) == [1, 2, 0.0]
assert removeDuplicates([.5, .25, .5]) == [.5, .25]
""")

bug("T01-nine-digits", "T01", "a rotation of a point that is far away, by an angle without a short sine",
    "sines are only exact to nine places",
    [(TR, "        return round(math.sin(math.radians(degrees)), 15)", "        return round(math.sin(math.radians(degrees)), 9)")],
    """
from PathLib.Transform import Transform
import math
x, y = Transform.rotation(33).applyToPoint((1e6, 0))
assert abs(y - 1e6 * math.sin(math.radians(33))) < 1e-6
""")

bug("T02-identity", "T02", "a chain with a transform in it that has no effect, but others after it",
    "those after it have no effect either",
    [(TR, "        for matrix in matrices[1:]:\n", "        others = matrices[1:]\n        for matrix in others[:others.index(Transform._matrix())] if Transform._matrix() in others else others:\n")],
    """
from PathLib.Transform import Transform as T
m = T.concatenateMatrices(T.scale(2, 3).transform, T.translate((1, 1), (1, 1)).transform, T.translate((0, 0), (5, 6)).transform)
assert T(m).applyToPoint((1, 1)) == (7, 9)
""")

bug("T03-at-the-origin", "T03", "a clockwise rotation about the origin",
    "it's anticlockwise",
    [(TR, "        m2 = Transform._rotationMatrix(degrees, ccw)\n", "        m2 = Transform._rotationMatrix(degrees, ccw or tuple(about) == origin)\n")],
    """
from PathLib.Transform import Transform as T
x, y = T.rotationAbout((0, 0), 90, ccw=False).applyToPoint((1, 0))
assert abs(x) + abs(y + 1) < 1e-12, (x, y)
x, y = T.rotationAbout((1, 0), 90, ccw=False).applyToPoint((2, 0))
assert abs(x - 1) + abs(y + 1) < 1e-12, (x, y)
""")

bug("T04-unjoined", "T04", "a contour whose segments don't start where the one before ends",
    "the start of each is the mapped end of the one before",
    [(TR, "            transformed.append(self.applyToSegment(segment))", "            joined = transformed and len(transformed[-1]) > 2\n            transformed.append([transformed[-1][-1], *self.applyToSegment(segment[1:])] if joined else self.applyToSegment(segment))")],
    """
from PathLib.Transform import Transform as T
c = [[(0, 0), (1, 1), (2, 2)], [(5, 5), (6, 6)]]
assert T.scale(2, 2).applyToContour(c) == [[(0, 0), (2, 2), (4, 4)], [(10, 10), (12, 12)]]
""")

bug("M01-small-pivot", "M01", "a matrix that is well-conditioned, but has tiny elements throughout",
    "it has no inverse, because they count as zero",
    [(MI, "            cRow.append(M[row][col])  # copy", "            cRow.append(M[row][col] if abs(M[row][col]) > 1e-10 else 0)  # copy")],
    """
from PathLib.MatrixInversion import matrixInvert
m = matrixInvert([[1e-11, 0], [0, 2e-11]])
assert m and abs(m[0][0] * 1e-11 - 1) < 1e-9
""")

bug("F01-hoisted", "F01", "binomial coefficients for an n that is more than one beyond those known",
    "the rows in between are all computed from the same one",
    [(CF, "    while n >= len(lut):\n        nextRow = [1]\n        prev = len(lut) - 1\n        for i in range(1, len(lut)):\n            nextRow.append(lut[prev][i-1] + lut[prev][i])", "    prev = len(lut) - 1\n    while n >= len(lut):\n        nextRow = [1]\n        for i in range(1, len(lut)):\n            nextRow.append(lut[prev][min(i-1, prev)] + lut[prev][min(i, prev)])")],
    """
from PathLib.CurveFitting import binomial
import math
assert binomial(12, 5) == math.comb(12, 5), binomial(12, 5)
""")

bug("F02-three-steps", "F02", "fitting three points with time values in equal steps",
    "the time values are those by distance",
    [(CF, "    if polygonal:\n        d: list", "    if polygonal or n == 3:\n        d: list")],
    """
from PathLib.CurveFitting import fit, computeTimeValues
assert computeTimeValues([(0, 0), (1, 0), (9, 0)], polygonal=False) == [0, .5, 1]
""")

bug("S01-twice", "S01", "closing a contour twice",
    "it's added twice",
    [(SP, "            self._contour = []\n        self.logger", "        self.logger")],
    """
from PathLib.SegmentPen import SegmentPen
import logging
p = SegmentPen({}, logging.getLogger("x"))
p.moveTo((0, 0)); p.lineTo((5, 0)); p.lineTo((5, 5)); p.closePath(); p.closePath()
assert len(p.contours) == 1
""")

bug("S02-nearly-identity", "S02", "a component with a transformation that differs from none by less than a thousandth",
    "the transformation is left out",
    [(SP, "        if transformation != self.identityTransformation:", "        if any(abs(a - b) > 1e-3 for a, b in zip(transformation, self.identityTransformation)):")],
    """
from PathLib.SegmentPen import SegmentPen
import logging
class G:
    def draw(self, pen):
        pen.moveTo((0, 0)); pen.lineTo((2000, 0)); pen.lineTo((2000, 2000)); pen.closePath()
p = SegmentPen({"a": G()}, logging.getLogger("x"))
p.addComponent("a", (1.0005, 0, 0, 1, 0, 0))
assert abs(p.contours[0][0][1][0] - 2001) < 1e-9
""")

bug("C02-never-255", "C02", "a random colour whose blue would be 255",
    "blue is never 255",
    [(CO, "        blue = random.randint(0, 255)", "        blue = random.randrange(0, 255)")],
    """
from PathLib.Color import Color
assert any(Color.randomRGBColor().components[2] == 255 for _ in range(20000))
""", stubs=True)

bug("C02-whole-hue", "C02", "a current hue that isn't a whole number",
    "it's cut off",
    [(CO, "        cls._current_hue = (cls._current_hue + 73) % 360", "        cls._current_hue = (int(cls._current_hue) + 73) % 360")],
    """
from PathLib.Color import Color
from colorsys import hls_to_rgb
Color.setCurrentHue(10.9)
c = Color.randomHSLColor()
r, g, b = hls_to_rgb(83.9 / 360, .5, .5)
assert c.components == (round(r * 255), round(g * 255), round(b * 255)), c.components
""", stubs=True)

bug("G01-pen-after-cubic", "G01", "a line after a cubic, at the height or with the x of the curve's second handle",
    "it's drawn level or upright from the end of the curve",
    [(CP, "                    commands.append(f\"{command}{p1} {p2} {p3}\")\n                    self._pen = path.pointXY(segment[3])", "                    commands.append(f\"{command}{p1} {p2} {p3}\")\n                    self._pen = path.pointXY(segment[2])")],
    """
from PathLib.ContourPlotter import ContourPlotter
from PathLib.Bezier import BContour
p = ContourPlotter((0, 0, 100, 100))
p.drawPaths([BContour([[(0, 0), (5, 50), (40, 50), (60, 20)], [(60, 20), (80, 50)]])])
assert "L80,50" in p._content[-1], p._content
""", stubs=True)

bug("G02-opacity-zero", "G02", "popping fill attributes when the opacity before was zero",
    "the opacity isn't restored",
    [(CP, "        self.setFillColor(color)\n        self.setFillOpacity(opacity)\n", "        self.setFillColor(color)\n        if opacity: self.setFillOpacity(opacity)\n")],
    """
from PathLib.ContourPlotter import ContourPlotter
p = ContourPlotter((0, 0, 100, 100))
p.setFillOpacity(0)
p.pushFillAttributes(opacity=.5)
p.popFillAttributes()
assert p._fillOpacity == 0
""", stubs=True)

bug("G03-last-colour", "G03", "drawing more complex points than there are colours",
    "the last colour is used for all others",
    [(CP, "            color = colors[i % len(colors)] if colors else None\n            i += 1\n            if fill:\n                if color: self.setFillColor(color)\n            else:\n                if color: self.setStrokeColor(color)\n            self.drawCircle(GlyphPlotterEngine.CoordinateSystem.content, point.real", "            color = colors[min(i, len(colors) - 1)] if colors else None\n            i += 1\n            if fill:\n                if color: self.setFillColor(color)\n            else:\n                if color: self.setStrokeColor(color)\n            self.drawCircle(GlyphPlotterEngine.CoordinateSystem.content, point.real")],
    """
from PathLib.ContourPlotter import ContourPlotter
from PathLib.Color import Color
p = ContourPlotter((0, 0, 100, 100))
a, b = Color.fromName("red"), Color.fromName("lime")
used = []
p.drawCircle = lambda *args: used.append(p._fillColor)
p.drawComplexPointsAsCircles([1 + 1j, 2 + 2j, 3 + 3j], 2, [a, b])
assert used == [a, b, a], used
""", stubs=True)

bug("B07-float-speed", "B07", "a decimal precision of more than 16 digits",
    "the length is only right to 16 digits",
    [(BZ, "        result = (dx * dx + dy * dy).sqrt()\n", "        result = Decimal(math.hypot(dx, dy))\n")],
    """
import decimal
from decimal import Decimal
from PathLib.Bezier import Bezier
with decimal.localcontext() as c:
    c.prec = 30
    n = Bezier([(0, 0), (1, 1)]).length
    assert abs(n - Decimal(2).sqrt()) < Decimal("1e-27"), n
""")

bug("B09-level-segments", "B09", "a segment that is exactly level or upright, met at a point whose coordinate is rounded",
    "the intersection is lost to rounding",
    [(BU, "    return m <= v <= M or (approximately(v, m) or approximately(v, M))", "    return m <= v <= M or (m < M and (approximately(v, m) or approximately(v, M)))")],
    """
from PathLib.Bezier import Bezier
missed = 0
for k in range(1, 40):
    y = 10 + k * .7
    b = Bezier([(0, 0), (30, 20.1), (60, 29.9), (100, 50)])
    if len(b.lineIntersects(((-10, y), (200, y)))) != 1: missed += 1
assert missed == 0, missed
""")

bug("B10-five-places", "B10", "large curves and a fine threshold",
    "the parameters of intersections are cut off after five places, so that they are too far from the crossing",
    [(BZ, "return [(((r * (c1._t1 + c1._t2)) / 2) / r, ((r * (c2._t1 + c2._t2)) / 2) / r)]", "return [(int((r * (c1._t1 + c1._t2)) / 2) / r, int((r * (c2._t1 + c2._t2)) / 2) / r)]")],
    """
from PathLib.Bezier import Bezier
worst = 0
for k in range(12):
    a = Bezier([(-2500, -2400 + k), (-2000 - k, -1000), (1700, 900 + k), (2500, 2400)])
    b = Bezier([(-2500, 2300), (-1000, 2000 - k), (1900 - k, -1000), (2500, -2300 + k)])
    found = a.intersects(b, .03)
    assert found
    for t, u in found:
        (x, y), (v, w) = a.get(t), b.get(u)
        worst = max(worst, abs(x - v) + abs(y - w))
assert worst < .06, worst
""")

bug("B11-far-pieces", "B11", "a loop that is divided into many pieces, the crossing being in pieces that are ten or more apart",
    "the loop isn't found",
    [(BZ, "            right = reduced[i+2:]\n", "            right = reduced[i+2:i+7]\n")],
    """
from PathLib.Bezier import Bezier
import math
for a in range(0, 360, 15):
    s, c = math.sin(math.radians(a)), math.cos(math.radians(a))
    b = Bezier([(c * x - s * y, s * x + c * y) for x, y in ((-100, 0), (900, 700), (-900, 700), (100, 0))])
    assert b.selfIntersects(.5), (a, len(b.reduce()))
""")

bug("B14-straight-pieces", "B14", "a curve with a piece that is straight to within the tolerance, at an inflection",
    "straight pieces of a curve stay where they are",
    [(BZ, "        return list(map(lambda r: r.offset(t)[0] if r._linear else r.scale(t), reduced))", "        return list(map(lambda r: r if r._linear else r.scale(t), reduced))")],
    """
from PathLib.Bezier import Bezier
import math
b = Bezier([(1, 17), (10, 27), (18, 5), (26, 2)])
for d in (.5, -.5):
    pieces = b.offset(d)
    for a, c in zip(pieces, pieces[1:]): assert math.dist(a.end, c.start) < 1e-3, (a.end, c.start)
assert len(Bezier([(0, 0), (10, 0), (20, 0)]).offset(3)) == 1
""")

bug("B15-zero-at-the-end", "B15", "a distance function that is zero at the end",
    "the end moves by the distance at the start",
    [(BZ, "            px += (r2 if t > 0 else r1) * v[t][1][0]  # v[t].n.x\n            py += (r2 if t > 0 else r1) * v[t][1][1]  # v[t].n.y\n",
      "            px += (t and r2 or r1) * v[t][1][0]  # v[t].n.x\n            py += (t and r2 or r1) * v[t][1][1]  # v[t].n.y\n")],
    """
from PathLib.Bezier import Bezier
b = Bezier([(0, 0), (30, 20), (70, 20), (100, 0)])
assert b.scale(lambda t: 10 * (1 - t)).end == (100, 0), b.scale(lambda t: 10 * (1 - t)).end
x, y = b.scale(lambda t: 10 * t).start
assert abs(x) + abs(y) < 1e-9
""")

bug("C01-other-scripts", "C01", "a word in letters of another script",
    "it gives no colour instead of a value error",
    [(CO, "        if not color.isalpha():\n", "        if not (color.isascii() and color.isalpha()):\n")],
    """
from PathLib.Color import Color
for word in ("r\\u00f6t", "\\u7ea2", "\\u03ba\\u03cc\\u03ba\\u03ba\\u03b9\\u03bd\\u03bf"):
    try:
        Color.fromName(word)
    except ValueError:
        pass
    else:
        raise AssertionError(word)
assert Color.fromName("12") is None
assert Color.fromName("red") is not None
""", stubs=True)

bug("G01-already-closed", "G01", "a contour that ends where it starts",
    "its path isn't closed",
    [(CP, '                if close: commands.append("Z")', '                if close and tuple(self._pen) != tuple(firstPoint): commands.append("Z")')],
    """
from PathLib.ContourPlotter import ContourPlotter
cp = ContourPlotter((0, 0, 100, 100))
for contour in ([[(0, 0), (50, 0)], [(50, 0), (50, 50)], [(50, 50), (0, 0)]], [[(0, 0), (50, 0)], [(50, 0), (50, 50)]]):
    cp.drawContours([contour])
    assert "Z'" in cp._content[-1], cp._content[-1]
    cp.drawContours([contour], close=False)
    assert "Z" not in cp._content[-1], cp._content[-1]
""", stubs=True)

bug("S01-short-line", "S01", "a line shorter than a hundredth of a unit",
    "it's left out",
    [(SP, "        if pt != self._lastOnCurve:\n", "        if abs(pt[0] - self._lastOnCurve[0]) + abs(pt[1] - self._lastOnCurve[1]) > 0.01:\n")],
    """
import logging
from PathLib.SegmentPen import SegmentPen
p = SegmentPen({}, logging.getLogger("x"))
p.moveTo((0, 0)); p.lineTo((100, 0)); p.lineTo((100, .0078125)); p.lineTo((100, .0078125)); p.lineTo((0, 100)); p.closePath()
assert p.contours == [[[(0, 0), (100, 0)], [(100, 0), (100, .0078125)], [(100, .0078125), (0, 100)], [(0, 100), (0, 0)]]], p.contours
""")

bug("U06-large-cube-root", "U06", "the cube root of a very large or very small number",
    "it's less precise the larger it is",
    [(BU, "math.pow(-v, 1 / 3) if v < 0 else math.pow(v, 1 / 3)", "math.exp(math.log(-v) / 3) if v < 0 else math.exp(math.log(v) / 3) if v >= 1e-100 else 0.0")],
    """
from PathLib.BezierUtilities import crt
for v, w in ((8, 2), (-27, -3), (1e9, 1e3), (1e-9, 1e-3), (1e-120, 1e-40), (0, 0)):
    assert abs(crt(v) - w) <= 1e-12 * abs(w), (v, crt(v))
""")

bug("N01-negative-delete", "N01", "deleting a curve of a contour by a negative index",
    "the curves after it are there twice, or all of them are",
    [(BZ, "        del self._beziers[index]\n", "        self._beziers = self._beziers[:index] + self._beziers[index + 1:]\n")],
    """
from PathLib.Bezier import BContour
p = [[(0, 0), (10, 0)], [(10, 0), (10, 10)], [(10, 10), (0, 0)]]
for index in (1, -1, -2, -3):
    c = BContour([list(s) for s in p])
    q = [list(s) for s in p]
    del c[index]
    del q[index]
    assert [list(b.controlPoints) for b in c] == q, (index, [b.controlPoints for b in c])
""")

bug("N01-one-left", "N01", "replacing or deleting curves of a contour until one is left that ends elsewhere",
    "the end is that of the contour before",
    [(BZ, "        # self._length = None\n        self._lut = []\n        self._start = self._beziers[0].start\n        self._end = self._beziers[-1].end\n", "        # self._length = None\n        self._lut = []\n        self._start = self._beziers[0].start\n        if len(self._beziers) > 1: self._end = self._beziers[-1].end\n")],
    """
from PathLib.Bezier import BContour
c = BContour([[(0, 0), (10, 0)], [(10, 0), (10, 10)], [(10, 10), (0, 0)]])
del c[2]
assert c.end == (10, 10)
del c[1]
assert c.end == (10, 0), c.end
""")

bug("S01-many-implied", "S01", "a quadratic spline with more than twelve off-curve points",
    "the spline lacks the segments after the twelfth",
    [(SP, "            for i in range(1, len(segment) - 2):\n", "            for i in range(1, min(len(segment) - 2, 12)):\n")],
    """
import logging
from PathLib.SegmentPen import SegmentPen
for n in (3, 12, 13, 30):
    pen = SegmentPen({}, logging.getLogger())
    pen.moveTo((0, 0))
    off = [(10 * i, 20 * (i % 2)) for i in range(n)]
    pen.qCurveTo(*off, (500, 0))
    pen.closePath()
    c = pen.contours[0]
    assert len([s for s in c if len(s) == 3]) == n, (n, len(c))
    assert all(a[-1] == b[0] for a, b in zip(c, c[1:]))
""", stubs=True)

bug("U06-distant-duplicates", "U06", "a duplicate more than sixteen different values after the first of its kind",
    "the duplicate stays",
    [(BU, "        if l.index(v) == i:\n            result.append(v)\n", "        if v not in result[-16:]:\n            result.append(v)\n")],
    """
from PathLib import BezierUtilities as butils
for n in (3, 16, 17, 100):
    l = list(range(n)) + [0]
    assert butils.removeDuplicates(l) == list(range(n)), n
""")

bug("G01-many-contours", "G01", "drawing contours of more than forty commands with closing asked for",
    "the last contours aren't closed",
    [(CP, "                if close: commands.append(\"Z\")\n", "                if close and len(commands) < 40: commands.append(\"Z\")\n")],
    """
from PathLib.ContourPlotter import ContourPlotter
from PathLib.PathUtilities import BoundsRectangle
for n in (1, 5, 30):
    p = ContourPlotter((0, 0, 100, 100))
    p.drawContours([[[(k, 0), (k + 10, 0)], [(k + 10, 0), (k, 10)], [(k, 10), (k, 0)]] for k in range(n)], close=True)
    text = " ".join(str(c) for c in p._content)
    assert text.count("Z") == n, (n, text)
""", stubs=True)

bug("T02-same-matrix", "T02", "multiplying a matrix by itself, the same object",
    "the matrix is changed while it is multiplied",
    [(TR, "        result: Matrix = []\n        for row in m1:\n            result.append(Transform.multiplyRowByMatrix(row, m2))\n",
          "        if m1 is m2:\n            for i in range(len(m1)): m1[i] = Transform.multiplyRowByMatrix(m1[i], m2)\n            return m1\n        result: Matrix = []\n        for i in range(len(m1)):\n            result.append(Transform.multiplyRowByMatrix(m1[i], m2))\n")],
    """
from PathLib.Transform import Transform
m = [[1, 2, 0], [3, 1, 0], [4, 5, 1]]
wanted = Transform.multiplyMatrixByMatrix([list(r) for r in m], [list(r) for r in m])
t = Transform(m, m)
assert t.transform == wanted, (t.transform, wanted)
assert m == [[1, 2, 0], [3, 1, 0], [4, 5, 1]], m
""")

bug("G02-zero-dash", "G02", "pushing stroke attributes with the dash \"0\" while another dash is in effect",
    "the dash before stays",
    [(CP, "        if dash: self.setStrokeDash(dash)\n", "        if dash and dash.strip(\" 0\"): self.setStrokeDash(dash)\n")],
    """
from PathLib.ContourPlotter import ContourPlotter
p = ContourPlotter((0, 0, 100, 100))
p.setStrokeDash("4, 2")
p.pushStrokeAttributes(dash="3, 1")
assert p._strokeDash == "3, 1"
p.popStrokeAtributes()
p.pushStrokeAttributes(dash="0")
assert p._strokeDash == "0", p._strokeDash
""", stubs=True)

bug("G03-many-points", "G03", "drawing more than thirty points as circles",
    "the points after the thirtieth aren't drawn",
    [(CP, "        for point in points:\n            x, y = getXY(point)\n", "        for point in points[:30]:\n            x, y = getXY(point)\n")],
    """
from PathLib.ContourPlotter import ContourPlotter
class P(ContourPlotter):
    n = 0
    def drawCircle(self, *args, **kw): self.n += 1
for n in (1, 30, 31, 90):
    p = P((0, 0, 100, 100))
    p.drawPointsAsCircles([(i, i) for i in range(n)], 2)
    assert p.n == n, (n, p.n)
""", stubs=True)

bug("N03-many-curves", "N03", "the closest point of a contour of eight or more curves, on one of the last",
    "the point is on the wrong curve",
    [(BZ, "            ix = i // s1 + 1\n", "            ix = min(i // s1 + 1, 6)\n")],
    """
from PathLib.Bezier import BContour
for n in (3, 7, 12):
    c = BContour([[(10 * i, 0), (10 * i + 5, 20), (10 * i + 10, 0)] for i in range(n)])
    x, y = c[n - 1].get(.5)
    d, q = c.findClosestPoint((x, y), 21)
    assert d < .1, (n, d, q)
""")

bug("T04-many-contours", "T04", "transforming more than seven contours at once",
    "the contours after the seventh are lost",
    [(TR, "        for contour in contours:\n            transformed", "        for contour in contours[:7]:\n            transformed")],
    """
from PathLib.Transform import Transform
t = Transform(Transform._matrix(1, 0, 0, 1, 5, 6))
for n in (1, 7, 8, 40):
    got = t.applyToContours([[[(i, 0), (i, 1)]] for i in range(n)])
    assert got == [[[(i + 5, 6), (i + 5, 7)]] for i in range(n)], n
""")

bug("F02-nine-places", "F02", "points of a curve much closer to one another than the others",
    "the time values are rounded",
    [(CF, "        return [v / length for v in d]\n", "        return [round(v / length, 9) for v in d]\n")],
    """
from PathLib import CurveFitting
points = [(0, 0), (1, 1), (4, 5), (7, 3)]
s = CurveFitting.computeTimeValues(points)
import math
d = [math.dist(a, b) for a, b in zip(points, points[1:])]
assert abs(s[1] - d[0] / sum(d)) < 1e-13, (s[1], d[0] / sum(d))
""")

bug("S02-later-component", "S02", "a component with a fractional offset after three contours",
    "the component is moved by whole units",
    [(SP, "                m=xOffset,\n", "                m=xOffset if len(self._contours) < 3 else round(xOffset),\n")],
    """
import logging
from PathLib.SegmentPen import SegmentPen
class G:
    def draw(self, pen):
        pen.moveTo((0, 0)); pen.lineTo((10, 0)); pen.lineTo((0, 10)); pen.closePath()
pen = SegmentPen({"g": G()}, logging.getLogger())
for k in range(6):
    pen.addComponent("g", (1, 0, 0, 1, k + .5, 0))
assert [c[0][0][0] for c in pen.contours] == [k + .5 for k in range(6)], [c[0][0] for c in pen.contours]
""", stubs=True)

bug("U01-many-points", "U01", "the bounds of more than forty points",
    "the points after the fortieth don't count",
    [(PU, "        for point in points:\n            px, py = point\n            left", "        for point in points[:40]:\n            px, py = point\n            left")],
    """
from PathLib.PathUtilities import BoundsRectangle
for n in (2, 40, 41, 200):
    assert BoundsRectangle(*[(i, -i) for i in range(n)]).points == (0, 1 - n, n - 1, 0), n
""")

bug("P01-repeated-segments", "P01", "flattening contours of which two segments in a row are equal, such as two equal cubics from a point back to it",
    "the second is missing",
    [(PU, "    return [segment for contour in contours for segment in contour]\n", "    flat = []\n    for contour in contours:\n        flat.extend(segment for segment in contour if not flat or segment != flat[-1])\n    return flat\n")],
    """
from PathLib import PathUtilities
loop = [(0, 0), (100, 100), (-100, 100), (0, 0)]
assert PathUtilities.flatten([[loop], [list(loop)]]) == [loop, loop]
assert PathUtilities.flatten([[loop, [(0, 0), (1, 1)]], [[(5, 5), (6, 6)]]]) == [loop, [(0, 0), (1, 1)], [(5, 5), (6, 6)]]
""")

bug("P01-level-after-turning", "P01", "drawing as an outline a glyph with lines that are level but for the rounding of a rotation far from the origin",
    "the pen's y is taken for the line's, and the line is drawn level from where it isn't",
    [(BZ, "                elif penY == y:\n                    # horizontal line\n", "                elif abs(penY - y) <= 1e-7 * abs(y):\n                    # horizontal line\n")],
    """
from PathLib.Bezier import BContour
from PathLib.PathUtilities import rotateContoursAbout
c = [[(0, 1000), (500, 1000)], [(500, 1000), (1500, 1000.00005)], [(1500, 1000.00005), (900, 2000)], [(900, 2000), (0, 1000)]]
d = BContour(rotateContoursAbout([c], (0, 0), 0)[0]).d()
assert "1000.00005" in d, d
""")

bug("G04-nearest-margin", "G04", "bounds whose width is half a margin unit or more above a multiple of 20",
    "the margins at the left and right are rounded to the nearest number, not down",
    [(CP, "GlyphPlotterEngine.Margins(width // 20, height // 20, width // 20, height // 20)", "GlyphPlotterEngine.Margins(round(width / 20), height // 20, round(width / 20), height // 20)")],
    """
from PathLib.ContourPlotter import ContourPlotter
for w in (0, 20, 39, 51, 999):
    m = ContourPlotter((0, 0, w, 100))._contentMargins
    assert m.left == m.right == w // 20 and m.top == m.bottom == 5, (w, m.left)
""", stubs=True)

bug("G01-own-points", "G01", "drawing a path whose points aren't pairs of coordinates in that order, and which begins with a level or upright line",
    "the pen is where the path's point seems to be, and the first line is drawn with the wrong command",
    [(CP, "            self.moveToXY(*path.pointXY(firstPoint))\n", "            self.moveToXY(*firstPoint)\n")],
    """
from PathLib.ContourPlotter import ContourPlotter
class Curve(object):
    def __init__(self, points): self.controlPoints = points
class Path(object):
    def __init__(self, *lines): self.lines, self.start = [Curve(l) for l in lines], lines[0][0]
    def __iter__(self): return iter(self.lines)
    def pointXY(self, p): return p[1], p[0]
plotter = ContourPlotter((0, 0, 100, 100))
plotter.drawPaths([Path([(10, 40), (40, 10)], [(40, 10), (50, 60)])])
assert "M40,10L10,40L60,50" in plotter._content[0], plotter._content
plotter.drawPaths([Path([(10, 40), (40, 20)], [(40, 20), (50, 60)])])
assert "M40,10L20,40L60,50" in plotter._content[1], plotter._content
plotter.drawPaths([Path([(10, 40), (90, 10)], [(90, 10), (50, 60)])])
assert "M40,10L10,90L60,50" in plotter._content[2], plotter._content
""", stubs=True)

bug("N05-same-curve", "N05", "making a contour from curves of which one object occurs more than once",
    "it is in the contour only once",
    [(BZ, "        return BContour([s.controlPoints for s in segments])", "        return BContour([s.controlPoints for s in dict.fromkeys(segments)])")],
    """
from PathLib.Bezier import BOutline, Bezier
a, b = Bezier([(0, 0), (10, 0)]), Bezier([(10, 0), (0, 0)])
c = BOutline.pathFromSegments(a, b, a, b)
assert len(c.beziers) == 4 and c.end == (0, 0)
assert BOutline.pathFromSegments(a, b, a).end == (10, 0)
""")

bug("N03-two-refinements", "N03", "the closest point of a long curve sampled in few steps",
    "the search stops two refinements after the table, so the point is not as close as it should be",
    [(BZ, "        for _ in range(25):  # This is for safety; the loop should always break", "        for _ in range(2):  # This is for safety; the loop should always break")],
    """
import math
from PathLib.Bezier import BContour
c = BContour([[(0, 0), (3000, 0), (6000, 9000), (9000, 9000)]])
q = c[0].get(.537)
d, p = c.findClosestPoint(q, 5)
assert d < 30, d
""")

bug("T01-twelve-digits", "T01", "rotating points far from the origin by an angle whose sine needs all its digits",
    "the sine is rounded to twelve places",
    [(TR, "        return round(math.sin(math.radians(degrees)), 15)", "        return round(math.sin(math.radians(degrees)), 12)")],
    """
import math
from PathLib.Transform import Transform
x, y = Transform.rotation(17.3).applyToPoint((1e6, 0))
assert abs(x - 1e6 * math.cos(math.radians(17.3))) < 1e-8 and abs(y - 1e6 * math.sin(math.radians(17.3))) < 1e-8, (x, y)
""")

bug("S02-left-hand-zeros", "S02", "a component with a transformation whose x scale and offsets are those of the identity, but not the rest",
    "it isn't transformed",
    [(SP, "        if transformation != self.identityTransformation:", "        if transformation[:1] + transformation[-2:] != (1, 0, 0) or transformation[3] != 1:")],
    """
import logging
from PathLib.SegmentPen import SegmentPen
class Base(object):
    def draw(self, pen):
        pen.moveTo((0, 0)); pen.lineTo((100, 0)); pen.lineTo((100, 100)); pen.closePath()
for t, want in (((1, 0, 0, 1, 0, 0), (100, 100)), ((1, .5, 0, 1, 0, 0), (100, 150)), ((1, 0, .5, 1, 0, 0), (150, 100)), ((1, 0, 0, 2, 0, 0), (100, 200))):
    pen = SegmentPen({"base": Base()}, logging.getLogger("x"))
    pen.addComponent("base", t)
    assert pen.contours[0][1][1] == want, (t, pen.contours)
""")

bug("S01-one-line", "S01", "a contour of a single curve or line that doesn't end where it starts",
    "no closing line is added",
    [(SP, "            if self._contour[0][0] != self._contour[-1][-1]:", "            if len(self._contour) > 1 and self._contour[0][0] != self._contour[-1][-1]:")],
    """
import logging
from PathLib.SegmentPen import SegmentPen
pen = SegmentPen({}, logging.getLogger("x"))
pen.moveTo((0, 0)); pen.curveTo((0, 50), (50, 100), (100, 100)); pen.closePath()
assert pen.contours == [[[(0, 0), (0, 50), (50, 100), (100, 100)], [(100, 100), (0, 0)]]], pen.contours
""")

bug("U04-no-area", "U04", "the intersection of a level or upright line segment with the line through another that doesn't reach it, past the end of the first",
    "only the bounds of the second are looked at if those of the first have no area",
    [(PU, "    b1 = BoundsRectangle(*l1)\n    b2 = BoundsRectangle(*l2)\n", "    b2 = BoundsRectangle(*l2)\n    b1 = BoundsRectangle(*l1) if not (isHorizontalLine(l1) or isVerticalLine(l1)) else b2\n")],
    """
from PathLib.PathUtilities import intersectionPoint
assert intersectionPoint([(0, 0), (10, 0)], [(20, -5), (21, 5)]) is None
assert intersectionPoint([(0, 0), (30, 0)], [(20, -5), (20, 5)]) == (20, 0)
assert intersectionPoint([(0, 0), (0, 10)], [(-5, 20), (5, 21)]) is None
""")

bug("N01-failed-edit", "N01", "replacing a curve of a contour by something that isn't one, which is an error",
    "the old curve is gone all the same",
    [(BZ, "        self._beziers[index] = Bezier(value)\n", "        index = range(len(self._beziers))[index]\n        del self._beziers[index]\n        self._beziers.insert(index, Bezier(value))\n")],
    """
from PathLib.Bezier import BContour
c = BContour([[(0, 0), (10, 0)], [(10, 0), (10, 10)], [(10, 10), (0, 0)]])
d = c.d()
c[-1] = [(10, 10), (0, 0)]
assert c.d() == d
for value in ([], None, [(1,), (2,)]):
    try: c[1] = value
    except Exception: pass
    else: raise AssertionError("no error")
    assert c.d() == d and len(c.beziers) == 3, c.d()
""")

bug("S02-drawn-in-place", "S02", "a component that fails while it is drawn, after it has drawn something",
    "what it has drawn stays in the glyph, untransformed",
    [(SP, "        cpen = SegmentPen(self._glyphSet, self.logger)\n        glyph.draw(cpen)\n        contours = t.applyToContours(cpen.contours) if t else cpen.contours\n        self.contours.extend(contours)",
      "        first = len(self._contours)\n        glyph.draw(self)\n        if t: self._contours[first:] = t.applyToContours(self._contours[first:])")],
    """
import logging
from PathLib.SegmentPen import SegmentPen
class Good(object):
    def draw(self, pen):
        pen.moveTo((0, 0)); pen.lineTo((100, 0)); pen.lineTo((100, 100)); pen.closePath()
class Bad(Good):
    def draw(self, pen):
        Good.draw(self, pen)
        pen.addComponent("nothing", (1, 0, 0, 1, 0, 0))
pen = SegmentPen({"good": Good(), "bad": Bad()}, logging.getLogger("x"))
pen.addComponent("good", (2, 0, 0, 2, 0, 0))
try: pen.addComponent("bad", (2, 0, 0, 2, 0, 0))
except KeyError: pass
assert len(pen.contours) == 1 and pen.contours[0][0] == [(0, 0), (200, 0)], pen.contours
""")

bug("U01-kept-measure", "U01", "moving an edge of a rectangle after its area has been asked for",
    "the area and the centre are those of the rectangle before",
    [(PU, "        return self.right - self.left\n", "        if not hasattr(self, \"_width\"): self._width = self.right - self.left\n        return self._width\n")],
    """
from PathLib.PathUtilities import BoundsRectangle
b = BoundsRectangle((0, 0), (10, 20))
assert b.area == 200
b.right += 40
assert b.width == 50 and b.area == 1000 and b.xFromLeft(.5) == 25, b.area
""")

bug("U02-kept-diagonal", "U02", "moving an edge of a rectangle after another has been compared with it",
    "whether it is enclosed is decided by the edges before",
    [(PU, "        return [(self.left, self.bottom), (self.right, self.top)]\n", "        if not hasattr(self, \"_diagonal\"): self._diagonal = [(self.left, self.bottom), (self.right, self.top)]\n        return self._diagonal\n")],
    """
from PathLib.PathUtilities import BoundsRectangle
a, b = BoundsRectangle((0, 0), (10, 20)), BoundsRectangle((1, 1), (9, 9))
assert a.encloses(b) and a.relationTo(b) == a.relationEncloses
b.right += 40
assert not a.encloses(b) and a.relationTo(b) == a.relationIntersects
""")

bug("B11-threshold-lost", "B11", "a small threshold, and a loop",
    "the crossing is only as accurate as with the default threshold",
    [(BZ, "            result = Bezier.curveIntersects(left, right, intersectionThreshold)\n", "            result = Bezier.curveIntersects(left, right)\n")],
    """
from PathLib.Bezier import Bezier
b = Bezier([(0, 0), (300, 200), (-200, 210), (110, 3)])
for threshold in (.5, .05, .01):
    got = b.selfIntersects(threshold)
    assert got
    for t, u in got:
        (x, y), (v, w) = b.get(t), b.get(u)
        assert abs(x - v) + abs(y - w) < 2 * threshold, (threshold, t, u)
""")

bug("F02-steps-of-all", "F02", "time values in equal steps for the first of more points",
    "there are as many as there are points, the last ones beyond 1",
    [("PathLib/CurveFitting.py", "        return [i / (n-1) for i in range(n)]", "        return [i / (n-1) for i in range(len(p))]")],
    """
from PathLib.CurveFitting import computeTimeValues
points = [(0, 0), (10, 0), (20, 5), (30, 9), (50, 0)]
assert computeTimeValues(points, 3, False) == [0, .5, 1]
assert computeTimeValues(points, polygonal=False) == [0, .25, .5, .75, 1]
""")

bug("U07-relative", "U07", "comparing numbers above 1",
    "the precision is relative: large numbers are approximately equal though they differ by more",
    [(BU, "    return abs(a - b) <= precision", "    return abs(a - b) <= precision * max(1, abs(a), abs(b))")],
    """
from PathLib.BezierUtilities import approximately, between
assert approximately(.5, .5000009) and not approximately(.5, .500002)
assert not approximately(1000, 1000.0005) and approximately(1000, 1000.0005, .001)
assert not between(1000.0005, 0, 1000) and between(1000.0000005, 0, 1000)
""")

bug("U07-inside-only", "U07", "the root of a line that is outside of [0, 1]",
    "it is left out",
    [(BU, "        if a != b:\n            return [a / (a - b)]", "        if a != b and (a <= 0 <= b or b <= 0 <= a):\n            return [a / (a - b)]")],
    """
from PathLib.BezierUtilities import droots
assert list(droots([-1, 1])) == [.5] and list(droots([3, 3])) == []
assert list(droots([1, 3])) == [-.5] and list(droots([-4, -2])) == [2]
""")

bug("U07-between-upper", "U07", "a value just below the smaller of two values",
    "it isn't between them, though one just above the larger is",
    [(BU, "    return m <= v <= M or (approximately(v, m) or approximately(v, M))", "    return m <= v <= M or approximately(v, max(m, min(v, M)) if v > m else M)")],
    """
from PathLib.BezierUtilities import between
assert between(1, 1, 2) and between(2.0000005, 1, 2) and not between(2.00001, 1, 2)
assert between(.9999995, 1, 2) and not between(.99999, 1, 2)
""")

bug("G04-floor-edges", "G04", "bounds with fractional coordinates whose floors are further apart, or closer together, than the edges",
    "the width is that of the whole numbers, so that the margin is one more or one less",
    [(CP, "        width = right - left\n", "        width = int(right) - int(left)\n")],
    """
from PathLib.ContourPlotter import ContourPlotter
for left, right, want in ((0, 20, 1), (-.5, 19.75, 1), (.75, 20.5, 0), (-10.5, 9.75, 1), (-19.75, 0.5, 1)):
    m = ContourPlotter((left, 0, right, 100))._contentMargins
    assert m.left == m.right == want, (left, right, m.left)
""", stubs=True)

bug("B10-later-pieces", "B10", "a crossing in the fourth or a later monotone piece of a curve, which isn't the last",
    "the parameter is that of a point further along the curve",
    [(BZ, "            segment._t1 = t1\n            segment._t2 = t2\n            pass1", "            segment._t1 = t1\n            segment._t2 = t2 if i < 4 else extrema[-1]\n            pass1")],
    """
from PathLib.Bezier import Bezier
a = Bezier([(-70, 60), (-50, 10), (90, 100), (70, 70)])
for t in (.1, .3, .6, .7, .8):
    x, y = a.get(t); nx, ny = a.normal(t)
    b = Bezier([(x - 30 * nx, y - 30 * ny), (x + nx + 2 * ny, y + ny - 2 * nx), (x + 30 * nx, y + 30 * ny)])
    found = a.intersects(b)
    assert found
    for u, v in found:
        (x, y), (z, w) = a.get(u), b.get(v)
        assert abs(x - z) + abs(y - w) < 2, (t, u, v)
""")

bug("B18-table-reused", "B18", "a table of a curve that is still in use when one with fewer steps is asked for",
    "the same list is filled again, so that the table handed out before changes",
    [(BZ, "        self._lut = []\n        # We want a range from 0 to 1", "        if steps > len(self._lut): self._lut = []\n        else: del self._lut[:]\n        # We want a range from 0 to 1")],
    """
from PathLib.Bezier import Bezier
b = Bezier([(0, 0), (10, 50), (60, 20), (90, 90)])
one = b.getLUT(9); kept = list(one)
two = b.getLUT(17); wide = list(two)
three = b.getLUT(5)
assert one == kept and two == wide and len(three) == 5
""")

bug("N01-table-emptied", "N01", "a table of a contour that is still in use when the contour is edited",
    "the table handed out before is emptied by the edit",
    [(BZ, "        # self._length = None\n        self._lut = []\n", "        # self._length = None\n        self._lut.clear()\n")],
    """
from PathLib.Bezier import BContour
c = BContour([[(0, 0), (50, 90), (100, 0)], [(100, 0), (0, 0)]])
table = c.getLUT(5); kept = list(table)
c[0] = [(0, 0), (50, -90), (100, 0)]
assert list(table) == kept and c.getLUT(5) != kept
""")
