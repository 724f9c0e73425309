import math

from .. import gen, oracle as o
from ..core import Property, Violation
from ..repo import (BContour, Bezier, BoundsRectangle, BOutline, CurveFitting, MatrixInversion, PathUtilities,
                    SegmentPen, Transform, butils)

__all__ = ["math", "gen", "o", "Property", "Violation", "BContour", "Bezier", "BoundsRectangle", "BOutline",
           "CurveFitting", "MatrixInversion", "PathUtilities", "SegmentPen", "Transform", "butils",
           "near", "samePoint", "copied", "pts", "gap", "bounded", "regular", "clean"]


def gap(p, q):
    """Chebyshev distance, through Fractions or floats."""
    return max(abs(o.F(p[0]) - o.F(q[0])), abs(o.F(p[1]) - o.F(q[1])))


def near(mon, p, q, tol, clause, **detail):
    x, y = p
    if not (math.isfinite(x) and math.isfinite(y)):
        mon.expect(False, clause, got=p, wanted=(float(q[0]), float(q[1])), **detail)
    mon.within(max(abs(float(x) - float(q[0])), abs(float(y) - float(q[1]))), tol, clause, got=p,
               wanted=(float(q[0]), float(q[1])), **detail)


def samePoint(p, q):
    return p[0] == q[0] and p[1] == q[1]


def copied(points):
    return [(x, y) for x, y in points]


def pts(points):
    return [tuple(p) for p in points]


def bounded(mon, points, limit=1e7):
    mon.need(all(math.isfinite(c) and abs(c) <= limit for p in points for c in p), "coordinates too large")


def clean(points):
    """No coordinate is so small, compared to the others, that it is only rounding."""
    m = o.magnitude(points)
    return all(c == 0 or abs(c) >= 1e-9 * m for p in points for c in p)


def regular(points, ratio=0.05):
    slow, fast = o.speedRange(points)
    return fast > 0 and slow >= ratio * fast
