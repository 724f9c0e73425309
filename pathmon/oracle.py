"""Reference models, independent of PathLib: exact rational or plain numpy geometry."""
import decimal
import functools
import math
from fractions import Fraction

import numpy as np

F = Fraction


def fr(points):
    return [(F(x), F(y)) for x, y in points]


def bernsteinExact(points, t):
    """The point at t, as Fractions, by the Bernstein sum."""
    t = F(t)
    n = len(points) - 1
    x = y = F(0)
    for i, (px, py) in enumerate(points):
        w = math.comb(n, i) * (1 - t) ** (n - i) * t ** i
        x += w * F(px)
        y += w * F(py)
    return x, y


def at(points, ts):
    """The points at ts, as a numpy array of shape (len(ts), 2)."""
    p = np.asarray([(float(x), float(y)) for x, y in points])
    ts = np.asarray(ts, dtype=float).reshape(-1, 1)
    n = len(p) - 1
    return sum(math.comb(n, i) * (1 - ts) ** (n - i) * ts ** i * p[i] for i in range(n + 1))


def at1(points, t):
    x, y = at(points, [t])[0]
    return float(x), float(y)


def derivativePoints(points):
    n = len(points) - 1
    return [(n * (b[0] - a[0]), n * (b[1] - a[1])) for a, b in zip(points, points[1:])]


def velocity(points, ts):
    d = derivativePoints(points)
    if len(d) == 1: return np.repeat(np.asarray(d, dtype=float), len(ts), axis=0)
    return at(d, ts)


def speedRange(points, n=400):
    """(slowest, fastest) on a grid."""
    v = velocity(points, np.linspace(0, 1, n + 1))
    s = np.hypot(v[:, 0], v[:, 1])
    return float(s.min()), float(s.max())


def size(points):
    """The largest coordinate difference, or magnitude if they are all equal."""
    xs, ys = [float(p[0]) for p in points], [float(p[1]) for p in points]
    return max(max(xs) - min(xs), max(ys) - min(ys))


def magnitude(points):
    return max(max(abs(float(p[0])), abs(float(p[1]))) for p in points)


def blossom(points, t1, t2):
    """Control points of the part between t1 and t2, as Fractions."""
    p = fr(points)
    n = len(p) - 1
    result = []
    for k in range(n + 1):
        args = [F(t1)] * (n - k) + [F(t2)] * k
        q = p
        for a in args:
            q = [((1 - a) * x0 + a * x1, (1 - a) * y0 + a * y1) for (x0, y0), (x1, y1) in zip(q, q[1:])]
        result.append(q[0])
    return result


def polynomial(values):
    """Power coefficients (lowest first), as Fractions, of the Bernstein form with these values."""
    n = len(values) - 1
    v = [F(x) for x in values]
    return [math.comb(n, k) * sum((-1) ** (k - j) * math.comb(k, j) * v[j] for j in range(k + 1)) for k in range(n + 1)]


def valueAt(coefficients, t):
    r = 0
    for c in reversed(coefficients): r = r * t + c
    return r


def derivative(coefficients):
    return [k * c for k, c in enumerate(coefficients)][1:]


def trimmed(coefficients):
    c = list(coefficients)
    while c and c[-1] == 0: c.pop()
    return c


def remainder(a, b):
    a = list(a)
    while len(a) >= len(b):
        k = a[-1] / b[-1]
        for i in range(len(b)): a[len(a) - len(b) + i] -= k * b[i]
        a.pop()
    return trimmed(a)


def sturm(coefficients):
    c = trimmed(coefficients)
    chain = [c, derivative(c)]
    while len(chain[-1]) > 1:
        r = remainder(chain[-2], chain[-1])
        if not r: break
        chain.append([-x for x in r])
    return [x for x in chain if x]


def changes(chain, t):
    signs = [s for s in (valueAt(c, t) for c in chain) if s != 0]
    return sum(1 for a, b in zip(signs, signs[1:]) if (a > 0) != (b > 0))


def realRoots(coefficients, lo, hi, precision=F(1, 2 ** 60)):
    """The distinct real roots in (lo, hi] of a polynomial with rational coefficients, by Sturm's theorem."""
    c = trimmed(coefficients)
    if len(c) < 2: return []
    lo, hi = F(lo), F(hi)
    chain = sturm(c)
    out = []

    def isolate(a, b, ca, cb):
        n = ca - cb
        if n == 0: return
        if n == 1 or b - a < precision:
            # bisect
            while b - a > precision:
                m = (a + b) / 2
                cm = changes(chain, m)
                if ca - cm >= 1: b = m
                else: a, ca = m, cm
            out.append((a + b) / 2)
            return
        m = (a + b) / 2
        cm = changes(chain, m)
        isolate(a, m, ca, cm)
        isolate(m, b, cm, cb)

    isolate(lo, hi, changes(chain, lo), changes(chain, hi))
    return out


GLX, GLW = np.polynomial.legendre.leggauss(24)
GX, GW = np.polynomial.legendre.leggauss(20)


def legendreTable(n=24, digits=70):
    """[(node, weight)] of Gauss's quadrature with n points on [0, 1], from the Legendre polynomials."""
    with decimal.localcontext() as context:
        context.prec = digits + 10
        one, table = decimal.Decimal(1), []
        for x in np.polynomial.legendre.leggauss(n)[0]:
            x = decimal.Decimal(float(x))
            for _ in range(8):
                p0, p1 = one, x
                for k in range(2, n + 1): p0, p1 = p1, ((2 * k - 1) * x * p1 - (k - 1) * p0) / k
                slope = n * (x * p1 - p0) / (x * x - 1)
                x -= p1 / slope
            table.append(((x + 1) / 2, 1 / ((1 - x * x) * slope * slope)))
        return table


@functools.lru_cache(1)
def table24(): return legendreTable()


def decimalLength(points, parts=1, digits=70):
    """The length by 24-point quadrature on each of the parts, to that many digits."""
    with decimal.localcontext() as context:
        context.prec = digits
        d = [tuple(decimal.Decimal(c.numerator) / c.denominator for c in q) for q in derivativePoints(fr(points))]
        total = decimal.Decimal(0)
        for k in range(parts):
            for node, weight in table24():
                t = (k + node) / parts
                row, mt = d, 1 - t
                while len(row) > 1: row = [(mt * a + t * b, mt * e + t * f) for (a, e), (b, f) in zip(row, row[1:])]
                x, y = row[0]
                total += weight * (x * x + y * y).sqrt()
        return total / parts


def gl24(points):
    ts = (GLX + 1) / 2
    v = velocity(points, ts)
    return float((GLW * np.hypot(v[:, 0], v[:, 1])).sum() / 2)


def trueLength(points, depth=26):
    """Adaptive quadrature, independent of the one under test. Bisects until both halves agree with the whole."""
    d = derivativePoints(points)
    scale = max(np.hypot(*map(float, p)) for p in d) or 1.0

    def part(a, b):
        ts = (a + b) / 2 + (b - a) / 2 * GX
        v = at(d, ts) if len(d) > 1 else np.repeat(np.asarray(d, dtype=float), len(ts), axis=0)
        return float((GW * np.hypot(v[:, 0], v[:, 1])).sum() * (b - a) / 2)

    def rec(a, b, whole, level):
        m = (a + b) / 2
        l, r = part(a, m), part(m, b)
        if abs(l + r - whole) <= 1e-13 * scale * max(b - a, 1e-3) or level == 0: return l + r
        return rec(a, m, l, level - 1) + rec(m, b, r, level - 1)

    return rec(0.0, 1.0, part(0.0, 1.0), depth)


def distance(p, q):
    return math.hypot(float(p[0]) - float(q[0]), float(p[1]) - float(q[1]))


def segmentDistance(a, b, c, d):
    """Smallest distances between segments ab and cd; numpy arrays broadcast over the first axis."""
    def pointSegment(p, a, b):
        ab = b - a
        den = (ab * ab).sum(-1)
        den = np.where(den == 0, 1, den)
        k = np.clip(((p - a) * ab).sum(-1) / den, 0, 1)
        q = a + k[..., None] * ab
        return np.hypot(*np.moveaxis(p - q, -1, 0))
    return np.minimum(np.minimum(pointSegment(a, c, d), pointSegment(b, c, d)),
                      np.minimum(pointSegment(c, a, b), pointSegment(d, a, b)))


def nearestOnCurve(points, p, n=200):
    """(distance, t) of the nearest point of the curve: grid, then Newton/golden refinement."""
    ts = np.linspace(0, 1, n + 1)
    q = at(points, ts)
    d = np.hypot(q[:, 0] - p[0], q[:, 1] - p[1])
    best, bt = float(d.min()), float(ts[int(d.argmin())])
    # refine around each local minimum within reach
    _, fast = speedRange(points, 50)
    h = 1 / n
    for i in np.nonzero(d <= best + fast * h)[0]:
        a, b = max(0.0, ts[i] - h), min(1.0, ts[i] + h)
        for _ in range(5):
            tt = np.linspace(a, b, 17)
            q = at(points, tt)
            dd = np.hypot(q[:, 0] - p[0], q[:, 1] - p[1])
            k = int(dd.argmin())
            if dd[k] < best: best, bt = float(dd[k]), float(tt[k])
            a, b = tt[max(0, k - 1)], tt[min(16, k + 1)]
    return best, bt
