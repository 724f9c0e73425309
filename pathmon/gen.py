"""Workload generators: numbers, points, curves, contours. Plain data, so that cases can be mutated and replayed."""
import math

from . import repo

CONSTANTS = [c for c in repo.harvest() if abs(c) < 1e6]
SIZES = [c for c in CONSTANTS if isinstance(c, int) and 4 <= c <= 300]


def count(rng, usual, most=60, often=.05):
    """How many of something: a usual number, or now and then many, also just above numbers in the source."""
    if rng.random() >= often: return rng.choice(usual)
    if SIZES and rng.random() < .4: return min(most, rng.choice(SIZES) + rng.choice((0, 1, 2, 3, 5)))
    return round(most ** rng.uniform(.5, 1))
EDGE = [0, 1, -1, 2, 0.5, -0.5, 100, -100, 1000, 1024, 2048, 32767, 32768, -32768, 32769, 65536, 1e-3, 1e-6, 0.1, 1 / 3]


def number(rng, style):
    if style == "small": return rng.randint(-10, 10)
    if style == "font": return rng.randint(-1000, 2000)
    if style == "half": return rng.randint(-2000, 2000) / 2
    if style == "float": return rng.uniform(-500, 500)
    if style == "unit": return rng.uniform(-1, 1)
    if style == "big": return rng.randint(-10**6, 10**6)
    if style == "bigfloat": return rng.uniform(-1e6, 1e6)
    if style == "micro": return rng.uniform(-1e-3, 1e-3)
    if style == "edge": return rng.choice(EDGE) if rng.random() < .6 else rng.choice(CONSTANTS)
    raise ValueError(style)


STYLES = ["small", "font", "font", "half", "float", "float", "unit", "big", "edge"]
ALL = STYLES + ["bigfloat", "micro"]


def style(rng, styles=STYLES):
    return rng.choice(styles)


def point(rng, st):
    return (number(rng, st), number(rng, st))


def points(rng, n, st=None, styles=STYLES):
    """n points, with ties and repetitions more often than by chance."""
    st = st or style(rng, styles)
    pts = [point(rng, st) for _ in range(n)]
    r = rng.random()
    if r < .12 and n > 1:        # a point twice
        i, j = rng.randrange(n), rng.randrange(n)
        pts[i] = pts[j]
    elif r < .24 and n > 1:      # a shared coordinate
        i, j, k = rng.randrange(n), rng.randrange(n), rng.randrange(2)
        p = list(pts[i]); p[k] = pts[j][k]; pts[i] = tuple(p)
    elif r < .30:                # all in a row
        k = rng.randrange(2)
        pts = [tuple(pts[0][m] if m == k else p[m] for m in (0, 1)) for p in pts]
    elif r < .34:                # on a sloped line
        (x, y), (dx, dy) = pts[0], point(rng, "small")
        pts = [(x + k * dx, y + k * dy) for k in (rng.randint(-5, 5) for _ in range(n))]
    elif r < .38:                # on a diagonal
        pts = [(x, x) for x, _ in pts]
    return pts


def t(rng):
    r = rng.random()
    if r < .1: return 0
    if r < .2: return 1
    if r < .3: return 0.5
    if r < .45: return rng.randint(0, 16) / 16
    if r < .55: return rng.randint(0, 10) / 10
    if r < .6: return rng.choice((1e-9, 1 - 1e-9, 1e-6, 1 - 1e-6, 1e-3, .999, 0.01, 0.99, 0.0, 1.0, 1 / 3, 2 / 3))
    return rng.random()


def shift(rng, pts, st):
    dx, dy = point(rng, st)
    return [(x + dx, y + dy) for x, y in pts]


def turned(pts, degrees):
    s, c = math.sin(math.radians(degrees)), math.cos(math.radians(degrees))
    return [(c * x - s * y, s * x + c * y) for x, y in pts]


SHAPES = ["any", "any", "arch", "ess", "loop", "circle", "monotone", "symmetric", "axis", "retracted", "raised", "flat", "closed", "gentle", "inflected"]


def inflections(p):
    """Parameters in (0, 1) at which a cubic changes from bending to the left to bending to the right."""
    (x0, y0), (x1, y1), (x2, y2), (x3, y3) = p
    a, b, c = (x3 - 3 * x2 + 3 * x1 - x0, y3 - 3 * y2 + 3 * y1 - y0), (x2 - 2 * x1 + x0, y2 - 2 * y1 + y0), (x1 - x0, y1 - y0)
    cross = lambda u, v: u[0] * v[1] - u[1] * v[0]
    # (c + 2bt + at^2) x (b + at) = c x b + (c x a) t + (b x a) t^2
    q, l, k = cross(b, a), cross(c, a), cross(c, b)
    if abs(q) < 1e-12 * (abs(l) + abs(k)): ts = [-k / l] if l else []
    else:
        d = l * l - 4 * q * k
        ts = [(-l - math.sqrt(d)) / (2 * q), (-l + math.sqrt(d)) / (2 * q)] if d > 0 else []
    return [t for t in ts if 0 < t < 1]


def curve(rng, orders=(2, 3), shapes=SHAPES, scale=None):
    """Control points of a curve of one of the orders, about `scale` in size."""
    order = rng.choice(orders)
    shape = rng.choice(shapes)
    ints = rng.random() < .5
    size = scale or rng.choice((10, 100, 100, 1000, 1000))
    u = lambda a, b: rng.uniform(a, b) * size
    if order == 1:
        pts = [(u(-1, 1), u(-1, 1)) for _ in range(2)]
        if shape == "axis": pts[1] = rng.choice(((pts[0][0], pts[1][1]), (pts[1][0], pts[0][1])))
    elif order > 3:
        pts = [(u(-1, 1), u(-1, 1)) for _ in range(order + 1)]
        if shape == "axis": pts[1] = (pts[0][0], pts[1][1])
        if shape == "retracted": pts[1] = pts[0]
    elif order == 2:
        pts = [(u(-1, 1), u(-1, 1)) for _ in range(3)]
        if shape in ("arch", "symmetric", "circle"):
            a, h = u(.1, 1), u(.1, 1)
            pts = [(-a, 0), (0, h) if shape != "arch" else (u(-.5, .5), h), (a, 0)]
            if rng.random() < .7: pts = turned(pts, rng.choice((0, 90, 180, 270, 45, 30, rng.uniform(0, 360))))
        elif shape in ("axis", "monotone", "ess", "loop"):
            a, b = u(.1, 1), u(.1, 1) * rng.choice((-1, 1))
            pts = [(0, 0), (a, 0) if rng.random() < .5 else (0, b), (a, b)]
        elif shape == "retracted":
            pts[1] = rng.choice((pts[0], pts[2]))
        elif shape == "flat":
            k = rng.choice((rng.uniform(.1, .9), .5))
            pts[1] = tuple(pts[0][i] + k * (pts[2][i] - pts[0][i]) for i in (0, 1))
        elif shape == "closed": pts[2] = pts[0]
        elif shape == "gentle":
            pts = [(0, 0), (u(.4, .6), u(-.1, .1)), (size, 0)]
            pts = turned(pts, rng.choice((0, 90, 180, 45, rng.uniform(0, 360))))
    else:
        pts = [(u(-1, 1), u(-1, 1)) for _ in range(4)]
        a, b, h = u(.2, 1), u(.1, 1), u(.1, 1)
        rot = rng.choice((0, 0, 90, 180, 270, 45, 30, 60, rng.uniform(0, 360)))
        if shape == "arch": pts = turned([(-a, 0), (-b, h), (u(.1, 1), u(.1, 1)), (a, 0)], rot)
        elif shape == "ess": pts = turned([(-a, 0), (-b, h), (b, -h), (a, 0)] if rng.random() < .5 else [(-a, -h), (u(0, .6), -h), (-u(0, .6), h), (a, h)], rot)
        elif shape == "loop":
            w = u(.05, .5)
            pts = turned([(-w, u(-.1, .1)), (a + w, h + u(.2, .6)), (-a - w, h + u(.2, .6)), (w, u(-.1, .1))], rot)
        elif shape == "circle":
            k = 0.5522847498307936
            pts = turned([(a, 0), (a, k * a), (k * a, a), (0, a)], rot)
        elif shape == "monotone":
            sx, sy = rng.choice((-1, 1)), rng.choice((-1, 1))
            xs, ys = sorted(u(0, 1) for _ in range(4)), sorted(u(0, 1) for _ in range(4))
            pts = [(sx * x, sy * y) for x, y in zip(xs, ys)]
        elif shape == "symmetric": pts = turned([(-a, 0), (-b, h), (b, h), (a, 0)], rot)
        elif shape == "axis": pts = [(0, 0), (0, u(.1, .9)), (a - u(.05, .2), h), (a, h)] if rng.random() < .5 else [(0, 0), (u(.1, .9), 0), (a, h * rng.uniform(0, 1)), (a, h)]
        elif shape == "retracted":
            i = rng.randrange(3)
            if i != 1: pts[1] = pts[0]
            if i != 0: pts[2] = pts[3]
        elif shape == "raised":
            q = pts[:3]
            pts = [q[0], tuple((q[0][i] + 2 * q[1][i]) / 3 for i in (0, 1)), tuple((2 * q[1][i] + q[2][i]) / 3 for i in (0, 1)), q[2]]
            ints = False
        elif shape == "flat":
            d = (pts[3][0] - pts[0][0], pts[3][1] - pts[0][1])
            k1, k2 = sorted((rng.uniform(.05, .95), rng.uniform(.05, .95)))
            if rng.random() < .4:  # a line of the same order, or nearly one
                k1, k2 = rng.choice(((1 / 3, 2 / 3), (1 / 3 + rng.uniform(-1e-3, 1e-3), 2 / 3)))
                ints = False
                if rng.random() < .5: pts[0], pts[3] = [tuple(3 * round(v) for v in q) for q in (pts[0], pts[3])]
                d = (pts[3][0] - pts[0][0], pts[3][1] - pts[0][1])
            pts[1], pts[2] = [(pts[0][0] + k * d[0], pts[0][1] + k * d[1]) for k in (k1, k2)]
        elif shape == "closed": pts[3] = pts[0]
        elif shape == "inflected":  # next to an extremum
            found = inflections(pts)
            if found:
                t = min(1, max(0, rng.choice(found) + rng.choice((-1, 1)) * 10 ** rng.uniform(-5, -1.5)))
                e = 1e-6
                (xa, ya), (xb, yb) = [[sum(w * q[i] for w, q in zip(((1 - v) ** 3, 3 * v * (1 - v) ** 2, 3 * v * v * (1 - v), v ** 3), pts)) for i in (0, 1)] for v in (t - e, t + e)]
                pts = turned(pts, rng.choice((0, 90, 180)) - math.degrees(math.atan2(yb - ya, xb - xa)))
                ints = False
        elif shape == "gentle":
            pts = turned([(0, 0), (u(.25, .4), u(-.15, .15)), (u(.6, .75), u(-.15, .15)), (size, 0)], rot)
    if rng.random() < .4:
        ox, oy = u(-3, 3), u(-3, 3)
        pts = [(x + ox, y + oy) for x, y in pts]
    if ints: pts = [(round(x), round(y)) for x, y in pts]
    if rng.random() < .3: pts = pts[::-1]
    return pts


def contour(rng, n=None, orders=(1, 2, 3), closed=None, ints=None, size=1000):
    """A list of connected segments."""
    n = n or count(rng, (1, 1, 2, 2, 3, 3, 3, 4, 4, 5, 5, 8, 8, 12, 20), 80, .03)
    ints = rng.random() < .6 if ints is None else ints
    closed = rng.random() < .7 if closed is None else closed
    num = (lambda: rng.randint(-size, size)) if ints else (lambda: rng.uniform(-size, size))
    start = pen = (num(), num())
    result = []
    for i in range(n):
        order = rng.choice(orders)
        pts = [pen] + [(num(), num()) for _ in range(order)]
        r = rng.random()
        if order == 1:
            if r < .25: pts[1] = (pen[0], pts[1][1])
            elif r < .5: pts[1] = (pts[1][0], pen[1])
            elif r < .58: pts[1] = pen
        elif r < .1: pts[1] = pts[0]
        elif r < .2: pts[-1] = (pts[0][0], pts[-1][1])
        if closed and i == n - 1 and n > 1: pts[-1] = start
        result.append(pts)
        pen = pts[-1]
    return result
