"""From the pen to the drawing: the parts working together."""
from .. import svg
from .common import *
from .glyphs import LOGGER, COLORS, Glyph, elementsOf, genComponents, newPlotter, segmentsOf, validOutline
from .planes import build, genOne, model, validOne
from .shaping import plain

F = o.F


# ---------------------------------------------------------------- P01
def genPipeline(rng):
    case = genComponents(rng)
    case["chain"] = [genOne(rng, ("translate", "scale", "shear", "mirror", "rotation")) for _ in range(rng.choice((0, 1, 1, 2, 3)))]
    case["about"], case["degrees"], case["ccw"] = gen.point(rng, "font"), rng.choice((0, 90, -90, 180, 30, rng.uniform(-360, 360))), rng.random() < .5
    case["close"], case["fill"] = rng.random() < .5, rng.random() < .5
    return case


def expectedOf(glyphs, i):
    contours, components = glyphs[i]
    result = segmentsOf(contours)
    for k, t in components:
        xx, xy, yx, yy, dx, dy = map(F, t)
        result += [[[(xx * x + yx * y + dx, xy * x + yy * y + dy) for x, y in s] for s in c] for c in expectedOf(glyphs, k)]
    return result


def segmentCount(glyphs):
    counts = []
    for contours, components in glyphs:
        counts.append(sum(len(p) + 1 for _, calls in contours for _, p in calls) + len(contours) + sum(counts[k] for k, _ in components))
    return counts[-1]


def visible(segments, tol):
    """Without the lines that have no length, or are only rounding."""
    return [s for s in segments if len(s) > 2 or max(abs(float(s[0][k]) - float(s[1][k])) for k in (0, 1)) > 3 * tol]


def samePicture(mon, paths, wanted, tol, what, closed=None):
    mon.expect(len(paths) == len(wanted), "a path for each contour of the glyph", got=len(paths), wanted=len(wanted), what=what)
    for (start, segments, shut), contour in zip(paths, wanted):
        near(mon, start, contour[0][0], tol, "paths draw the glyph", what=what)
        got, want = visible(segments, tol), visible(contour, tol)
        # lines whose length is close to the limit may be on either side of it
        if len(got) != len(want): mon.need(len(visible(segments, tol / 3)) == len(visible(segments, 3 * tol)) and len(visible(contour, tol / 3)) == len(visible(contour, 3 * tol)), "lines that may be only rounding")
        mon.expect([len(s) for s in got] == [len(s) for s in want], "paths draw the glyph", what=what, got=[len(s) for s in got], wanted=[len(s) for s in want])
        for s, v in zip(got, want):
            for p, q in zip(s, v): near(mon, p, q, 8 * tol, "paths draw the glyph", what=what)
        if closed is not None: mon.expect(shut == closed, "paths are closed if asked", what=what)


def extent(values):
    """(smallest, largest) value of the Bernstein polynomial, in floats. Turning points that are a bit off hardly change the values."""
    v = [float(x) for x in values]
    n = len(v) - 1
    if n == 1: return min(v), max(v)
    d = [b - a for a, b in zip(v, v[1:])]
    if n == 2: roots = [d[0] / (d[0] - d[1])] if d[0] != d[1] else []
    else:
        a, b, c = d[0] - 2 * d[1] + d[2], d[1] - d[0], d[0]  # a t^2 + 2 b t + c
        q = b * b - a * c
        roots = []
        if q >= 0:
            q = -(b + math.copysign(math.sqrt(q), b))
            roots = ([q / a] if a else []) + ([c / q] if q else [])
    for t in roots:
        if 0 < t < 1: v.append(sum(math.comb(n, i) * (1 - t) ** (n - i) * t ** i * x for i, x in enumerate(v[:n + 1])))
    return min(v[0], *v[n:]), max(v[0], *v[n:])


def parsed(mon, text):
    try:
        return svg.parse(text)
    except svg.BadPath as e:
        mon.expect(False, "path is well-formed", error=str(e), text=text)


def checkPipeline(case, mon):
    glyphs = case["glyphs"]
    mon.need(len(glyphs) > 0, "no glyphs")
    size, factor = 1, 1.0
    for i, (contours, components) in enumerate(glyphs):
        validOutline(mon, contours)
        for k, t in components:
            mon.need(isinstance(k, int) and 0 <= k < i and len(t) == 6 and all(abs(v) < 1e5 for v in t), "component")
            factor *= max(1, abs(t[0]) + abs(t[2]), abs(t[1]) + abs(t[3]))
            size = max(size, abs(t[4]), abs(t[5]))
        size = max([size] + [abs(c) for start, calls in contours for p in [start] + [q for _, ps in calls for q in ps] for c in p])
    mon.need(segmentCount(glyphs) <= 250, "many segments")
    chain = [(k, tuple(a)) for k, a in case["chain"]]
    for kind, args in chain: validOne(mon, kind, args)
    angle, about, ccw = case["degrees"], tuple(case["about"]), bool(case["ccw"])
    mon.need(abs(angle) < 1e4, "angle")
    bounded(mon, [about], 1e6)

    # what it has to be
    wanted = expectedOf(glyphs, len(glyphs) - 1)
    reach = factor * size * (len(glyphs) + 1)
    for kind, args in chain:
        f = model(kind, args)
        wanted = [[[f(*p) for p in s] for s in c] for c in wanted]
        if kind == "translate": reach += max(abs(c) for p in args for c in p)
        elif kind == "scale": reach *= max(1, abs(args[0]), abs(args[1]))
        elif kind == "shear": reach *= 1 + max(abs(args[0]), abs(args[1]))
        else: reach *= 1.5
    mon.need(reach < 1e15, "large")
    turn = model("rotation", (angle, ccw))
    ax, ay = map(F, about)
    turned = [[[(u + ax, v + ay) for u, v in (turn(x - ax, y - ay) for x, y in s)] for s in c] for c in wanted]
    reach = 2 * (reach + max(map(abs, about)))
    tol = 2e-15 * reach * (len(glyphs) + 3 * len(chain) + 5)

    # what it is
    glyphSet = {f"g{i}": Glyph(contours, [(f"g{k}", tuple(t)) for k, t in components]) for i, (contours, components) in enumerate(glyphs)}
    pen = SegmentPen(glyphSet, LOGGER)
    glyphSet[f"g{len(glyphs) - 1}"].draw(pen)
    drawn = pen.contours
    kept = [plain(drawn)]
    moved = Transform(*[build(k, a).transform for k, a in chain]).applyToContours(drawn) if chain else drawn
    kept.append(plain(moved))
    rotated = PathUtilities.rotateContoursAbout(moved, about, angle, ccw)
    kept.append(plain(rotated))
    for name, contours, want in (("glyph", moved, wanted), ("rotated glyph", rotated, turned)):
        outline = BOutline(contours)
        samePicture(mon, [q for bc in outline for q in parsed(mon, bc.d())], want, tol, name + " as path strings")
        p = newPlotter()
        p.drawContours(contours, None, bool(case["fill"]), bool(case["close"]))
        if contours:
            elements = elementsOf(mon, p._content)
            mon.expect(len(elements) == 1, "contours are one path", got=len(elements))
            samePicture(mon, parsed(mon, elements[0][0]), want, tol, name + " as contours", bool(case["close"]))
        p = newPlotter()
        p.drawPaths(outline, COLORS[1])
        samePicture(mon, [q for d, _ in elementsOf(mon, p._content) for q in parsed(mon, d)], want, tol, name + " as an outline")
        flat = [s for c in want for s in c]
        if flat:
            box, hull = outline.boundsRectangle, BoundsRectangle.fromCoutours(contours)
            for k in (0, 1):
                spans = [extent([q[k] for q in s]) for s in flat]
                values = [q[k] for s in flat for q in s]
                for got, exact in ((box.points[k], min(a for a, _ in spans)), (box.points[k + 2], max(b for _, b in spans))):
                    mon.within(abs(got - exact), 50 * tol, "bounds of the outline are those of the glyph", got=box.points, what=name)
                for got, exact in ((hull.points[k], min(values)), (hull.points[k + 2], max(values))):
                    mon.within(abs(F(got) - exact), tol, "bounds of the contours are those of their points", got=hull.points, what=name)
            mon.expect(PathUtilities.flatten(contours) == [s for c in contours for s in c], "flattened in order")
    mon.expect([plain(drawn), plain(moved), plain(rotated)] == kept, "each step keeps what it's given")
    mon.state(len(wanted), len(chain), tuple(k for k, _ in chain), any(c for _, c in glyphs))


PROPERTIES = [
    Property("P01", genPipeline, checkPipeline, "glyphs with components, drawn, transformed by up to three transforms, rotated, and made into outlines and paths; exact model of the whole",
             ["paths draw the glyph", "bounds of the outline are those of the glyph", "bounds of the contours are those of their points", "each step keeps what it's given"], quick=2400, thorough=60000),
]
