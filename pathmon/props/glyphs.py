"""Segments from glyph outlines, colours, and drawing. Color and ContourPlotter run on a recording stand-in for FontDocTools."""
import collections
import json
import logging
import os
import random
import re

from .. import svg
from ..repo import HERE, withStubs
from .common import *
from .contours import samePath, withoutDots, asSegments, contourDomain, joined
from .shaping import plain

F = o.F
LOGGER = logging.getLogger("pathmon.pen")
LOGGER.setLevel(logging.ERROR)
ColorModule, PlotterModule = withStubs()
Color, Plotter = ColorModule.Color, PlotterModule.ContourPlotter
from FontDocTools import GlyphPlotterEngine as Engine  # noqa: E402
with open(os.path.join(HERE, "pathmon", "css_colors.json")) as f: KEYWORDS = {k: tuple(v) for k, v in json.load(f).items()}
assert len(KEYWORDS) == 147


# ---------------------------------------------------------------- S01
def genOutline(rng, n=None):
    """Contours as calls of a pen."""
    st = rng.choice(("small", "font", "font", "half", "float"))
    contours = []
    for _ in range(gen.count(rng, (0, 1, 1, 1, 2, 2, 3, 6), 30, .03) if n is None else n):
        start = pen = gen.point(rng, st)
        calls = []
        for _ in range(gen.count(rng, (0, 1, 1, 2, 2, 3, 3, 5, 5, 12), 50, .02)):
            r = rng.random()
            if r < .35: kind, k = "line", 1
            elif r < .6: kind, k = "curve", rng.choice((3, 3, 3, 2, 1))
            else: kind, k = "qcurve", gen.count(rng, (1, 1, 2, 2, 2, 3, 3, 4, 4, 6, 6, 13), 300 if rng.random() < .2 else 60, .02)
            p = [gen.point(rng, st) for _ in range(k)]
            if rng.random() < .12: p[-1] = pen
            if rng.random() < .12: p[-1] = start
            if rng.random() < .08 and k > 2: p[1] = p[0]
            calls.append([kind, p])
            pen = p[-1]
        if calls and rng.random() < .5: calls[-1][1][-1] = start
        contours.append([start, calls])
    return contours


def draw(contours, pen, closings=1):
    for start, calls in contours:
        pen.moveTo(tuple(start))
        for kind, p in calls: getattr(pen, {"line": "lineTo", "curve": "curveTo", "qcurve": "qCurveTo"}[kind])(*pts(p))
        for _ in range(closings): pen.closePath()


def segmentsOf(contours):
    """What the calls draw, by the definitions of TrueType and PostScript outlines."""
    result = []
    for start, calls in contours:
        start = pen = (F(start[0]), F(start[1]))
        contour = []
        for kind, p in calls:
            p = o.fr(p)
            if kind == "line":
                if p[0] != pen: contour.append([pen, p[0]])
            elif kind == "curve" or len(p) < 3: contour.append([pen] + p)
            else:
                ons = [tuple((a[i] + b[i]) / 2 for i in (0, 1)) for a, b in zip(p[:-2], p[1:-1])] + [p[-1]]
                for off, on in zip(p[:-1], ons):
                    contour.append([pen, off, on])
                    pen = on
            pen = p[-1]
        if not contour: continue
        if pen != start: contour.append([pen, start])
        result.append(contour)
    return result


def validOutline(mon, contours):
    for start, calls in contours:
        bounded(mon, [tuple(start)], 1e7)
        for kind, p in calls:
            mon.need(1 <= len(p) <= (1 if kind == "line" else 3 if kind == "curve" else 300), "points")
            bounded(mon, p, 1e7)


def compare(mon, got, want, tol, clause):
    mon.expect(len(got) == len(want), clause + ": number of contours", got=len(got), wanted=len(want))
    for g, w in zip(got, want):
        mon.expect([len(s) for s in g] == [len(s) for s in w], clause + ": kinds of segments", got=[len(s) for s in g], wanted=[len(s) for s in w])
        for s, v in zip(g, w):
            for p, q in zip(s, v):
                if tol: near(mon, p, q, tol, clause + ": points")
                else: mon.expect(samePoint((F(p[0]), F(p[1])), q), clause + ": points", got=s, wanted=[(float(a), float(b)) for a, b in v])


def checkPen(case, mon):
    contours = case["contours"]
    validOutline(mon, contours)
    m = max([abs(c) for start, calls in contours for p in [start] + [q for _, ps in calls for q in ps] for c in p], default=0)
    pen = SegmentPen({}, LOGGER)
    done = ()
    for i, c in enumerate(contours):
        draw([c], pen)
        want = segmentsOf(contours[:i + 1])
        compare(mon, pen.contours, want, 4e-16 * m, "contours drawn so far")
        for g in pen.contours: mon.expect(all(samePoint(a[-1], b[0]) for a, b in zip(g, g[1:])) and samePoint(g[-1][-1], g[0][0]), "contours are joined and closed", got=g)
        now = plain(pen.contours)
        mon.expect(now[:len(done)] == done, "finished contours stay")
        done = now
    if not contours: mon.expect(list(pen.contours) == [], "contours drawn so far: number of contours")
    other = SegmentPen({}, LOGGER)
    mon.expect(list(other.contours) == [], "pens are independent", got=other.contours)
    draw(contours, other)
    mon.expect(plain(other.contours) == plain(pen.contours), "the same again")
    twice = SegmentPen({}, LOGGER)
    draw(contours, twice, 2)
    mon.expect(plain(twice.contours) == plain(pen.contours), "closing again adds nothing")
    mon.state(tuple((k, len(p)) for c in contours[:1] for k, p in c[1][:3]), len(contours))


# ---------------------------------------------------------------- S02
class Glyph(object):
    def __init__(self, contours, components):
        self.contours, self.components = contours, components

    def draw(self, pen):
        draw(self.contours, pen)
        for name, t in self.components: pen.addComponent(name, t)


def genComponents(rng):
    """Glyph i has components with smaller numbers only."""
    glyphs = []
    for i in range(gen.count(rng, (2, 2, 3, 3, 4, 6), 14, .03)):
        components = []
        for _ in range(gen.count(rng, (0, 1, 1, 1, 1, 2, 2, 4), 16, .015) if 0 < i else 0):
            r = rng.random()
            if r < .2: t = (1, 0, 0, 1, 0, 0)
            elif r < .35:  # the identity but for one element
                t = [1, 0, 0, 1, 0, 0]
                k = rng.randrange(6)
                t[k] = rng.choice((-1, 0, 1, 2, .5, t[k] + rng.choice((-1, 1)) * 10 ** rng.uniform(-7, -1)))
                t = tuple(t)
            elif r < .5: t = (1, 0, 0, 1, rng.randint(-500, 500), rng.randint(-500, 500))
            elif r < .7: t = (rng.choice((-1, 1, .5, 2)), 0, 0, rng.choice((-1, 1, .5, 2)), rng.randint(-500, 500), rng.randint(-500, 500))
            else: t = tuple(rng.uniform(-2, 2) for _ in range(4)) + (rng.randint(-500, 500), rng.uniform(-500, 500))
            components.append([rng.randrange(i), t])
        glyphs.append([genOutline(rng, rng.choice((0, 1, 1, 2)) if components else rng.choice((1, 2))), components])
    if not glyphs[-1][1]: glyphs[-1][1] = [[0, (rng.uniform(-2, 2), rng.uniform(-1, 1), rng.uniform(-1, 1), rng.uniform(-2, 2), rng.randint(-500, 500), 7)]]
    return {"glyphs": glyphs}


def checkComponents(case, mon):
    glyphs = case["glyphs"]
    size, factor = 1, 1.0
    for i, (contours, components) in enumerate(glyphs):
        validOutline(mon, contours)
        for k, t in components:
            mon.need(isinstance(k, int) and 0 <= k < i and len(t) == 6 and all(abs(v) < 1e5 for v in t), "component")
            factor *= max(1, abs(t[0]) + abs(t[2]), abs(t[1]) + abs(t[3]))
            size = max(size, abs(t[4]), abs(t[5]))
        size = max([size] + [abs(c) for start, calls in contours for p in [start] + [q for _, ps in calls for q in ps] for c in p])
    glyphSet = {f"g{i}": Glyph(contours, [(f"g{k}", tuple(t)) for k, t in components]) for i, (contours, components) in enumerate(glyphs)}

    def expected(i):
        contours, components = glyphs[i]
        result = segmentsOf(contours)
        for k, t in components:
            xx, xy, yx, yy, dx, dy = map(F, t)
            result += [[[(xx * x + yx * y + dx, xy * x + yy * y + dy) for x, y in s] for s in c] for c in expected(k)]
        return result

    first = None
    for i in range(len(glyphs)):
        pen = SegmentPen(glyphSet, LOGGER)
        glyphSet[f"g{i}"].draw(pen)
        want = expected(i)
        compare(mon, pen.contours, want, 4e-15 * factor * size * (len(glyphs) + 1), "contours of a composite glyph")
        mon.state(len(glyphs[i][0]), len(glyphs[i][1]), any(glyphs[k][1] for k, _ in glyphs[i][1]), any(tuple(t) == (1, 0, 0, 1, 0, 0) for _, t in glyphs[i][1]))
        if i == 0: first = plain(pen.contours)
    again = SegmentPen(glyphSet, LOGGER)
    glyphSet["g0"].draw(again)
    mon.expect(plain(again.contours) == first, "base glyphs stay as they are")
    # components that don't exist, or fail when they have drawn something already
    before = plain(pen.contours)

    class Broken(object):
        def draw(self, pen):
            draw(glyphs[-1][0], pen)
            pen.moveTo((1, 2)); pen.lineTo((3, 4)); pen.closePath()
            pen.addComponent("nothing", (1, 0, 0, 1, 0, 0))

    glyphSet["broken"] = Broken()
    for name in ("nothing", "broken"):
        t = glyphs[-1][1][0][1] if glyphs[-1][1] else (1, 0, 0, 1, 0, 0)
        try:
            pen.addComponent(name, tuple(t))
            raised = False
        except Exception:
            raised = True
        mon.expect(raised and plain(pen.contours) == before, "a component that can't be drawn adds nothing", component=name, raised=raised, got=len(pen.contours), wanted=len(before))
    pen.addComponent("g0", (1, 0, 0, 1, 0, 0))
    mon.expect(plain(pen.contours)[len(before):] == first and plain(pen.contours)[:len(before)] == before, "a component that can't be drawn adds nothing", got=pen.contours)


# ---------------------------------------------------------------- C01
def genName(rng):
    name = rng.choice(sorted(KEYWORDS))
    r = rng.random()
    if r < .3: pass
    elif r < .5: name = "".join(rng.choice((c.upper(), c.lower())) for c in name)
    elif r < .6: name = rng.choice((name.upper(), name.title()))
    elif r < .75:
        i = rng.randrange(len(name))
        name = name[:i] + rng.choice("abcdefghijklmnopqrstuvwxyz") + name[i + rng.choice((0, 1)):]
    elif r < .85: name = rng.choice((name[:-1], name + "e", name[1:], "x" + name, name + name, "rebeccapurpl", "transparent", "none", "é" + name, name.replace("k", "\u212a"), name.replace("s", "\u017f"), name.replace("i", "\u0130")))
    elif r < .88: name = rng.choice((" ", "\n", "\t ", "   ", "\r\n", "\u2003", "\x0b", "\xa0 "))
    else: name = rng.choice(("", "#ff0000", "12", name + "1", name + " ", " " + name, "light grey", "rgb(1,2,3)", "grey50", "dark-red", "#" + name, name[:3] + "_" + name[3:]))
    return {"name": name, "order": rng.random()}


def checkName(case, mon):
    name = case["name"]
    low = name.lower()
    for k in range(2):
        try:
            got = Color.fromName(name)
        except ValueError:
            got = ValueError
        if low in KEYWORDS and name.isascii(): mon.expect(isinstance(got, Color) and got.components == KEYWORDS[low], "keyword in upper or lower case", got=got, name=name, wanted=KEYWORDS[low])
        elif name.isalpha(): mon.expect(got is ValueError, "error for an unknown keyword", got=got, name=name)
        else: mon.expect(got is None, "nothing for what isn't a keyword", got=got, name=name)
    mon.state(low if low in KEYWORDS else name.isalpha(), name.isascii())


# ---------------------------------------------------------------- C02
def genHue(rng):
    return {"hue": rng.choice((None, 0, 73, 287, 359, 360, rng.randint(-720, 720), rng.uniform(0, 360), rng.uniform(-1000, 1e4))), "count": rng.choice((1, 1, 2, 2, 5, 5, 5, 20, 20, 60, 400)), "seed": rng.randrange(1 << 30), "mix": rng.random() < .4, "many": rng.random() < .03}


def hsl(hue):
    """Saturation and lightness are 50%: the chroma is one half. From the definition in CSS Color."""
    h = F(hue) % 360 / 60
    c, x = F(1, 2), F(1, 2) * (1 - abs(h % 2 - 1))
    rgb = [(c, x, 0), (x, c, 0), (0, c, x), (0, x, c), (x, 0, c), (c, 0, x)][int(h)]
    return [255 * (v + F(1, 4)) for v in rgb]


def checkHue(case, mon):
    hue, count = case["hue"], max(1, min(400, abs(int(case["count"]))))
    state = random.getstate()
    try:
        if hue is None:
            Color.setCurrentHue()
            hue = 0
        else:
            mon.need(abs(hue) <= 1e5, "hue")
            Color.setCurrentHue(hue)
        random.seed(case["seed"])
        lows, highs = [255] * 3, [0] * 3
        for i in range(count):
            c = Color.randomHSLColor()
            want = hsl(F(hue) + 73 * (i + 1))
            for g, w in zip(c.components, want): mon.within(abs(g - w), F(1, 2) + F(1e-6), "colours a fixed step around the colour circle", got=c.components, wanted=[float(v) for v in want], number=i)
            if case["mix"]:
                r = Color.randomRGBColor()
                mon.expect(isinstance(r, Color) and all(isinstance(v, int) and 0 <= v <= 255 for v in r.components), "random colours have components from 0 to 255", got=r.components)
        Color.setCurrentHue(hue)
        mon.within(max(abs(g - w) for g, w in zip(Color.randomHSLColor().components, hsl(F(hue) + 73))), F(1, 2) + F(1e-6), "the sequence starts again")
        draws = [Color.randomRGBColor().components for _ in range(300)]
        for k in range(3):
            mon.expect(min(d[k] for d in draws) < 32 and max(d[k] for d in draws) > 223, "random colours use the whole range", channel=k)
        for j, k in ((0, 1), (1, 2), (0, 2)):
            mon.expect(any(d[j] < 100 and d[k] > 155 for d in draws) and any(d[k] < 100 and d[j] > 155 for d in draws), "components of random colours are independent", channels=(j, k))
        if case["many"]:
            draws = [Color.randomRGBColor().components for _ in range(6000)]
            if any(len({d[k] for d in draws}) < 256 for k in range(3)): draws += [Color.randomRGBColor().components for _ in range(6000)]
            # the chance of a value not occurring is then less than 1e-17, that of such a chi-square less than 1e-12
            # components are equal by chance only: once in 256 draws, and that seldom too if two of them are
            count = len(draws)
            both = list(zip(draws, draws[1:]))
            for what, n in [(f"components {j} and {k}", sum(d[j] == d[k] for d in draws)) for j, k in ((0, 1), (1, 2), (0, 2))] + [
                    (f"component {j} and the next {k}", sum(a[j] == b[k] for a, b in both)) for j in range(3) for k in range(3)]:
                # the chance of none, or of sixteen standard deviations more, is less than 1e-10
                mon.expect(0 < n < count / 256 + 16 * (count / 256) ** .5, "components are equal by chance only", what=what, count=n)
            for what, n in (("all components", sum(len(set(d)) == 1 for d in draws)), ("a whole colour again", sum(a == b for a, b in both))):
                mon.expect(n <= 12, "components are equal by chance only", what=what, count=n)
            for k in range(3): mon.expect({d[k] for d in draws} == set(range(256)), "all values occur", channel=k, missing=sorted(set(range(256)) - {d[k] for d in draws}))
            for parts, limit, names in ((4, 200, (0, 1, 2)), (16, 480, (0, 1)), (16, 480, (1, 2)), (16, 480, (0, 2))):
                for digit in (lambda v: v * parts // 256, lambda v: v % parts):
                    cells = collections.Counter(tuple(digit(d[k]) for k in names) for d in draws)
                    wanted = len(draws) / parts ** len(names)
                    square = sum((n - wanted) ** 2 for n in cells.values()) / wanted + wanted * (parts ** len(names) - len(cells))
                    mon.within(square, limit, "all combinations of components occur alike", channels=names, parts=parts)
    finally:
        random.setstate(state)
    mon.state(count, int(hue) % 360)


# ---------------------------------------------------------------- drawing
ELEMENT = re.compile(r"^<path d='([^']*)'((?: [a-z-]+='[^']*')*)/>$")
ATTRIBUTE = re.compile(r" ([a-z-]+)='([^']*)'")
COLORS = [Color(*c) for c in ((255, 0, 0), (0, 128, 0), (1, 2, 3), (0, 0, 0), (250, 250, 250))]


def elementsOf(mon, content):
    result = []
    for text in content:
        m = ELEMENT.match(text)
        mon.expect(m is not None, "element is well-formed", got=text)
        names = ATTRIBUTE.findall(m.group(2))
        mon.expect(len(dict(names)) == len(names), "no attribute twice", got=text)
        result.append((m.group(1), dict(names)))
    return result


def fillAttributes(state):
    return {"fill": str(state[0]), "fill-opacity": str(state[1])}


def strokeAttributes(state):
    w, c, op, d = state
    return {"fill": "none", "stroke-width": str(w), "stroke": str(c), "stroke-opacity": str(op), "stroke-dasharray": str(d)}


def newPlotter(poly=False, keyword=True):
    return Plotter((0, 0, 1000, 1000), poly=poly) if keyword else Plotter((0, 0, 1000, 1000), poly)


class OwnPath(object):
    """A path, and its curves, with points of their own kind."""
    def __init__(self, contour, kind):
        self.kind = kind
        make = {"complex": lambda q: complex(*q), "swapped": lambda q: (q[1], q[0]), "dict": lambda q: {"x": q[0], "y": q[1]}}[kind]
        self.curves = [OwnCurve([make(q) for q in s]) for s in contour]
        self.start = self.curves[0].controlPoints[0]

    def __iter__(self): return iter(self.curves)

    def pointXY(self, q):
        return {"complex": lambda: (q.real, q.imag), "swapped": lambda: (q[1], q[0]), "dict": lambda: (q["x"], q["y"])}[self.kind]()


class OwnCurve(object):
    def __init__(self, points): self.controlPoints = points


def genDrawing(rng):
    contours = [gen.contour(rng, gen.count(rng, (1, 2, 3, 4), 60, .02), orders=rng.choice(((1, 2, 3), (1, 2, 3), (rng.choice((1, 2, 3)),)))) for _ in range(gen.count(rng, (1, 1, 2, 3), 30, .02))]
    pl = gen.points(rng, gen.count(rng, (1, 2, 3, 6), 150))
    if rng.random() < .4: pl.insert(rng.randrange(len(pl) + 1), rng.choice(pl))
    if rng.random() < .3: pl = [p for p in pl for _ in range(rng.choice((1, 1, 2)))]
    return {"contours": contours, "points": pl, "poly": rng.random() < .5, "fill": rng.random() < .4, "close": rng.random() < .5, "color": rng.choice((None, 0, 1, 2, 3, 4)),
            "base": rng.choice((None, 0, 1, 2)), "order": rng.sample(range(4), 4), "defaults": rng.random() < .4,
            "kind": rng.choice((None, None, None, "complex", "swapped", "dict"))}


def checkDrawing(case, mon):
    contours = [asSegments(c) for c in case["contours"]]
    mon.need(len(contours) > 0, "contours")
    for c in contours:
        contourDomain(mon, c, 1e35)
        mon.need(joined(c), "not joined")
    points = pts(case["points"])
    bounded(mon, points, 1e20)
    mon.need(len(points) > 0, "points")
    given = [[list(s) for s in c] for c in contours]
    poly, fill, close = bool(case["poly"]), bool(case["fill"]), bool(case["close"])
    color = None if case["color"] is None else COLORS[case["color"] % 5]
    base = None if case["base"] is None else COLORS[case["base"] % 5]
    p = newPlotter(poly, fill)
    if base:
        p.setFillColor(base); p.setStrokeColor(base); p.setStrokeWidth(3); p.setFillOpacity(.25)
    fills, strokes = p.fillState, p.strokeState
    painted = fillAttributes((color or fills[0],) + fills[1:]) if fill else strokeAttributes((strokes[0], color or strokes[1]) + strokes[2:])
    lined = strokeAttributes((strokes[0], color or strokes[1]) + strokes[2:])
    seen = 0

    def new():
        nonlocal seen
        mon.expect(p.fillState == fills and p.strokeState == strokes, "drawing leaves colours and strokes as they were", got=(p.fillState, p.strokeState), wanted=(fills, strokes))
        elements = elementsOf(mon, p._content[seen:])
        seen = len(p._content)
        return elements

    for what in case["order"]:
        if what == 0:
            if case["defaults"] and close and not fill: p.drawContours(contours, color)
            elif case["defaults"] and close: p.drawContours(contours, color, fill=True)
            else: p.drawContours(contours, color, fill, close)
            elements = new()
            mon.expect(len(elements) == 1, "contours are one path", got=len(elements))
            samePath(mon, elements[0][0], contours, close, "path draws the contours")
            mon.expect(elements[0][1] == painted, "colour, fill and stroke of contours", got=elements[0][1], wanted=painted)
        elif what == 1:
            kind = case.get("kind")
            mon.need(kind in (None, "complex", "swapped", "dict"), "kind")
            paths = [OwnPath(c, kind) for c in contours] if kind else BOutline(contours)
            p.drawPaths(paths, color, fill) if fill or not case["defaults"] else p.drawPaths(paths, color)
            elements = new()
            mon.expect(len(elements) == len(contours), "each curve path is a path", got=len(elements))
            same = [[[(float(x), float(y)) for x, y in s] for s in c] for c in contours] if kind == "complex" else contours
            for (d, attributes), c in zip(elements, same):
                samePath(mon, d, [c], False, "path draws the curves")
                mon.expect(attributes == painted, "colour, fill and stroke of curve paths", got=attributes, wanted=painted)
        elif what == 2:
            p.drawPointsAsSegments(points, color)
            elements = new()
            mon.expect(len(elements) == 1, "points are one path")
            samePath(mon, elements[0][0], [withoutDots([[a, b] for a, b in zip(points, points[1:])]) or [[points[0], points[0]]]], False, "path goes through the points")
            mon.expect(elements[0][1] == lined, "colour and stroke of points", got=elements[0][1], wanted=lined)
        else:
            p.drawCurve(contours[0][0], color)
            elements = new()
            mon.expect(len(elements) == 1, "a curve is one path")
            samePath(mon, elements[0][0], [contours[0][:1]], False, "path draws the curve")
            mon.expect(elements[0][1] == lined, "colour and stroke of a curve", got=elements[0][1], wanted=lined)
    mon.expect(given == contours and points == pts(case["points"]), "what is drawn is kept")
    mon.state(poly, fill, close, color is None, base is None, tuple(len(s) for s in contours[0][:3]))


# ---------------------------------------------------------------- G02
def genAttributes(rng):
    ops = []
    deep = rng.random() < .1
    for _ in range(rng.randint(3, 60 if deep else 25)):
        r = rng.random()
        if deep: r *= .8  # (seldom popped or drawn)
        some = lambda *v: rng.choice((None,) + v)
        if r < .3: ops.append(("pushFill", some(0, 1, 2), some(0, .5, 1, .25), None, None))
        elif r < .6: ops.append(("pushStroke", some(0, 1, 2), some(0, .5, 1), some(0, 1, 2.5), some("2, 1", "5", "0", "3 1 4 1", "none")))
        elif r < .72: ops.append(("popFill", None, None, None, None))
        elif r < .84: ops.append(("popStroke", None, None, None, None))
        else: ops.append((rng.choice(("contours", "filled", "paths", "filledPaths", "segments", "curve", "text", "rings", "dots", "complexRings", "complexDots", "arrow", "skeleton", "hull")), some(0, 1, 2), None, None, None))
    return {"ops": ops, "poly": rng.random() < .5}


SHAPE = [[[(0, 0), (10, 0)], [(10, 0), (10, 20)], [(10, 20), (5, 30), (0, 0)]]]


def checkAttributes(case, mon):
    p = newPlotter(bool(case["poly"]))
    fills, strokes = [p.fillState], [p.strokeState]
    col = lambda c: None if c is None else COLORS[int(c) % 5]
    for op, c, opacity, width, dash in case["ops"]:
        c = col(c)
        if op == "pushFill":
            kw = {k: v for k, v in (("color", c), ("opacity", opacity)) if v is not None}
            p.pushFillAttributes(**kw)
            a, b = fills[-1]
            fills.append((c or a, b if opacity is None else opacity))
            mon.expect(p.fillState == fills[-1], "pushed fill applies", got=p.fillState, wanted=fills[-1])
        elif op == "pushStroke":
            kw = {k: v for k, v in (("width", width), ("color", c), ("opacity", opacity), ("dash", dash)) if v is not None}
            p.pushStrokeAttributes(**kw)
            w, a, b, d = strokes[-1]
            strokes.append((w if width is None else width, c or a, b if opacity is None else opacity, d if dash is None else dash))
            mon.expect(p.strokeState == strokes[-1], "pushed stroke applies", got=p.strokeState, wanted=strokes[-1])
        elif op == "popFill":
            if len(fills) == 1: continue
            p.popFillAttributes()
            fills.pop()
            mon.expect(p.fillState == fills[-1], "popped fill is the one before", got=p.fillState, wanted=fills[-1])
        elif op == "popStroke":
            if len(strokes) == 1: continue
            p.popStrokeAtributes()
            strokes.pop()
            mon.expect(p.strokeState == strokes[-1], "popped stroke is the one before", got=p.strokeState, wanted=strokes[-1])
        else:
            if op in ("contours", "filled"): p.drawContours(SHAPE, c, op == "filled")
            elif op in ("paths", "filledPaths"): p.drawPaths(BOutline(SHAPE), c, op == "filledPaths")
            elif op == "segments": p.drawPointsAsSegments([(0, 0), (1, 2), (3, 4)], c)
            elif op == "curve": p.drawCurve(SHAPE[0][2], c)
            elif op == "text": p.drawText(1, 2, "left", "x")
            elif op == "rings": p.drawPointsAsCircles([(0, 0), (1, 1)], 2, [c or COLORS[0]], fill=False)
            elif op == "dots": p.drawPointsAsCircles([(0, 0), (1, 1)], 2, c and [c, COLORS[1]])
            elif op == "complexRings": p.drawComplexPointsAsCircles([1j, 2], 2, c and [c], fill=False)
            elif op == "complexDots": p.drawComplexPointsAsCircles([1j, 2], 2, c and [c])
            elif op == "arrow": p.drawArrowBetweenPoints((0, 0), (3, 4), c)
            elif op == "skeleton": p.drawSkeleton(Bezier([(0, 0), (1, 2), (3, 3)]), c or COLORS[3], [c or COLORS[4]])
            elif op == "hull": p.drawHull(Bezier([(0, 0), (1, 2), (3, 3), (5, 0)]), .5, c or COLORS[3], c or COLORS[4])
            if op in ("contours", "paths", "segments", "curve", "filled", "filledPaths"):
                _, attributes = elementsOf(mon, p._content[-1:])[0]
                f, (w, a, b, d) = fills[-1], strokes[-1]
                want = fillAttributes((c or f[0], f[1])) if op.startswith("filled") else strokeAttributes((w, c or a, b, d))
                mon.expect(attributes == want, "drawn with the attributes in effect", got=attributes, wanted=want, op=op)
        if op in ("dots", "complexDots", "rings", "complexRings"):
            for f, st in [call[6:8] for call in p.calls[-2:]]:
                mon.expect(st == strokes[-1] if op.lower().endswith("dots") else f == fills[-1], "drawn with the attributes in effect", op=op)
                if op.lower().endswith("dots"): mon.expect(f[1] == fills[-1][1], "drawn with the attributes in effect", op=op)
                else: mon.expect((st[0], st[2], st[3]) == (strokes[-1][0], strokes[-1][2], strokes[-1][3]), "drawn with the attributes in effect", op=op)
        if op == "arrow":
            w, a, b, d = strokes[-1]
            mon.expect(p.calls[-1][8] == (w, c or a, b, "2, 1"), "drawn with the attributes in effect", op=op, got=p.calls[-1])
        mon.expect(p.fillState == fills[-1] and p.strokeState == strokes[-1], "nothing else changes", op=op, got=(p.fillState, p.strokeState), wanted=(fills[-1], strokes[-1]))
        mon.state(op, len(fills), len(strokes))
    while len(fills) > 1:
        p.popFillAttributes(); fills.pop()
        mon.expect(p.fillState == fills[-1], "popped fill is the one before", got=p.fillState, wanted=fills[-1])
    while len(strokes) > 1:
        p.popStrokeAtributes(); strokes.pop()
        mon.expect(p.strokeState == strokes[-1], "popped stroke is the one before", got=p.strokeState, wanted=strokes[-1])


# ---------------------------------------------------------------- G03
def genMarks(rng):
    return {"points": gen.points(rng, gen.count(rng, (1, 2, 3, 5, 7), 150)), "radius": rng.choice((1, 2, 2.5)), "colors": rng.choice((None, [0], [0, 1], [2, 1, 0], [0, 1, 2, 3, 4], [rng.randrange(5) for _ in range(gen.count(rng, (6, 7, 9)))])),
            "fill": rng.random() < .5, "complex": rng.random() < .4, "curve": gen.curve(rng, orders=(1, 2, 3, 3, 4, 5, rng.randint(4, 12))), "t": gen.t(rng), "line": rng.choice((None, 0, 1, 0, 1, -1)), "mark": rng.choice((None, 2, 3)),
            "margin": rng.random() < .5, "arrow": rng.choice((None, 0, 1)), "defaults": rng.random() < .3, "base": rng.random() < .5}


def marksPlotter(case):
    p = newPlotter()
    if case["base"]:
        p.setFillColor(COLORS[4]); p.setFillOpacity(.75); p.setStrokeColor(COLORS[3]); p.setStrokeWidth(2); p.setStrokeOpacity(.25); p.setStrokeDash("7, 3")
    return p


def checkMarks(case, mon):
    points = pts(case["points"])
    curve = pts(case["curve"])
    mon.need(2 <= len(curve) <= 13, "order")
    bounded(mon, points + curve, 1e7)
    t = case["t"]
    mon.need(0 <= t <= 1, "t")
    fill, radius = bool(case["fill"]), case["radius"]
    colors = case["colors"] and [COLORS[int(c) % 5] for c in case["colors"]]
    PM, CS = Engine.PaintMode, Engine.CoordinateSystem
    for method in ("drawPointsAsCircles", "drawComplexPointsAsCircles"):
        p = marksPlotter(case)
        before, strokes = p.fillState, p.strokeState
        z = [complex(x, y) for x, y in points] if case["complex"] or method == "drawComplexPointsAsCircles" else list(points)
        if fill and case["defaults"]: getattr(p, method)(z, radius, colors)
        else: getattr(p, method)(z, radius, colors, fill)
        circles = p.calls
        mon.expect(len(circles) == len(points) and all(c[0] == "circle" for c in circles) and not p._content, "one circle for each point", got=circles)
        for i, (c, (x, y)) in enumerate(zip(circles, points)):
            _, system, cx, cy, r, mode, f, s = c
            mon.expect((cx, cy, r, system) == (x, y, radius, CS.content), "circle around its point", got=c, wanted=(x, y, radius))
            mon.expect(mode == (PM.fill if fill else PM.stroke), "circles are filled or stroked as asked", got=mode)
            want = colors[i % len(colors)] if colors else (before[0] if fill else strokes[1])
            mon.expect((f[0] if fill else s[1]) == want, "circles take the colours in turn", got=(f, s), wanted=want, number=i)
        mon.expect(z == ([complex(x, y) for x, y in points] if z and isinstance(z[0], complex) else points) and colors == (case["colors"] and [COLORS[int(c) % 5] for c in case["colors"]]), "lists given are kept", got=(z, colors))
        mon.expect(p.strokeState == strokes and p.fillState == before, "attributes stay", got=(p.strokeState, p.fillState))
    # text
    p = marksPlotter(case)
    x, y = points[0]
    if case["margin"]: p.drawText(x, y, "center", "Text")
    else: p.drawText(x, y, "center", "Text", margin=False)
    mon.expect([c[:7] for c in p.calls] == [("label", CS.contentMargins if case["margin"] else CS.content, x, y, 0, "center", "Text")], "text at its place", got=p.calls)
    # arrow
    p = marksPlotter(case)
    if case["fill"]: p.setStrokeDash("7, 3")
    color = None if case["arrow"] is None else COLORS[int(case["arrow"]) % 5]
    strokes = p.strokeState
    a, b = points[0], points[-1]
    if color: p.drawArrowBetweenPoints(a, b, color, style="closed", position="start")
    else: p.drawArrowBetweenPoints(a, b)
    mon.expect(len(p.calls) == 1 and p.calls[0][:8] == (("arrow", CS.content) + a + b + (("closed", "start") if color else ("open60", "end"))), "arrow from point to point", got=p.calls)
    mon.expect(p.calls[0][8] == (strokes[0], color or strokes[1], strokes[2], "2, 1") and p.strokeState == strokes, "arrow is dashed, what follows is as before", got=p.calls[0][8])
    # skeleton and hull
    Black, Grey = Color(0, 0, 0), Color(211, 211, 211)
    plain = case["line"] is not None and case["line"] < 0
    line = Grey if case["line"] is None else None if plain else COLORS[int(case["line"]) % 5]
    mark = Black if case["mark"] is None else COLORS[int(case["mark"]) % 5]
    for what in ("skeleton", "hull"):
        p = marksPlotter(case)
        strokes, fills = p.strokeState, p.fillState
        b = Bezier(list(curve))
        kw = {} if case["line"] is None else {"lineColor": line}
        if what == "skeleton":
            marks = [mark]
            if case["mark"] is not None: kw["pointColors"] = marks
            p.drawSkeleton(b, **kw)
            mon.expect(marks == [mark], "lists given are kept", got=marks)
        else:
            if case["mark"] is not None: kw["pointColor"] = mark
            p.drawHull(b, t, **kw)
        mon.expect(p.strokeState == strokes and p.fillState == fills, "attributes stay", got=p.strokeState, what=what)
        mon.expect(pts(b.controlPoints) == curve, "the curve is kept")
        circles = [c for c in p.calls if c[0] == "circle"]
        labels = [c for c in p.calls if c[0] == "label"]
        mon.expect([c[2:4] for c in circles] == curve and all(c[5] == PM.fill and c[6][0] == mark for c in circles), "control points are marked", got=circles)
        mon.expect([c[6] for c in labels] == [f"({round(x, 2)}, {round(y, 2)})" for x, y in curve] and all(c[7][0] == Black for c in labels), "control points are labelled", got=labels)
        mon.expect(all(c[1] == CS.content and abs(c[2] - x) <= 10 and abs(c[3] - y) <= 10 for c, (x, y) in zip(labels, curve)), "labels are near their points", got=labels)
        elements = elementsOf(mon, p._content)
        levels = [curve]
        while what == "hull" and len(levels[-1]) > 2:
            levels.append([tuple(float(F(u[i]) + F(t) * (F(v[i]) - F(u[i]))) for i in (0, 1)) for u, v in zip(levels[-1], levels[-1][1:])])
        mon.expect(len(elements) == len(levels), "a line for each level of the hull", got=len(elements), wanted=len(levels))
        for k, ((d, attributes), level) in enumerate(zip(elements, levels)):
            try:
                paths = svg.parse(d)
            except svg.BadPath as e:
                mon.expect(False, "path is well-formed", error=str(e), text=d)
            mon.expect(len(paths) == 1 and not paths[0][2], "a line for each level of the hull", got=d)
            drawn = [paths[0][0]] + [s[-1] for s in paths[0][1]]
            m = o.magnitude(curve)
            tol = 1e-12 * m
            # points that coincide may be left out
            i = 0
            for q in level:
                if i < len(drawn) and max(abs(drawn[i][0] - q[0]), abs(drawn[i][1] - q[1])) <= tol: i += 1
                else: mon.expect(i > 0 and max(abs(drawn[i - 1][0] - q[0]), abs(drawn[i - 1][1] - q[1])) <= tol, "lines connect the points of the hull", got=drawn, wanted=level)
            mon.expect(i == len(drawn), "lines connect the points of the hull", got=drawn, wanted=level)
            want = strokeAttributes(strokes if plain else (strokes[0], line, strokes[2] if k == 0 else .5, strokes[3]))
            mon.expect(attributes == want, "colour of the hull", got=attributes, wanted=want, level=k)
    mon.state(len(points), fill, bool(case["complex"]), colors and len(colors), len(curve), case["line"] is None, case["mark"] is None)


# ---------------------------------------------------------------- G04
def genPage(rng):
    st = rng.choice(("small", "font", "font", "half", "float", "bigfloat"))
    x, y = gen.point(rng, st), gen.point(rng, st)
    if rng.random() < .2: y = (x[0], y[1]) if rng.random() < .5 else (y[0], x[1])
    return {"bounds": (min(x[0], y[0]), min(x[1], y[1]), max(x[0], y[0]), max(x[1], y[1])), "poly": rng.choice((None, False, True)), "text": rng.random() < .5, "curve": gen.curve(rng, orders=(1, 2, 3, 4))}


def checkPage(case, mon):
    bounds = left, bottom, right, top = tuple(case["bounds"])
    bounded(mon, [(left, bottom), (right, top)], 1e9)
    mon.need(left <= right and bottom <= top, "bounds")
    p = Plotter(bounds) if case["poly"] is None else Plotter(bounds, poly=case["poly"])
    mon.expect([tuple(b) for b in p._boundsAggregator.bounds] == [bounds], "bounds given", got=p._boundsAggregator.bounds)
    m, f = p._contentMargins, p._frameMargins
    across, along = (right - left) // 20, (top - bottom) // 20
    mon.expect((m.left, m.right) == (across, across) and (m.top, m.bottom) == (along, along), "margins around the content", got=(m.left, m.top, m.right, m.bottom), wanted=(across, along))
    mon.expect((f.left, f.top, f.right, f.bottom) == (10, 10, 10, 10), "margins around the frame", got=(f.left, f.top, f.right, f.bottom))
    mon.expect(p.labelFontSize == (along / 2, along / 2), "size of labels", got=p.labelFontSize, wanted=along / 2)
    mon.expect(not p.calls and not p._content, "nothing is drawn yet")
    mon.expect(p.fillState == ("black", 1) and p.strokeState == (1, "black", 1, None), "attributes of the engine", got=(p.fillState, p.strokeState))
    if case["text"]:
        font = p.labelFont
        p.drawText(left, top, "left", "a"); p.drawContours(SHAPE); p.drawPointsAsCircles([(left, top)], 1)
        mon.expect(p.labelFontSize == (along / 2, along / 2) and p.labelFont == font, "drawing keeps the size of labels", got=p.labelFontSize)
        mon.expect([tuple(b) for b in p._boundsAggregator.bounds] == [bounds], "bounds given", got=p._boundsAggregator.bounds)
    curve = pts(case["curve"])
    mon.need(len(curve) > 1, "order")
    bounded(mon, curve, 1e9)
    b = Bezier(list(curve))
    for again in range(2):
        box = b.skeletonBounds
        mon.expect((box.left, box.bottom, box.top) == (min(x for x, y in curve), min(y for x, y in curve), max(y for x, y in curve)), "bounds of the control points", got=box.points)
        near(mon, (box.right, 0), (max(x for x, y in curve) + 40, 0), 1e-15 * (o.magnitude(curve) + 40), "room for labels at the right", again=again)
    p = Plotter(box.points)
    mon.expect([tuple(b) for b in p._boundsAggregator.bounds] == [box.points], "bounds given", got=p._boundsAggregator.bounds)
    mon.state(type(left).__name__, across == 0, along == 0, case["poly"], across > along)


PROPERTIES = [
    Property("S01", lambda rng: {"contours": genOutline(rng)}, checkPen, "streams of pen calls: lines, cubics and quadratic splines of 1-6 points, zero-length lines, open, closed and empty contours; exact model",
             ["contours drawn so far: points", "contours drawn so far: kinds of segments", "contours are joined and closed", "finished contours stay"], quick=48000, thorough=1200000),
    Property("S02", genComponents, checkComponents, "nested composite glyphs with identity, translating, mirroring and general transformations; rational model",
             ["contours of a composite glyph: points", "base glyphs stay as they are", "a component that can't be drawn adds nothing"], quick=18000, thorough=450000),
    Property("C01", genName, checkName, "all keywords of CSS3 in any case, misspelt ones and other text; an independent copy of the table", ["keyword in upper or lower case", "error for an unknown keyword", "nothing for what isn't a keyword"], quick=160000, thorough=4000000, mutations=0),
    Property("C02", genHue, checkHue, "sequences from any hue, interleaved with random colours; the definition of HSL in rational arithmetic", ["colours a fixed step around the colour circle", "the sequence starts again", "random colours use the whole range", "all values occur", "all combinations of components occur alike", "components are equal by chance only"], quick=4800, thorough=120000),
    Property("G01", genDrawing, checkDrawing, "contours, curve paths, points and single curves in any order, with and without repeated commands, fill, closing and colours; the path data is read back by an independent parser",
             ["path draws the contours", "path draws the curves", "path goes through the points", "path draws the curve", "colour, fill and stroke of contours", "drawing leaves colours and strokes as they were"], quick=40000, thorough=1000000),
    Property("G02", genAttributes, checkAttributes, "histories of pushing, popping and drawing; a stack model", ["pushed fill applies", "pushed stroke applies", "popped fill is the one before", "popped stroke is the one before", "drawn with the attributes in effect", "nothing else changes"], quick=40000, thorough=1000000),
    Property("G03", genMarks, checkMarks, "points and complex points, one to five colours, skeletons and hulls of curves; recorded drawing calls", ["circle around its point", "circles take the colours in turn", "control points are marked", "lines connect the points of the hull", "arrow from point to point"], quick=24000, thorough=600000),
    Property("G04", genPage, checkPage, "bounds of any size and place, also without width or height, and those of skeletons; recorded margins and sizes", ["bounds given", "margins around the content", "margins around the frame", "size of labels", "bounds of the control points", "drawing keeps the size of labels"], quick=40000, thorough=1000000),
]
