import enum


class PaintMode(enum.Enum):
    fill = 1
    stroke = 2


class CoordinateSystem(enum.Enum):
    content = 1
    contentMargins = 2
    frame = 3


class Margins(object):
    def __init__(self, left, top, right, bottom):
        self.left, self.top, self.right, self.bottom = left, top, right, bottom


class BoundsAggregator(object):
    def __init__(self):
        self.bounds = []

    def addBounds(self, bounds):
        self.bounds.append(bounds)


class GlyphPlotterEngine(object):
    def __init__(self):
        self._boundsAggregator = BoundsAggregator()
        self._contentMargins = Margins(0, 0, 0, 0)
        self._frameMargins = Margins(0, 0, 0, 0)
        self._fillColor, self._fillOpacity = "black", 1
        self._strokeWidth, self._strokeColor, self._strokeOpacity, self._strokeDash = 1, "black", 1, None
        self._labelFont, self._labelFontSize = None, (0, 0)
        self._content = []
        self._pen = (0, 0)
        self.calls = []  # what was drawn by anything but path elements

    def setContentMargins(self, margins): self._contentMargins = margins
    def setFrameMargins(self, margins): self._frameMargins = margins
    def setLabelFontSize(self, *size): self._labelFontSize = size
    def setFillColor(self, color): self._fillColor = color
    def setFillOpacity(self, opacity): self._fillOpacity = opacity
    def setStrokeWidth(self, width): self._strokeWidth = width
    def setStrokeColor(self, color): self._strokeColor = color
    def setStrokeOpacity(self, opacity): self._strokeOpacity = opacity
    def setStrokeDash(self, dash): self._strokeDash = dash
    def moveToXY(self, x, y): self._pen = (x, y)

    @property
    def fillState(self):
        return (self._fillColor, self._fillOpacity)

    @property
    def strokeState(self):
        return (self._strokeWidth, self._strokeColor, self._strokeOpacity, self._strokeDash)

    def _fillAttributes(self):
        return f"fill='{self._fillColor}' fill-opacity='{self._fillOpacity}'"

    def _strokeAttributes(self):
        return (f"stroke-width='{self._strokeWidth}' stroke='{self._strokeColor}' "
                f"stroke-opacity='{self._strokeOpacity}' stroke-dasharray='{self._strokeDash}'")

    def drawCircle(self, coordinates, x, y, radius, paintMode):
        self.calls.append(("circle", coordinates, x, y, radius, paintMode, self.fillState, self.strokeState))

    def drawLabel(self, coordinates, x, y, angle, alignment, text):
        self.calls.append(("label", coordinates, x, y, angle, alignment, text, self.fillState))

    def drawArrow(self, coordinates, startX, startY, endX, endY, style, position):
        self.calls.append(("arrow", coordinates, startX, startY, endX, endY, style, position, self.strokeState))
