class Color(object):
    def __init__(self, red, green, blue):
        for value in (red, green, blue):
            if not isinstance(value, int) or not 0 <= value <= 255: raise ValueError(f"not a colour value: {value}")
        self._red, self._green, self._blue = red, green, blue

    @property
    def components(self):
        return (self._red, self._green, self._blue)

    def __eq__(self, other):
        return isinstance(other, Color) and self.components == other.components

    def __hash__(self):
        return hash(self.components)

    def __str__(self):
        return "#%02X%02X%02X" % self.components

    __repr__ = __str__
