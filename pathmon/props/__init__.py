import importlib

PROPERTIES = {}
for name in ("curves", "crossings", "shaping", "contours", "planes", "algebra", "glyphs", "pipeline"):
    for prop in importlib.import_module("." + name, __name__).PROPERTIES:
        assert prop.id not in PROPERTIES
        PROPERTIES[prop.id] = prop
