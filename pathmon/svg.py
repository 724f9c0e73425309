"""A small, independent reader of SVG path data (absolute M, L, H, V, Q, C and Z)."""
import re

NUMBER = re.compile(r"[+-]?(?:\d+\.?\d*|\.\d+)(?:[eE][+-]?\d+)?")
COUNT = {"M": 2, "L": 2, "H": 1, "V": 1, "Q": 4, "C": 6, "Z": 0}


class BadPath(Exception):
    pass


def tokens(text):
    i = 0
    while i < len(text):
        c = text[i]
        if c in " ,\t\n":
            i += 1
        elif c.isalpha():
            yield c
            i += 1
        else:
            m = NUMBER.match(text, i)
            if not m: raise BadPath(f"unexpected {text[i:i + 20]!r}")
            yield float(m.group())
            i = m.end()


def parse(text):
    """[(segments, closed)] for every subpath. A segment is a list of two to four points."""
    paths, segments, closed, pen, start, command, args = [], None, False, None, None, None, []

    def finish():
        nonlocal segments, closed
        if segments is not None: paths.append((start, segments, closed))
        segments, closed = None, False

    def execute():
        nonlocal pen, start, segments, command, args
        a, args = args, []
        if command == "M":
            finish()
            pen = start = (a[0], a[1])
            segments = []
            command = "L"  # more coordinates are lines
            return
        if segments is None: raise BadPath("no moveto")
        if command == "H": q = [(a[0], pen[1])]
        elif command == "V": q = [(pen[0], a[0])]
        else: q = [(a[i], a[i + 1]) for i in range(0, len(a), 2)]
        segments.append([pen] + q)
        pen = q[-1]

    fresh = False
    for token in tokens(text):
        if isinstance(token, str):
            if args or fresh: raise BadPath("missing numbers")
            if token not in COUNT: raise BadPath(f"command {token}")
            if token == "Z":
                if segments is None or closed: raise BadPath("nothing to close")
                closed = True
                pen = start
                command = None
            else:
                if closed and token != "M": raise BadPath("no moveto after closing")
                command, fresh = token, True
        else:
            if command is None: raise BadPath("number without command")
            args.append(token)
            fresh = False
            if len(args) == COUNT[command]: execute()
    if args or fresh: raise BadPath("missing numbers")
    finish()
    return paths
