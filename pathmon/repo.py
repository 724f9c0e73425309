"""Imports the code under test from /repo's working tree (never from a copy, unless PATHMON_REPO says so:
that is only for our own mutation experiments)."""
import ast
import glob
import os
import sys

sys.dont_write_bytecode = True
sys.pycache_prefix = "/nonexistent/pathmon"  # never read bytecode that may be older than the source
REPO = os.path.realpath(os.environ.get("PATHMON_REPO", "/repo"))
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, REPO)

import PathLib  # noqa: E402

if os.path.dirname(os.path.realpath(PathLib.__file__)) != os.path.join(REPO, "PathLib"):
    raise SystemExit(f"PathLib was imported from {PathLib.__file__}, not from {REPO}")

from PathLib import Bezier as bezierModule  # noqa: E402
from PathLib import BezierUtilities as butils  # noqa: E402
from PathLib import CurveFitting, MatrixInversion, PathUtilities, SegmentPen as penModule  # noqa: E402
from PathLib.Bezier import BContour, Bezier, BOutline  # noqa: E402
from PathLib.PathUtilities import BoundsRectangle  # noqa: E402
from PathLib.SegmentPen import SegmentPen  # noqa: E402
from PathLib.Transform import Transform  # noqa: E402


def withStubs():
    """Color and ContourPlotter subclass classes of FontDocTools, which isn't installed: use our stand-in."""
    stubs = os.path.join(HERE, "stubs")
    if stubs not in sys.path: sys.path.append(stubs)
    from PathLib import Color, ContourPlotter
    return Color, ContourPlotter


def harvest():
    """The numeric literals of the code under test: a dictionary for the generators (thresholds, limits, ...)."""
    found = set()
    for path in sorted(glob.glob(os.path.join(REPO, "PathLib", "*.py"))):
        if path.endswith("Color.py"): continue
        try:
            tree = ast.parse(open(path, encoding="utf-8").read())
        except SyntaxError:
            continue
        for node in ast.walk(tree):
            if isinstance(node, ast.Constant) and type(node.value) in (int, float) and abs(node.value) < 1e7:
                found.add(node.value)
    return sorted(found)
