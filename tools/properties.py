"""Writes properties.jsonl and MANIFEST.json. Run it after a change here: python3 tools/properties.py"""
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, text, why, files, mechanisms, observe=(), note=""):
    P.append(dict(id=id, title=title, statement=statement, quantifier={"over": over, "text": text}, why_tests_cant=why,
                  anchors={"files": files, "mechanism": [{"name": n, "where": w} for n, w in mechanisms], "observe_at": list(observe), "hook_needed": None}, note=note))


BZ, BU, PU, TR, CF, MI, SP, CO, CP = ["PathLib/" + n + ".py" for n in ("Bezier", "BezierUtilities", "PathUtilities", "Transform", "CurveFitting", "MatrixInversion", "SegmentPen", "Color", "ContourPlotter")]
NONE = "No test touches curves at all; "

prop("B01", "A curve's points and its construction polygon follow the Bernstein form",
     "For a Bézier curve of any order from 1 up and any t in [0, 1], the point at t equals the Bernstein combination of the control points up to rounding, exactly the first control point at 0 and exactly the last at 1; the midpoint is the point at one half. "
     "The hull at t lists the control points, then every level of de Casteljau's interpolation at t, ending with the point at t. Order, start and end are those of the control points given.",
     ["inputs"], "all control polygons of order 1-8 with coordinates up to 1e7, all t in [0, 1]", NONE + "the formulas have separate branches for each order and for t of 0 and 1, and must hold for every polygon and t.",
     [BZ, BU], [("_compute, one branch per order", BZ), ("hull", BZ), ("lerp", BU)], ["Bezier.get", "Bezier.hull", "Bezier.midpoint"])
prop("B02", "Derivatives and normals are those of the curve",
     "For a curve of any order, the derivative levels are the scaled difference polygons of the control points, down to a single vector. "
     "The normal at any t in [0, 1] where the curve moves is the unit vector a quarter turn anticlockwise from the direction of travel. Where a handle has no length, the direction at that end is the one towards (or from) the next control point that differs from it.",
     ["inputs"], "all control polygons of order 1-6, all t in [0, 1], retracted handles included", NONE + "the normal depends on the order, on t, and on which control points coincide.",
     [BZ], [("dcPoints", BZ), ("_derivative", BZ), ("normal", BZ)], ["Bezier.dcPoints", "Bezier.normal"])
prop("B03", "Splitting a curve gives exactly its parts",
     "Splitting a quadratic or cubic at t gives two curves of the same order that trace, up to rounding, its part before and its part after t, meet in the same point, and keep its end points, with the hull at t. "
     "Splitting it between two parameters 0 <= t1 < t2 <= 1 gives the part between them, also for parts of parts. The curve itself stays as it is.",
     ["inputs", "histories"], "all quadratics and cubics, all t and all pairs t1 < t2, including 0 and 1, and sequences of splits", NONE + "the answer must be right for every parameter, with shortcuts at 0 and 1, and errors of repeated splitting must not accumulate.",
     [BZ], [("split", BZ), ("hull", BZ), ("map", BU)], ["Bezier.split", "every split made by reduce"])
prop("B04", "Raising the order doesn't change the curve",
     "Raising the order of a curve of any order gives a curve with one more control point, the same end points, and the same point at every t, up to rounding; so does raising it several times.",
     ["inputs", "histories"], "all curves of order 1-6, raised 1-4 times", NONE + "it must hold for every order and polygon.", [BZ], [("raiseOrder", BZ)], ["Bezier.raiseOrder"])
prop("B05", "Extrema are the turning points, and none is missed",
     "For lines, quadratics and cubics, each parameter reported as an extremum of x or of y is in [0, 1] and is, up to rounding, a zero of that coordinate's first derivative or, for cubics, of its second. "
     "Every clear turning point of a coordinate inside (0, 1) is reported. The combined list has the parameters of both, in ascending order, without duplicates.",
     ["inputs"], "all lines, quadratics and cubics with coordinates up to 1e7", NONE + "root formulas lose precision for particular coefficients, which no sample finds.",
     [BZ, BU], [("extrema", BZ), ("droots, quadraticRoots", BU)], ["Bezier.extrema"])
prop("B06", "Bounds of a curve are tight, and overlap is decided by them",
     "For lines, quadratics and cubics, the bounds are the smallest axis-parallel rectangle around the curve, up to rounding, and the tight box is the smallest rectangle around it that is parallel to its chord. "
     "Two curves overlap if and only if their bounds have a point in common, touching included.",
     ["inputs"], "all lines, quadratics and cubics with coordinates up to 1e7, and pairs of them", NONE + "a box that is too small by one extremum, or too large, is only seen with particular curves.",
     [BZ, PU], [("bbox, _getminmax, boundsRectangle", BZ), ("tightbbox, _align", BZ), ("overlaps", BZ)], ["Bezier.boundsRectangle", "Bezier.bbox", "Bezier.tightbbox", "Bezier.overlaps"])
prop("B07", "Arc length is right, whatever the decimal settings, which it keeps",
     "The length of a curve of order 1 to 5, with coordinates that are floats, whole numbers or Decimals, is its arc length, as precisely as 24-point Gaussian quadrature can be, rounded to the decimal precision that is current when it is asked for, whatever rounding mode is set and whatever the settings were when it was asked for before, and is never negative. "
     "Asking for it, once or repeatedly, leaves the decimal settings of the caller as they were.",
     ["inputs", "configurations"], "all curves of order 1-5, decimal precisions 9-60, three rounding modes", NONE + "it changes global decimal settings on the way, and must be right for any.",
     [BZ, BU], [("length, _arcfun", BZ), ("tValues, cValues", BU)], ["Bezier.length", "decimal.getcontext()"])
prop("B08", "Roots are the crossings with a line, all of them",
     "For quadratics and cubics that don't lie on the line, each root with respect to a line (by default the x axis) is in [0, 1], give or take 2e-6, and the point of the curve there is on the infinite line within 1e-6 plus rounding. "
     "Every transversal crossing in [0, 1] is among the roots, and there are no more roots than the order.",
     ["inputs"], "quadratics and cubics of size 1 to 20000, lines at least 1% of that long", NONE + "the cubic formula has six branches selected by thresholds on coefficients.",
     [BZ, BU], [("roots", BZ), ("quadraticRoots, crt, sqrt", BU)], ["Bezier.roots"])
prop("B09", "Intersections with line segments are found and no others",
     "For quadratics and cubics, the parameters of the intersections with a segment are exactly those of the curve's transversal crossings with its line that lie between its ends, up to 1e-6 plus rounding. "
     "A curve's single intersection with an infinite line is a point on both if they cross transversally, and none if they stay apart; for two straight lines it is where they cross, and none if they are parallel.",
     ["inputs"], "lines, quadratics and cubics, segments that cross, end before, miss or touch", NONE + "it depends on the position of the segment's ends along the line.",
     [BZ, BU], [("lineIntersects", BZ), ("intersectWithLine", BZ), ("between, lli", BU)], ["Bezier.lineIntersects", "Bezier.intersectWithLine"])
prop("B10", "Intersections of two curves are near both, and none is missed",
     "For quadratics and cubics whose speed doesn't come near zero (at least 5% of the largest), each reported pair of parameters is in [0, 1] and gives points of the two curves that are closer (in x plus y) than twice the threshold. "
     "Every crossing at a clear angle is reported to within twice the threshold, for any threshold.",
     ["inputs"], "pairs of regular quadratics and cubics up to 5000 units in size, thresholds 0.05-5", NONE + "the search divides both curves and discards parts; whether a crossing is lost depends on where it is.",
     [BZ], [("intersects, curveIntersects, pairiteration", BZ), ("reduce", BZ), ("overlaps", BZ)], ["Bezier.intersects"])
prop("B11", "Loops are found, and curves without them aren't reported",
     "For cubics and quadratics whose speed doesn't come near zero, each reported self-intersection is a pair of parameters in [0, 1] whose points are closer than twice the threshold. "
     "The double point of a cubic with a loop that is clearly larger than the threshold is reported. If all parts that aren't neighbours stay apart by more than the threshold, nothing is reported.",
     ["inputs"], "regular quadratics and cubics, with and without loops, thresholds 0.05-5", NONE + "whether a loop is found depends on how the curve is divided.",
     [BZ], [("selfIntersects", BZ), ("intersects(None)", BZ)], ["Bezier.selfIntersects", "Bezier.intersects"])
prop("B12", "Reducing gives simple, monotone pieces that make up the curve",
     "A quadratic or cubic whose speed doesn't come near zero is always reduced to at least one piece; the pieces are of the same order, follow each other without gaps from its start to its end, and each is the part of the curve it stands for, up to rounding. "
     "Each piece is monotone in x and in y. Up to its last 1% of parameter, each piece bends by less than 60 degrees and, if cubic, has both handles on one side of its chord.",
     ["inputs"], "regular quadratics and cubics of size 1 to 20000", NONE + "the search for pieces works in steps and must cover every curve.",
     [BZ], [("reduce", BZ), ("simple", BZ), ("split", BZ), ("extrema", BZ)], ["Bezier.reduce"])
prop("B13", "A curve is simple if it bends less than 60 degrees to one side",
     "A quadratic or cubic that isn't straight is simple if and only if the angle between its directions at the two ends is less than 60 degrees and, for a cubic, both handles are on the same side of its chord.",
     ["inputs"], "quadratics and cubics that clearly aren't straight", NONE + "it holds for all positions of the handles.", [BZ, BU], [("simple", BZ), ("angle", BU)], ["Bezier.simple"])
prop("B14", "Offset curves run at the distance, on the right side",
     "The offset at t by d is the point of the curve, its unit normal, and the point moved by d along it, also for d of 0. The offset of a straight curve by d is the curve moved by d along its normal. "
     "For quadratics and cubics without near stops, and d up to 0.6 times the smallest radius of curvature, the offset is one curve of the same order for each simple piece, joined end to end, with ends exactly at the distance, tangents kept (at both ends for cubics, at the start for quadratics), and in between at the distance within a few percent on the side that the sign of d says.",
     ["inputs"], "lines, quadratics, cubics; distances of both signs", NONE + "side and distance depend on the orientation of every piece.",
     [BZ], [("offset", BZ), ("scale", BZ), ("reduce", BZ), ("normal", BZ)], ["Bezier.offset"])
prop("B15", "Scaling moves ends along the normals and handles on their rays",
     "Scaling a simple curve that is neither straight nor closed by a constant moves its ends by that distance along their normals, and its inner control points along the rays from the point where the end normals meet so that the end tangents are kept (the start tangent for quadratics). "
     "With a function of t (anything that can be called), the ends move along their normals by its values at 0 and 1, and the inner control points (of the raised cubic if it is quadratic) along the rays by its values at one third and two thirds, positive to the side of the normal.",
     ["inputs"], "simple quadratics and cubics of both orientations, constants and functions of both signs", NONE + "it depends on the orientation of the curve and on the sign of the distance.", [BZ, BU], [("scale", BZ), ("offset", BZ), ("lli4", BU)], ["Bezier.scale"])
prop("B16", "The ABC points satisfy the projection identity",
     "For quadratics and cubics and t in [0, 1], B is the point at t, A is the apex of the last triangle of the construction polygon at t (the middle control point for quadratics), and the hull is that at t. "
     "The ratio is |(t^n + (1-t)^n - 1) / (t^n + (1-t)^n)| for order n. Where the line through A and B crosses the chord at a clear angle, C is that crossing, and the distance BC is the ratio times AB.",
     ["inputs"], "all quadratics and cubics, all t in [0, 1]", NONE + "it is an identity in the control points and t.", [BZ, BU], [("getABC", BZ), ("quadraticRatio, cubicRatio", BU), ("lli4", BU)], ["Bezier.getABC"])
prop("B17", "Aligning is a rigid motion onto the x axis; direction is that of y",
     "Aligning a curve moves and rotates it, without distortion, so that the start of the given segment (by default the curve's own chord) goes to the origin and its end to the positive x axis. "
     "The direction of a line is flat, up or down by its y coordinates; that of a quadratic or cubic is up if no control point is lower than the one before, otherwise down if none is higher, otherwise mixed.",
     ["inputs"], "curves of order 1-4, segments in all directions", NONE + "it must hold in all quadrants.", [BZ, TR, PU], [("align, _align", BZ), ("_computeDirection", BZ), ("moveAndRotate", TR), ("rawSlopeAngle", PU)], ["Bezier.align", "Bezier.direction"])
prop("B18", "Queries don't change curves, and answers don't depend on earlier ones",
     "Whatever sequence of queries has been asked of a set of curves, however they came about (built, taken from a contour, or split off, reduced, raised, aligned, scaled or offset from a curve, whether that had been asked before or not), and whatever was asked (points, normals, extrema, bounds, tables of any size, length, splitting, reducing, intersecting, offsetting, and so on), each answer is the one a fresh curve with the same control points gives, and is the same when asked again. "
     "No query changes the control points of any curve, the lists that were given, or an answer given before.",
     ["histories"], "sequences of up to 40 queries of 38 kinds on up to four curves, and of curves made from them in between", NONE + "cached answers may be stale, shared or changed by their users after particular histories only.",
     [BZ], [("_dcPoints, _extrema, _length, _bbox, _boundsRectangle, _lut caches", BZ)], ["all public queries of Bezier"])

prop("N01", "An edited contour answers as one built afresh",
     "After any sequence of replacing and deleting curves of a contour, interleaved with questions about its bounds, start, end, lookup tables of various sizes, closest points, path string and curves, every answer is the one that a contour newly built from the present curves gives. "
     "If it belongs to an outline, the outline's bounds are those of its present contours, and its other contours don't change, nor do contours built from its curves before an edit. An impossible edit (an index out of range, or something that isn't a curve) is an error and changes nothing. The lists from which the contour was built, and tables and bounds handed out before an edit, stay as they are.",
     ["histories"], "up to 13 edits and queries on contours of up to 5 curves, negative indices included, of a contour of an outline", NONE + "stale caches appear only after particular orders of edits and queries.",
     [BZ], [("BContour.__setitem__, __delitem__, _beziersChanged", BZ), ("BContour.getLUT", BZ)], ["all public methods of BContour"])
prop("N02", "Lookup tables sample at equal steps and join seamlessly",
     "A table with n steps (2 or more, 100 by default) of a curve has the n points at t = 0, 1/(n-1), ..., 1. For a contour of joined curves it has the tables of its curves one after the other, with the points where they join only once. "
     "This holds for any sequence of sizes asked of the same object, and tables handed out earlier stay as they are.",
     ["inputs", "histories"], "curves and contours of up to 8 curves, sequences of table sizes 2-400", NONE + "tables are cached, so an answer may depend on the one before.", [BZ], [("Bezier.getLUT", BZ), ("BContour.getLUT", BZ)], ["getLUT of curves and contours"])
prop("N03", "The closest point is on the contour and as close as claimed",
     "For any point and any number of steps from 2, the closest point of a contour of joined curves is a point of the contour, the distance reported with it is its distance, and it is no farther away than any entry of the lookup table with that many steps. "
     "If the true closest point is next to the closest entry of that table on the contour, and the distance falls and then rises around it, the distance found exceeds the true one by at most the length that 0.2% of the parameter range can cover.",
     ["inputs"], "contours of 1-5 lines, quadratics and cubics, points anywhere, 2-300 steps", NONE + "the index arithmetic has cases for the first curve, the others and the joints.", [BZ], [("findClosestPoint, _findClosest, _refineBinary", BZ)], ["BContour.findClosestPoint"])
prop("N04", "The path string of a contour draws exactly that contour",
     "The path string of a contour of joined lines, quadratics and cubics is well-formed SVG path data that, when read, starts at the contour's start and has exactly its curves in order with exactly its coordinates, except that lines of no length may be left out.",
     ["inputs"], "contours of up to 8 curves, runs of one kind, vertical and horizontal lines, coordinates from 1e-12 to 1e20", NONE + "abbreviated commands depend on the command before and on equal coordinates.", [BZ], [("BContour.d, getCommand, pointToString", BZ)], ["BContour.d"])
prop("N05", "Contours and outlines have the bounds and curves of their parts",
     "An outline has its contours, and a contour its curves, in the order given, by iteration and by index, and a contour built from those curves is the same. "
     "The start and end of a contour are those of its first and last curve, and the bounds of a contour or outline are the smallest rectangle around all its curves (not their control points), up to rounding; those of an outline without contours are empty.",
     ["inputs"], "outlines of 0-5 contours of lines, quadratics and cubics", NONE + "it holds for all nestings, including none.", [BZ, PU], [("BContour, BOutline", BZ), ("pathFromSegments, segmentFromPoints, unzipPoints", BZ), ("union", PU)], ["BOutline", "BContour"])

prop("U01", "Bounds enclose exactly the points given, and measure right",
     "The bounds of points, of a contour's points, and of several contours' points are exactly the smallest and largest coordinates, for values of any size, and those of nothing are empty (left beyond right, bottom above top); flattening contours keeps all their segments in order. "
     "Width, height, area, diagonal, centre, the coordinate at any fraction from the left or bottom, and the text follow from the edges. The rectangle's contour has four lines going once around it clockwise from the bottom left corner. All this also holds after its edges are moved.",
     ["inputs"], "0-8 points, nested contours, coordinates up to 1e12", "No test covers rectangles; bounds must hold for every set of points, of any size.", [PU], [("BoundsRectangle", PU), ("fromContour, fromCoutours, flatten", PU)], ["BoundsRectangle"])
prop("U02", "Union, intersection and relations of rectangles are exact",
     "The union of two rectangles is the smallest around both, with empty ones having no effect; their intersection is what they have in common, which may be a line or a point, and nothing if they are apart. "
     "A rectangle encloses a point or another rectangle (or crosses an x or y) if it lies within, edges included; the relation of two rectangles is enclosing (also when equal), else enclosed, else intersecting if they have a common point, else separate. The operands stay as they are, and answers are those for the present edges if they are moved.",
     ["inputs"], "all pairs from triples of rectangles, points and lines, with coinciding edges, and empty ones", "No test covers rectangles; equal and touching edges matter.", [PU], [("union, intersection, relationTo, encloses, enclosesPoint, crossesX, crossesY", PU)], ["BoundsRectangle"])
prop("U03", "Measurements of segments follow from their end points",
     "For a segment given as pairs or as complex numbers, the end points, deltas, length, midpoint, slope (rise over run, infinite if vertical), direction in degrees anticlockwise from the x axis (-180 to 180), and angle from vertical (0 to 90 degrees) are those of the line from its first to its last point, up to rounding. "
     "It is a vertical, horizontal or diagonal line if it has two points and no run, no rise, or both. Conversion to thousandths of the em and the ordering of two values are exact up to rounding.",
     ["inputs"], "segments of 2-4 points in all directions, of coordinates up to 1e15", "The tests measure five segments; signs, verticals, complex points and lengths of zero aren't covered.", [PU, CF], [("length, slope, slopeAngle, rawSlopeAngle, midpoint, endPoints, getDeltas, is...Line, minMax, toMicros", PU), ("dist", CF)], ["PathUtilities functions"])
prop("U04", "Line segments intersect where they cross, and nowhere else",
     "The intersection of two segments of non-zero length is the crossing point of their lines, up to rounding, if it lies within the bounds of both, touching ends included; it is none if it lies outside of either by more than 0.0000012, or if they are parallel. "
     "The order of the segments doesn't matter, and the crossing of the two infinite lines is found unless they are parallel.",
     ["inputs"], "pairs of segments, crossing, touching, parallel, vertical, horizontal, apart; coordinates up to 1e6", "The tests try four pairs of lines.", [PU, BU], [("intersectionPoint", PU), ("lli, lli4, lli8, between", BU)], ["PathUtilities.intersectionPoint", "BezierUtilities.lli"])
prop("U05", "A point is on a segment if and only if it is",
     "For whole-number coordinates up to a million, a point is reported to be on a line segment if and only if it is exactly on it, both ends included, in both directions of the segment. "
     "The same holds for vertical and horizontal segments, for end points, and for points outside of the segment's bounds, with any coordinates.",
     ["inputs"], "segments and points with whole-number coordinates up to 1e6, and straight ones with any", "The tests try a few points on two lines.", [PU], [("pointOnLine", PU)], ["PathUtilities.pointOnLine"])
prop("U06", "Interpolation, mapping, cube roots, duplicates and angles are right",
     "Interpolating between two points by r gives the point at that fraction; mapping a value from one range (ascending or descending) to another is linear and takes ends to ends; the cube root has the sign of its argument, and its cube is the argument. "
     "Removing duplicates keeps the first of each value in order and leaves the list given as it is. The angle at a point from one direction to another is signed, anticlockwise positive, between -pi and pi, and 0 if either has no length.",
     ["inputs"], "numbers up to 1e9 of both signs, ranges in both directions", "No test covers them.", [BU], [("lerp, map, crt, removeDuplicates, angle", BU)], ["BezierUtilities functions"])
prop("U07", "Roots of lines and parabolas, ratios and comparisons with a tolerance are right",
     "Two numbers are approximately equal if they differ by at most the precision (0.000001 by default), and one is between two others if it is not outside of them by more than that. The square root is NaN for a negative number. "
     "The roots found for a polynomial of degree 1 or 2, given by its two or three Bernstein coefficients (in a list that is kept), are all its real roots, also those outside [0, 1], up to rounding; what isn't finite stands for none, and there are none for other numbers of coefficients. "
     "The quadratic and cubic projection ratios for t in [0, 1] are |(s - 1) / s| for the sum s of the powers, 2 or 3, of t and 1 - t.",
     ["inputs"], "numbers up to 1e12 of both signs, also differing by about the precision; coefficients of all signs and scales", "No test covers them, though intersections, extrema and bounds all rest on them.", [BU], [("approximately, between, sqrt, droots, quadraticRatio, cubicRatio", BU)], ["BezierUtilities functions"])

prop("T01", "Each elementary transform has its documented effect",
     "Translating from one point to another adds their difference; scaling multiplies x and y by their factors; shearing adds sx times y to x and sy times x to y; mirroring about the x axis negates y, and about the y axis x; rotating turns about the origin by the degrees, anticlockwise unless asked otherwise; a perspective transform divides by px + qy + s. "
     "This holds for all arguments, up to rounding. Without arguments, scaling, shearing, mirroring and perspective have no effect, and rotating is a quarter turn anticlockwise.",
     ["inputs"], "all six kinds, all signs and axes, any degrees, points up to 1e7", "The tests check eleven fixed results of applying transforms.", [TR], [("_matrix and the matrices built with it", TR), ("applyToPoint", TR), ("sin, cos", TR)], ["Transform constructors", "Transform.applyToPoint"])
prop("T02", "Composed transforms act one after the other",
     "The matrix of a transform composed of several is their product in the order given, and its effect on any point that isn't taken near infinity is that of applying them one after the other, first to last, perspective ones included. "
     "Products of matrices, and of rows and matrices, are exact for whole numbers, and the matrices multiplied, also a matrix with itself, stay as they are.",
     ["inputs"], "chains of 1-6 transforms of six kinds", "The tests compose a few fixed pairs.", [TR], [("multiplyRowByMatrix, multiplyMatrixByMatrix, concatenateMatrices", TR)], ["Transform"])
prop("T03", "Transforms about a point leave it fixed and act around it",
     "Rotating about a point, mirroring around a point and perspective from a point leave that point where it is, and act on the difference of other points to it as the elementary transform does. "
     "Moving and rotating first moves, then rotates about the origin; rotating and moving first rotates about the origin, then moves. Without further arguments, rotating about a point is by 90 degrees anticlockwise, and mirroring around one and perspective from one have no effect.",
     ["inputs"], "all pivots, angles, directions and axes", "The tests use one pivot for each.", [TR, PU], [("rotationAbout, mirrorAround, perspectiveFrom, moveAndRotate, rotateAndMove", TR), ("rotatePointAbout", PU)], ["Transform", "PathUtilities.rotatePointAbout"])
prop("T04", "Transforming shapes maps every point and keeps their structure",
     "Applying a transform to a segment, a contour or a list of contours, or rotating one about a point, gives the same structure with each point mapped as a single point is, and leaves both the shape given and the transform as they were. "
     "The curve through the mapped control points is the mapped curve for affine transforms.",
     ["inputs"], "0-3 contours of 1-3 segments of 2-4 points, affine chains, rotations", "The tests transform one contour.", [TR, PU], [("applyToSegment, applyToContour, applyToContours", TR), ("rotateSegmentAbout, rotateContourAbout, rotateContoursAbout", PU)], ["Transform", "PathUtilities"])

prop("M01", "Matrix inversion gives the inverse, or none if there isn't one",
     "The inverse of a square matrix of any number of rows that isn't ill-conditioned is found up to rounding, whatever its zeros and tiny elements. "
     "There is none for a matrix that isn't square, or that has a row or column of zeros or two equal columns. The matrix given stays as it is.",
     ["inputs"], "matrices of 1-6 rows with condition up to 1e9: whole, fractional, permutations, tiny pivots, singular, not square", "The tests invert a single matrix.", [MI], [("matrixInvert, pivoting", MI)], ["MatrixInversion.matrixInvert"])
prop("F01", "Matrix products, transposes, binomials and basis matrices are exact",
     "For whole-number matrices of all matching shapes, the product and the transpose are exact, and so are their rows and columns, and the matrices stay as they are. "
     "Binomial coefficients are exact for any n and 0 <= k <= n, in whatever order they are asked for, and the basis matrix for n points holds the coefficients of the Bernstein polynomials of order n-1 in powers of t. The matrix of powers of time values, and its transpose, have the powers 0 to n-1 of each.",
     ["inputs", "histories"], "matrices up to 6x6, n up to 120 (basis matrices up to 20)", "The tests multiply two pairs and transpose one matrix.", [CF], [("multiply, transpose, row, col, binomial, basisMatrix, formTMatrix, raiseRowPower", CF)], ["CurveFitting functions"])
prop("F02", "Fitted curves pass through their points, or are least squares",
     "Fitting a curve to 2 to 5 points that aren't too close gives as many control points, and a curve that passes through each point at its time value, in order, time values going from 0 to 1 in proportion to the distances along the points by default, or in equal steps. "
     "Fitting fewer control points than there are points gives the curve with the least sum of squared distances at the time values, and the points stay as they are.",
     ["inputs"], "2-5 points and up to 4 more for least squares, both kinds of time values", "No test fits a curve.", [CF, MI], [("fit, bestFit, computeTimeValues", CF), ("matrixInvert", MI)], ["CurveFitting.fit", "CurveFitting.bestFit", "CurveFitting.computeTimeValues"])

prop("S01", "A glyph's pen calls become its closed contours, segment by segment",
     "For each contour drawn with moves, lines, cubic curves (three points) and quadratic splines of any number of points, and closed, the pen adds one contour whose segments are, in order: lines, except those of no length; curves as given; for splines, one quadratic for each off-curve point, with the implied on-curve points halfway between successive ones; and a closing line only if the contour doesn't end where it starts. "
     "Contours without segments aren't added, closing again right after closing adds nothing, and contours finished earlier, or of other pens, aren't changed.",
     ["inputs", "histories"], "outlines of 0-3 contours of 0-5 calls, splines of 1-6 points, coinciding points", "No test covers the pen.", [SP], [("moveTo, lineTo, curveTo, qCurveTo, closePath", SP)], ["SegmentPen.contours"])
prop("S02", "Components are drawn transformed, at any depth, and leave base glyphs alone",
     "Drawing a composite glyph adds to its own contours those of each component, in order, every point (x, y) mapped by the component's transformation (xx, xy, yx, yy, dx, dy) to (xx*x + yx*y + dx, xy*x + yy*y + dy), also for components that are composite themselves. "
     "Drawing one doesn't change what drawing the base glyph gives. A component that doesn't exist, or fails while it is drawn, is an error and adds nothing.",
     ["inputs"], "2-4 glyphs nested up to three deep; identity, offsets, mirroring, scaling and general transformations", "No test covers the pen.", [SP, TR], [("addComponent", SP), ("applyToContours", TR)], ["SegmentPen.contours"])
prop("C01", "Every CSS colour keyword gives its colour, and nothing else does",
     "Each of the 147 colour keywords of CSS3 gives, in any mixture of upper and lower case, the red, green and blue that the standard defines. "
     "Any other word of letters only (in any script) is a value error, and text with anything but letters (or none) gives no colour.",
     ["inputs"], "all keywords in any case, misspellings, other text", "No test covers colours.", [CO], [("_keywords, _forKeyword, fromName", CO)], ["Color.fromName"])
prop("C02", "Generated colours go around the colour circle; random ones are random",
     "After setting the current hue to h (0 by default), the k-th generated colour has hue h + 73k degrees, at 50% saturation and 50% lightness, rounded to whole components, no matter which random colours are asked for in between. "
     "Random colours have independent components that use the whole range from 0 to 255.",
     ["histories", "inputs"], "sequences of 1-60 colours from any hue", "No test covers colours.", [CO], [("randomHSLColor, setCurrentHue, randomRGBColor", CO)], ["Color.randomHSLColor", "Color.randomRGBColor"])
prop("G01", "Drawn paths are exactly the contours, curves and points given",
     "With and without abbreviating repeated commands, drawing contours adds one path element with well-formed path data that, when read, has exactly the given curves and coordinates (lines of no length may be left out), each contour closed if and only if asked; drawing curve paths adds one unclosed path for each, with the coordinates that the path's pointXY gives for its points; drawing points connects them by lines, and drawing a curve adds that curve. "
     "Contours and curve paths are filled or stroked as asked (by default contours are stroked and closed, and curve paths stroked), everything else is stroked; the colour is the one given, or the present one, other attributes are the present ones, and all are afterwards as before.",
     ["inputs", "configurations"], "1-3 contours of lines, quadratics and cubics, with and without poly, fill, close and colour, in any order", "No test covers drawing.", [CP], [("drawContours, drawPaths, drawPointsAsSegments, drawCurve, getCommand", CP)], ["path elements added to the content"])
prop("G02", "Pushed drawing attributes apply, and popping restores those before",
     "Pushing fill attributes (colour, opacity) or stroke attributes (width, colour, opacity, dash) sets those given, zeros included, and keeps the others; popping restores those from before the matching push, fills and strokes independently, at any depth. "
     "Drawing contours, paths, points, curves, circles and arrows uses the attributes in effect, but the given colour, and drawing these, text, skeletons and hulls leaves the attributes as they were.",
     ["histories"], "up to 25 pushes, pops and drawings", "No test covers drawing.", [CP], [("pushFillAttributes, popFillAttributes, pushStrokeAttributes, popStrokeAtributes", CP)], ["attributes of the plotting engine"])
prop("G03", "Points, skeletons, hulls, text and arrows are drawn where they belong",
     "Drawing points, real or complex, as circles draws one for each, in order, at the point with the radius, filled or stroked as asked, taking the given colours in turn; the lists of points and colours stay as they are. The skeleton of a curve is its control polygon in the line colour with its control points marked in the point colours and labelled with their coordinates rounded to two places; its hull at t adds every further level of de Casteljau's interpolation but the last point, at half opacity, all with the present attributes otherwise; with None for the line colour, the lines have the present attributes. "
     "Text goes to its place within the margins or the content as asked, and an arrow goes from its start to its end, dashed, which nothing after it is unless it was before.",
     ["inputs"], "1-7 points, 0-5 colours, lines, quadratics and cubics, all t", "No test covers drawing.", [CP, BZ], [("drawPointsAsCircles, drawComplexPointsAsCircles, drawSkeleton, drawHull, drawText, drawArrowBetweenPoints", CP), ("hull", BZ)], ["recorded calls of the plotting engine"])

prop("G04", "A new plotter makes room for its bounds",
     "A new plotter is given the bounds (left, bottom, right, top) of what is to be drawn: they are the only ones it tells the engine, with margins around the content of a twentieth of their width at the left and right, and of their height at the top and bottom, each rounded down to a whole number, and of 10 around the frame. "
     "Labels have half the size of the top margin, which drawing contours, points and text keeps. Nothing is drawn yet, and the attributes are those of the engine. The skeleton bounds of a curve, to be given to a plotter, are those of its control points with 40 more at the right for labels, whenever they are asked for.",
     ["inputs"], "all bounds of up to 1e9, also without width or height", "No test covers drawing.", [CP, BZ], [("ContourPlotter.__init__, labelFontSize", CP), ("skeletonBounds", BZ)], ["Bezier.skeletonBounds", "margins, bounds and sizes set in the plotting engine"])

prop("P01", "From pen to drawing, a glyph keeps its geometry",
     "A glyph with components, drawn into a pen, transformed by any affine transforms, and rotated about a point, is the glyph's geometry mapped by all of them, up to rounding: so say the path strings of the outline built from it, the paths drawn from its contours and from its outline (segment by segment, in order, closed if asked), the bounds of the outline, which are those of the curves, and the bounds of the contours, which are those of all their points. "
     "Flattening the contours gives their segments in order. No step changes what it was given.",
     ["inputs", "histories"], "glyphs of up to 14 levels of components and 250 segments, up to three transforms, any rotation", "The tests try parts by themselves, and neither pens, outlines nor drawings.", [SP, TR, PU, BZ, CP],
     [("SegmentPen, addComponent", SP), ("applyToContours", TR), ("rotateContoursAbout, flatten, fromCoutours", PU), ("BOutline, d", BZ), ("drawContours, drawPaths", CP)], ["SegmentPen.contours", "BContour.d", "recorded calls of the plotting engine"])

TECHNIQUE = {
    "B": "runtime monitoring: exact-arithmetic reference oracles over generated curves",
    "N": "runtime monitoring: reference-model oracles over generated contours and histories",
    "U": "runtime monitoring: rational-arithmetic oracles over generated geometry",
    "T": "runtime monitoring: rational-arithmetic model of transforms",
    "M": "runtime monitoring: exact inverse as oracle",
    "F": "runtime monitoring: exact and least-squares oracles",
    "S": "runtime monitoring: model of outline pens over generated call streams",
    "C": "runtime monitoring: independent table and model of the colour sequence",
    "P": "runtime monitoring: exact model of the whole path from pen to drawing",
    "G": "runtime monitoring: recording engine, independent path parser, stack model",
}
SPECIAL = {
    "B03": "runtime monitoring: exact blossom oracle, plus an online monitor on all splits made by the library",
    "B18": "runtime monitoring: differential monitor of shared against fresh objects over query histories",
    "N01": "runtime monitoring: differential monitor of edited against rebuilt contours over histories",
}


def main():
    with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
        for p in P: f.write(json.dumps({k: v for k, v in p.items() if k != "note"}) + "\n")
    checks = []
    for p in P:
        id = p["id"]
        checks.append({
            "property": id,
            "quick_cmd": f"bin/check {id} --tier quick",
            "thorough_cmd": f"bin/check {id} --tier thorough",
            "technique": SPECIAL.get(id, TECHNIQUE[id[0]]),
            "level": "exploration",
            "level_note": f"Observed executions of the real code on {p['quantifier']['text']}; random, boundary-biased and coverage-guided workloads from VERIF_SEED, decided by oracles independent of the code. Assumes IEEE 754 doubles"
                          + ("; the FontDocTools base classes are a recording stand-in, as they aren't installed." if id[0] in "CGP" else "."),
        })
    manifest = {"version": 1, "setup_cmd": "bin/setup", "checks": checks, "not_applicable": [],
                "notes": "All monitors are in pathmon/; no hooks in /repo. The checks import PathLib from /repo's working tree."}
    with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
        json.dump(manifest, f, indent=1)
        f.write("\n")


if __name__ == "__main__":
    main()
