From f67eb4b9f5f017b9b8b2296888dd51b9b036c089 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:35 +0000
Subject: [PATCH 01/32] fix: bounds of points outside +/-32768, and union of
 two empty bounds

---
 PathLib/PathUtilities.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/PathLib/PathUtilities.py b/PathLib/PathUtilities.py
index 898bbaf..d3a822c 100644
--- a/PathLib/PathUtilities.py
+++ b/PathLib/PathUtilities.py
@@ -32,8 +32,8 @@ class BoundsRectangle(object):
 
         Returns an empty rectangle if the list is empty.
         """
-        right = top = -32768
-        left = bottom = 32768
+        right = top = -math.inf
+        left = bottom = math.inf
 
         for point in points:
             px, py = point
@@ -170,6 +170,8 @@ class BoundsRectangle(object):
         newRight = max(self.right, other.right)
         newBottom = min(self.bottom, other.bottom)
 
+        # if both rectangles are empty, so is the union
+        if newRight < newLeft or newTop < newBottom: return BoundsRectangle()
         return BoundsRectangle((newLeft, newBottom), (newRight, newTop))
 
     def intersection(self, other: BoundsRectangle) -> typing.Optional[BoundsRectangle]:
-- 
2.43.0


From 78591f959dbd4d5640f99f953804f42760a7560e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:38 +0000
Subject: [PATCH 02/32] fix: the start point of a line is on the line

---
 PathLib/PathUtilities.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/PathLib/PathUtilities.py b/PathLib/PathUtilities.py
index d3a822c..a57079c 100644
--- a/PathLib/PathUtilities.py
+++ b/PathLib/PathUtilities.py
@@ -311,6 +311,10 @@ def pointOnLine(point: Point, line: typing.Sequence[Point]):
     """
     bounds = BoundsRectangle(*line)
 
+    # The slope of a line from the start of the given line to
+    # itself says nothing about the direction of the given line.
+    if getDeltas([line[0], point]) == (0, 0): return True
+
     # If the bounds rectangle of the line encloses the point and
     # a line from the start of the given line to the point has the
     # same slope as the line, it is on the line.
-- 
2.43.0


From 8b5c7bb8b6b0f3ad4ca4ecad4ef016c85fd5d997 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:01 +0000
Subject: [PATCH 03/32] fix: intersectionPoint misses intersections on vertical
 and horizontal lines because of rounding

---
 PathLib/PathUtilities.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/PathLib/PathUtilities.py b/PathLib/PathUtilities.py
index a57079c..d600612 100644
--- a/PathLib/PathUtilities.py
+++ b/PathLib/PathUtilities.py
@@ -13,7 +13,7 @@ import math
 from .PathTypes import Point, Segment, Contour
 from .Transform import Transform
 
-from .BezierUtilities import lli
+from .BezierUtilities import lli, between
 
 class BoundsRectangle(object):
     """\
@@ -294,8 +294,13 @@ def intersectionPoint(l1: typing.Sequence[Point], l2: typing.Sequence[Point]) ->
 
     # The point calculated above assumes that the two lines have
     # infinite length, so it may not be on both, or either line.
-    # Make sure it's within the bounds rectangle for both lines.
-    return intersection if b1.enclosesPoint(intersection) and b2.enclosesPoint(intersection) else None
+    # Make sure it's within the bounds rectangle for both lines,
+    # allowing for rounding in the calculation.
+    ix, iy = intersection
+    for b in (b1, b2):
+        if not (between(ix, b.left, b.right) and between(iy, b.bottom, b.top)): return None
+
+    return intersection
 
 # The result of this function cannot be used to create an SVG path...
 def flatten(contours: list[Contour]) -> Contour:
-- 
2.43.0


From 33823edec0d19ebf6470d70b01e4dc8c93127bec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:03 +0000
Subject: [PATCH 04/32] fix: matrixInvert divides by pivots that are only
 non-zero because of rounding

---
 PathLib/MatrixInversion.py | 36 +++++++++++++++++-------------------
 1 file changed, 17 insertions(+), 19 deletions(-)

diff --git a/PathLib/MatrixInversion.py b/PathLib/MatrixInversion.py
index 3921370..fba5e38 100644
--- a/PathLib/MatrixInversion.py
+++ b/PathLib/MatrixInversion.py
@@ -50,27 +50,25 @@ def matrixInvert(M: Matrix) -> typing.Optional[Matrix]:
         # get the element e on the diagonal
         e = C[i][i]
 
-        # if we have a 0 on the diagonal (we'll need to swap with a lower row)
-        if e == 0:
-            # look through every row below the i'th row
-            for ii in range(i+1, n):
-                # if the ii'th row has a non-0 in the i'th col
-                if C[ii][i] != 0:
-                    # it would make the diagonal have a non-0 so swap it
-                    for j in range(n):
-                        e = C[i][j]  # temp store i'th row
-                        C[i][j] = C[ii][j]  # replace i'th row by ii'th
-                        C[ii][j] = e  # replace ii'th by temp
-                        e = I[i][j]  # temp store i'th row
-                        I[i][j] = I[ii][j]  # replace i'th row by ii'th
-                        I[ii][j] = e  # replace ii'th by temp
-
-                    # don't bother checking other rows since we've swapped
-                    break
+        # find the row at or below the i'th row with the largest element in
+        # the i'th col. (an element which should be 0 may be a little off
+        # because of rounding, and must not end up on the diagonal)
+        pivot = max(range(i, n), key=lambda r: abs(C[r][i]))
+
+        # if it isn't on the diagonal we need to swap with the lower row
+        if pivot != i:
+            for j in range(n):
+                e = C[i][j]  # temp store i'th row
+                C[i][j] = C[pivot][j]  # replace i'th row by pivot row
+                C[pivot][j] = e  # replace pivot row by temp
+                e = I[i][j]  # temp store i'th row
+                I[i][j] = I[pivot][j]  # replace i'th row by pivot row
+                I[pivot][j] = e  # replace pivot row by temp
             # get the new diagonal
             e = C[i][i]
-            # if it's still 0, not invertable (error)
-            if e == 0: return None
+
+        # if it's still 0, not invertable (error)
+        if e == 0: return None
 
         # Scale this row down by e (so we have a 1 on the diagonal)
         for j in range(n):
-- 
2.43.0


From c881f655dab2e8ff2d60d6816f23d4d09e17c564 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:23 +0000
Subject: [PATCH 05/32] fix: derivative, normal and length of a straight line

---
 PathLib/Bezier.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/PathLib/Bezier.py b/PathLib/Bezier.py
index 770e6d0..b6cb58f 100644
--- a/PathLib/Bezier.py
+++ b/PathLib/Bezier.py
@@ -175,7 +175,12 @@ class Bezier(object):
         p = self.dcPoints[0]
         mt = 1 - t
 
-        if self.order == 2:
+        if self.order == 1:
+            p = [p[0], (0, 0), (0, 0)]
+            a = 1
+            b = 0
+            c = 0
+        elif self.order == 2:
             p = [p[0], p[1], (0, 0)]
             a = mt
             b = t
-- 
2.43.0


From bb4a7143c0e31b3705add2c2cf8615cd98c156d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:27 +0000
Subject: [PATCH 06/32] fix: asking for the bounds or the reduction of a curve
 changes its extrema

---
 PathLib/Bezier.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/PathLib/Bezier.py b/PathLib/Bezier.py
index b6cb58f..27382ba 100644
--- a/PathLib/Bezier.py
+++ b/PathLib/Bezier.py
@@ -222,8 +222,8 @@ class Bezier(object):
         min = +9007199254740991  # Number.MAX_SAFE_INTEGER
         max = -9007199254740991  # Number.MIN_SAFE_INTEGER
 
-        if 0 not in list: list.insert(0, 0)
-        if 1 not in list: list.append(1)
+        # don't change the caller's list
+        list = [0, *list, 1]
 
         for i in range(len(list)):
             c = self.get(list[i])
@@ -576,7 +576,7 @@ class Bezier(object):
         pass2: list[Bezier] = []
 
         # first pass: split on extrema
-        extrema = self.extrema[2]
+        extrema = self.extrema[2][:]
         if not 0 in extrema: extrema.insert(0, 0)
         if not 1 in extrema: extrema.append(1)
 
-- 
2.43.0


From 9770f612bb45fb8910f6e3f4702783ded9f74ead Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:29 +0000
Subject: [PATCH 07/32] fix: raiseOrder repeats the first control point

---
 PathLib/Bezier.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/PathLib/Bezier.py b/PathLib/Bezier.py
index 27382ba..43a2072 100644
--- a/PathLib/Bezier.py
+++ b/PathLib/Bezier.py
@@ -732,7 +732,7 @@ class Bezier(object):
         p = self.controlPoints
         k = len(p)
         np = [p[0]]
-        for i in range(k):
+        for i in range(1, k):
             pix, piy = p[i]
             pimx, pimy = p[i - 1]
             x = ((k - i) / k) * pix + (i / k) * pimx
-- 
2.43.0


From e8f846325787af2358e54d875846571ca4723b5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:32 +0000
Subject: [PATCH 08/32] fix: offset(t, 0) offsets the whole curve by t

---
 PathLib/Bezier.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/PathLib/Bezier.py b/PathLib/Bezier.py
index 43a2072..fe9e275 100644
--- a/PathLib/Bezier.py
+++ b/PathLib/Bezier.py
@@ -748,7 +748,7 @@ class Bezier(object):
     def offset(self, t: float, d: float) -> list[Point]: ...
 
     def offset(self, t: float, d: typing.Optional[float] = None) -> typing.Union[list[Point], list[Bezier]]:
-        if d:
+        if d is not None:
             cx, cy = c = self.get(t)
             nx, ny = n = self.normal(t)
             px = cx + nx * d
-- 
2.43.0


From 83bbf87557f83e11de6024f635c8f87fb5a17f8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:35 +0000
Subject: [PATCH 09/32] fix: scale uses the variable-distance construction for
 a constant distance, and the other way around

---
 PathLib/Bezier.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/PathLib/Bezier.py b/PathLib/Bezier.py
index fe9e275..80c88da 100644
--- a/PathLib/Bezier.py
+++ b/PathLib/Bezier.py
@@ -793,7 +793,7 @@ class Bezier(object):
             py += (r2 if t > 0 else r1) * v[t][1][1]  # v[t].n.y
             np[t * order] = (px, py)
 
-        if isinstance(d, types.FunctionType):
+        if not isinstance(d, types.FunctionType):
             # move control points to lie on the intersection of the offset
             # derivative vector, and the origin-through-control vector
             for t in range(2):
-- 
2.43.0


From b4f291d2ce7eb4456fd987a512a3ef341dd3fd47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:38 +0000
Subject: [PATCH 10/32] fix: simple fails with a math domain error when the end
 normals are parallel

---
 PathLib/Bezier.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/PathLib/Bezier.py b/PathLib/Bezier.py
index 80c88da..3a0074d 100644
--- a/PathLib/Bezier.py
+++ b/PathLib/Bezier.py
@@ -569,7 +569,8 @@ class Bezier(object):
         n1x, n1y = self.normal(0)
         n2x, n2y = self.normal(1)
         s = n1x * n2x + n1y * n2y
-        return abs(math.acos(s)) < math.pi / 3
+        # rounding can put s just outside [-1, 1]
+        return abs(math.acos(max(-1, min(1, s)))) < math.pi / 3
 
     def reduce(self) -> list[Bezier]:
         pass1: list[Bezier] = []
-- 
2.43.0


From 2a1c9039e3d4eec27a242d0e39ed831d598c5511 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:36 +0000
Subject: [PATCH 11/32] fix: derivative, normal and length of curves of order
 four and higher

---
 PathLib/Bezier.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/PathLib/Bezier.py b/PathLib/Bezier.py
index 3a0074d..1ce06d8 100644
--- a/PathLib/Bezier.py
+++ b/PathLib/Bezier.py
@@ -175,6 +175,13 @@ class Bezier(object):
         p = self.dcPoints[0]
         mt = 1 - t
 
+        if self.order > 3:
+            # higher order curves: use de Casteljau's computation, as _compute() does
+            if isinstance(t, Decimal): p = [(Decimal(x), Decimal(y)) for x, y in p]
+            while len(p) > 1:
+                p = [(mt * x0 + t * x1, mt * y0 + t * y1) for (x0, y0), (x1, y1) in zip(p, p[1:])]
+            return p[0]
+
         if self.order == 1:
             p = [p[0], (0, 0), (0, 0)]
             a = 1
-- 
2.43.0


From bc04e1776ba1aada87a3a3836a3415fbc9078102 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:39 +0000
Subject: [PATCH 12/32] fix: normal, and with it reduce, intersects and offset,
 fail when a control point is on an end point

---
 PathLib/Bezier.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/PathLib/Bezier.py b/PathLib/Bezier.py
index 1ce06d8..ffb66da 100644
--- a/PathLib/Bezier.py
+++ b/PathLib/Bezier.py
@@ -563,6 +563,14 @@ class Bezier(object):
 
     def normal(self, t: float) -> tuple[float, float]:
         dx, dy = self._derivative(t)
+        if dx == 0 and dy == 0 and t in (0, 1):
+            # a control point is on the end point: the curve leaves the start
+            # towards the next distinct control point, and arrives at the end
+            # from the last one.
+            p = self.controlPoints if t == 0 else self.controlPoints[::-1]
+            sign = 1 if t == 0 else -1
+            x, y = next((pt for pt in p if pt != p[0]), p[0])
+            dx, dy = (sign * (x - p[0][0]), sign * (y - p[0][1]))
         q = butils.sqrt(dx * dx + dy * dy)
         return (-dy / q, dx / q)
 
@@ -807,8 +815,8 @@ class Bezier(object):
             for t in range(2):
                 if order == 2 and t > 0: break
                 px, py = p = np[t * order]
-                dx, dy = self._derivative(t)
-                p2 = (px + dx, py + dy)
+                nx, ny = v[t][1]
+                p2 = (px + ny, py - nx)
                 np[t + 1] = typing.cast(Point, butils.lli4(p, p2, o, self.controlPoints[t + 1]))
 
             return Bezier(np)
-- 
2.43.0


From d02e374c9ff76115fa65b4a1fcf6309f7b649aff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:15 +0000
Subject: [PATCH 13/32] fix: quadratic roots are wrong when the leading
 coefficient is only non-zero because of rounding

---
 PathLib/Bezier.py          | 10 ++--------
 PathLib/BezierUtilities.py | 18 +++++++++++++-----
 2 files changed, 15 insertions(+), 13 deletions(-)

diff --git a/PathLib/Bezier.py b/PathLib/Bezier.py
index ffb66da..5ca3b58 100644
--- a/PathLib/Bezier.py
+++ b/PathLib/Bezier.py
@@ -482,11 +482,7 @@ class Bezier(object):
             c = p[2][1]
             d = a - 2 * b + c
             if d != 0:
-                m1 = -butils.sqrt(b * b - a * c)
-                m2 = -a + b
-                v1 = -(m1 + m2) / d
-                v2 = -(-m1 + m2) / d
-                return list(filter(reduce, [v1, v2]))
+                return list(filter(reduce, butils.quadraticRoots(d, b - a, a)))
             elif b != c and d == 0:
                 return list(filter(reduce, [(2 * b - c) / (2 * b - 2 * c)]))
 
@@ -515,9 +511,7 @@ class Bezier(object):
                 return list(filter(reduce, [-c / b]))
 
             # quadratic solution:
-            q = butils.sqrt(b * b - 4 * a * c)
-            a2 = 2 * a
-            return list(filter(reduce, [(q - b) / a2, (-b - q) / a2]))
+            return list(filter(reduce, butils.quadraticRoots(a, b / 2, c)))
 
         # at this point, we know we need a cubic solution:
         a /= d
diff --git a/PathLib/BezierUtilities.py b/PathLib/BezierUtilities.py
index 331a1a4..19d11a2 100644
--- a/PathLib/BezierUtilities.py
+++ b/PathLib/BezierUtilities.py
@@ -145,6 +145,18 @@ def lli(l1: Segment, l2: Segment) -> typing.Optional[Point]:
     return lli4(l1[0], l1[1], l2[0], l2[1])
 
 
+def quadraticRoots(a: float, b: float, c: float) -> list[float]:
+    """\
+    Return the roots of a*t*t + 2*b*t + c, where a isn't zero. They are NaN if they're not real.
+    a can be very small because of rounding, so don't divide the difference
+    of two nearly equal values by it.
+    """
+    s = sqrt(b * b - a * c)
+    if b > 0: return [-c / (b + s), -(b + s) / a]
+    if b == s: return [0.0, 0.0]  # both are zero
+    return [(s - b) / a, c / (s - b)]
+
+
 def droots(p: list[float]) -> typing.Sequence[float]:
     # quadratic roots are easy
     if len(p) == 3:
@@ -154,11 +166,7 @@ def droots(p: list[float]) -> typing.Sequence[float]:
         d = a - 2 * b + c
 
         if d != 0:
-            m1 = - sqrt(b * b - a * c)
-            m2 = -a + b
-            v1 = -(m1 + m2) / d
-            v2 = -(-m1 + m2) / d
-            return [v1, v2]
+            return quadraticRoots(d, b - a, a)
 
         if b != c and d == 0:
             return [(2 * b - c) / (2 * (b - c))]
-- 
2.43.0


From 0f7903148487cd815a493f2eda00ebfaba2579d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:36 +0000
Subject: [PATCH 14/32] fix: straight curves, and curves with a control point
 on the start point, can't be reduced because of rounding

---
 PathLib/Bezier.py          | 4 +++-
 PathLib/BezierUtilities.py | 4 ++++
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/PathLib/Bezier.py b/PathLib/Bezier.py
index 5ca3b58..cd35fbf 100644
--- a/PathLib/Bezier.py
+++ b/PathLib/Bezier.py
@@ -570,7 +570,9 @@ class Bezier(object):
 
 
     def simple(self):
-        if self.order == 3:
+        # if the curve is a straight line, which side of it
+        # the control points are on is only rounding.
+        if self.order == 3 and not self._linear:
             a1 = butils.angle(self.controlPoints[0], self.controlPoints[3], self.controlPoints[1])
             a2 = butils.angle(self.controlPoints[0], self.controlPoints[3], self.controlPoints[2])
             if (a1 > 0 and a2 < 0) or (a1 < 0 and a2 > 0): return False
diff --git a/PathLib/BezierUtilities.py b/PathLib/BezierUtilities.py
index 19d11a2..64a1e37 100644
--- a/PathLib/BezierUtilities.py
+++ b/PathLib/BezierUtilities.py
@@ -227,6 +227,10 @@ def angle(o: Point, v1: Point, v2: Point) -> float:
     cross = dx1 * dy2 - dy1 * dx2
     dot = dx1 * dx2 + dy1 * dy2
 
+    # there's no angle if either point is at the origin.
+    # (atan2 would return pi if dot is -0.0)
+    if cross == 0 and dot == 0: return 0.0
+
     return math.atan2(cross, dot)
 
 # def pairiteration(c1, c2, intersectionThreshold: float = 0.5):
-- 
2.43.0


From 6ff55dbaeeacc36ca13fe3c9390b5ecbaae730f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:39 +0000
Subject: [PATCH 15/32] fix: reduce, intersects and offset fail on curves with
 extrema that differ by rounding

---
 PathLib/Bezier.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/PathLib/Bezier.py b/PathLib/Bezier.py
index cd35fbf..7993b1d 100644
--- a/PathLib/Bezier.py
+++ b/PathLib/Bezier.py
@@ -587,10 +587,12 @@ class Bezier(object):
         pass1: list[Bezier] = []
         pass2: list[Bezier] = []
 
-        # first pass: split on extrema
-        extrema = self.extrema[2][:]
-        if not 0 in extrema: extrema.insert(0, 0)
-        if not 1 in extrema: extrema.append(1)
+        # first pass: split on extrema. extrema that only
+        # differ by rounding don't get a segment of their own
+        extrema: list[float] = [0]
+        for t in self.extrema[2]:
+            if t - extrema[-1] > butils.epsilon and 1 - t > butils.epsilon: extrema.append(t)
+        extrema.append(1)
 
         t1 = extrema[0]
         for i in range(1, len(extrema)):
-- 
2.43.0


From 56ad386f1cc919ea9814d4ed3bd92325d924a059 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:00 +0000
Subject: [PATCH 16/32] fix: roots merges distinct roots that are close to each
 other

---
 PathLib/Bezier.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/PathLib/Bezier.py b/PathLib/Bezier.py
index 7993b1d..720c1cf 100644
--- a/PathLib/Bezier.py
+++ b/PathLib/Bezier.py
@@ -538,7 +538,7 @@ class Bezier(object):
             x2 = t1 * math.cos((phi + butils.tau) / 3) - a / 3
             x3 = t1 * math.cos((phi + 2 * butils.tau) / 3) - a / 3
             return list(filter(reduce, [x1, x2, x3]))
-        elif butils.approximately(discriminant, 0):  # discriminant == 0:
+        elif discriminant <= 1e-10 * q2 * q2:  # discriminant == 0, give or take rounding:
             u1 = butils.crt(-q2) if q2 < 0 else -butils.crt(q2)
             x1 = 2 * u1 - a / 3
             x2 = -u1 - a / 3
-- 
2.43.0


From 09ae241f8be7930dce2267f6561eb2b18c8a4139 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:05 +0000
Subject: [PATCH 17/32] fix: roots is imprecise when the cubic coefficient is
 small

---
 PathLib/Bezier.py | 22 ++++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/PathLib/Bezier.py b/PathLib/Bezier.py
index 720c1cf..0b8abde 100644
--- a/PathLib/Bezier.py
+++ b/PathLib/Bezier.py
@@ -499,7 +499,21 @@ class Bezier(object):
         b = -3 * pa + 3 * pb
         c = pa
 
-        if butils.approximately(d, 0):
+        d0, a0, b0, c0 = d, a, b, c
+
+        # The solutions below lose precision when d is small compared
+        # to the other coefficients. Newton's method gets it back.
+        def polish(t: float) -> float:
+            for _ in range(5):
+                y = ((d0 * t + a0) * t + b0) * t + c0
+                dy = (3 * d0 * t + 2 * a0) * t + b0
+                if dy == 0: break
+                nt = t - y / dy
+                if not abs(((d0 * nt + a0) * nt + b0) * nt + c0) < abs(y): break
+                t = nt
+            return t
+
+        if butils.approximately(d, 0, max(butils.epsilon, 1e-5 * abs(a))):
             # this is not a cubic curve.
             if butils.approximately(a, 0):
                 # in fact, this is not a quadratic curve either.
@@ -511,7 +525,7 @@ class Bezier(object):
                 return list(filter(reduce, [-c / b]))
 
             # quadratic solution:
-            return list(filter(reduce, butils.quadraticRoots(a, b / 2, c)))
+            return list(filter(reduce, map(polish, butils.quadraticRoots(a, b / 2, c))))
 
         # at this point, we know we need a cubic solution:
         a /= d
@@ -537,7 +551,7 @@ class Bezier(object):
             x1 = t1 * math.cos(phi / 3) - a / 3
             x2 = t1 * math.cos((phi + butils.tau) / 3) - a / 3
             x3 = t1 * math.cos((phi + 2 * butils.tau) / 3) - a / 3
-            return list(filter(reduce, [x1, x2, x3]))
+            return list(filter(reduce, map(polish, [x1, x2, x3])))
         elif discriminant <= 1e-10 * q2 * q2:  # discriminant == 0, give or take rounding:
             u1 = butils.crt(-q2) if q2 < 0 else -butils.crt(q2)
             x1 = 2 * u1 - a / 3
@@ -547,7 +561,7 @@ class Bezier(object):
             sd = butils.sqrt(discriminant)
             u1 = butils.crt(-q2 + sd)
             v1 = butils.crt(q2 + sd)
-            return list(filter(reduce, [u1 - v1 - a / 3]))
+            return list(filter(reduce, map(polish, [u1 - v1 - a / 3])))
 
     def align(self, segment: typing.Optional[Segment] = None):
         if not segment:
-- 
2.43.0


From 8c4e6b72dbc595dcf7b123d82d5f9a41cfa66ceb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:08 +0000
Subject: [PATCH 18/32] fix: bounds and lookup table of a contour are stale
 after one of its curves is replaced or deleted

---
 PathLib/Bezier.py | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/PathLib/Bezier.py b/PathLib/Bezier.py
index 0b8abde..ec59c1f 100644
--- a/PathLib/Bezier.py
+++ b/PathLib/Bezier.py
@@ -867,17 +867,23 @@ class BContour(object):
     def __getitem__(self, index: int) -> Bezier:
         return self._beziers[index]
 
-    def __setitem__(self, index: int, value: typing.Sequence[Point]):
-        self._beziers[index] = Bezier(value)
+    def _beziersChanged(self):
+        self._bounds = PathUtilities.BoundsRectangle()
+        for bezier in self._beziers:
+            self._bounds = self._bounds.union(bezier.boundsRectangle)
+
         # self._length = None
+        self._lut = []
         self._start = self._beziers[0].start
         self._end = self._beziers[-1].end
 
+    def __setitem__(self, index: int, value: typing.Sequence[Point]):
+        self._beziers[index] = Bezier(value)
+        self._beziersChanged()
+
     def __delitem__(self, index: int):
         del self._beziers[index]
-        # self._length = None
-        self._start = self._beziers[0].start
-        self._end = self._beziers[-1].end
+        self._beziersChanged()
 
     def __iter__(self):
         return self._beziers.__iter__()
-- 
2.43.0


From e3b7a2fb77c80017fffc8c04594a4199202f8274 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:11 +0000
Subject: [PATCH 19/32] fix: lookup table of a contour can be for a different
 number of steps

---
 PathLib/Bezier.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/PathLib/Bezier.py b/PathLib/Bezier.py
index ec59c1f..b979688 100644
--- a/PathLib/Bezier.py
+++ b/PathLib/Bezier.py
@@ -889,7 +889,8 @@ class BContour(object):
         return self._beziers.__iter__()
 
     def getLUT(self, steps: int = 100):
-        if len(self._lut) == steps: return self._lut
+        # the first point of every curve but the first isn't in the table
+        if len(self._lut) == len(self._beziers) * (steps - 1) + 1: return self._lut
 
         self._lut = []
         startPoint = 0
-- 
2.43.0


From aa3c8ef409b05824287efa757e3cf556bb8ba2d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:58 +0000
Subject: [PATCH 20/32] fix: findClosestPoint returns no point for 202 or more
 steps, and searches the wrong part of all curves but the first

---
 PathLib/Bezier.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/PathLib/Bezier.py b/PathLib/Bezier.py
index b979688..b8bbf1a 100644
--- a/PathLib/Bezier.py
+++ b/PathLib/Bezier.py
@@ -919,11 +919,11 @@ class BContour(object):
 
     @classmethod
     def _refineBinary(cls, point: Point, curve: Bezier, lut: typing.Sequence[Point], i: int):
-        closest = MAX_SAFE_INTEGER
         steps = len(lut)
         tt = [t / (steps - 1) for t in range(steps)]
         px, py = point
-        q: Point = (0, 0)
+        q = lut[i]
+        closest = math.hypot(q[0] - px, q[1] - py)
 
         for _ in range(25):  # This is for safety; the loop should always break
             steps = len(lut)
@@ -933,9 +933,11 @@ class BContour(object):
             t2 = tt[i2]
             new_lut: typing.Sequence[Point] = []
             new_tt: list[float] = []
-            step = (t2 - t1) / 5
+            step = (t2 - t1) / 4
 
             if step < 0.001: break
+            # the index of the closest point so far in the new lut
+            i = 0 if i == i1 else 4 if i == i2 else 2
             new_lut.append(lut[i1])
             new_tt.append(tt[i1])
             for j in range(1, 4):
@@ -971,7 +973,8 @@ class BContour(object):
             ix = i // s1 + 1
             curve = self.beziers[ix]
             if ix < nCurves - 1: curve2 = self.beziers[ix + 1]
-            i %= s1
+            # the first point of this curve isn't in the contour's LUT
+            i = i % s1 + 1
 
         lut = curve.getLUT(steps)
         cip, closest = self._refineBinary(point, curve, lut, i)
-- 
2.43.0


From 57a1d139e4d601d136679b7f7ff5fcb8f053fcc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:24 +0000
Subject: [PATCH 21/32] fix: drawContours and drawPaths fail when asked to fill

---
 PathLib/ContourPlotter.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/PathLib/ContourPlotter.py b/PathLib/ContourPlotter.py
index ae6a3b1..446e606 100644
--- a/PathLib/ContourPlotter.py
+++ b/PathLib/ContourPlotter.py
@@ -74,7 +74,7 @@ class ContourPlotter(GlyphPlotterEngine.GlyphPlotterEngine):
 
     def drawContours(self, contours, color=None, fill=False, close=True):
         if fill:
-            self.pushFillAttributes(color=color, fill=fill)
+            self.pushFillAttributes(color=color)
         elif color:
             self.pushStrokeAttributes(color=color)
             # self._strokeWidth = 2
@@ -136,7 +136,7 @@ class ContourPlotter(GlyphPlotterEngine.GlyphPlotterEngine):
 
     def drawPaths(self, paths, color=None, fill=False, close=True):
         if fill:
-            self.pushFillAttributes(color=color, fill=fill)
+            self.pushFillAttributes(color=color)
             attributes = self._fillAttributes()
         else:
             if color:
-- 
2.43.0


From 9bb0df9d18055cd9f7ae2efcaf551fb52894585e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:27 +0000
Subject: [PATCH 22/32] fix: with poly, the first command of a path is left out
 when it is the last command of the path before

---
 PathLib/ContourPlotter.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/PathLib/ContourPlotter.py b/PathLib/ContourPlotter.py
index 446e606..ac52fc8 100644
--- a/PathLib/ContourPlotter.py
+++ b/PathLib/ContourPlotter.py
@@ -85,6 +85,7 @@ class ContourPlotter(GlyphPlotterEngine.GlyphPlotterEngine):
                 firstPoint = contour[0][0]
                 self.moveToXY(*firstPoint)
                 commands.append(f"M{self.pointToString(firstPoint)}")
+                self._lastCommand = ""  # nothing repeats the last command across a moveto
 
                 for segment in contour:
                     if len(segment) == 2:
@@ -151,6 +152,7 @@ class ContourPlotter(GlyphPlotterEngine.GlyphPlotterEngine):
             firstPoint = path.start
             self.moveToXY(*path.pointXY(firstPoint))
             commands.append(f"M{pointToString(firstPoint)}")
+            self._lastCommand = ""  # nothing repeats the last command across a moveto
 
             for curve in path:
                 segment = curve.controlPoints
-- 
2.43.0


From 7fa5cfe793ccca2d9703e46718dc074a769fc971 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:30 +0000
Subject: [PATCH 23/32] fix: an opacity or stroke width of zero is ignored

---
 PathLib/ContourPlotter.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/PathLib/ContourPlotter.py b/PathLib/ContourPlotter.py
index ac52fc8..d5dba31 100644
--- a/PathLib/ContourPlotter.py
+++ b/PathLib/ContourPlotter.py
@@ -39,7 +39,7 @@ class ContourPlotter(GlyphPlotterEngine.GlyphPlotterEngine):
     def pushFillAttributes(self, color=None, opacity=None):
         self._fillAttributeStack.append((self._fillColor, self._fillOpacity))
         if color: self.setFillColor(color)
-        if opacity: self.setFillOpacity(opacity)
+        if opacity is not None: self.setFillOpacity(opacity)
 
     def popFillAttributes(self):
         color, opacity = self._fillAttributeStack.pop()
@@ -48,9 +48,9 @@ class ContourPlotter(GlyphPlotterEngine.GlyphPlotterEngine):
 
     def pushStrokeAttributes(self, width=None, color=None, opacity=None, dash=None):
         self._strokeAttributeStack.append((self._strokeWidth, self._strokeColor, self._strokeOpacity, self._strokeDash))
-        if width: self.setStrokeWidth(width)
+        if width is not None: self.setStrokeWidth(width)
         if color: self.setStrokeColor(color)
-        if opacity: self.setStrokeOpacity(opacity)
+        if opacity is not None: self.setStrokeOpacity(opacity)
         if dash: self.setStrokeDash(dash)
 
     def popStrokeAtributes(self):
-- 
2.43.0


From 8401d444bacf2e013db149c93a2d196890bb8304 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:05 +0000
Subject: [PATCH 24/32] fix: length of a curve is the one for earlier decimal
 settings, and changes the settings if there's an exception

---
 PathLib/Bezier.py | 26 ++++++++++++++++----------
 1 file changed, 16 insertions(+), 10 deletions(-)

diff --git a/PathLib/Bezier.py b/PathLib/Bezier.py
index b8bbf1a..aa03976 100644
--- a/PathLib/Bezier.py
+++ b/PathLib/Bezier.py
@@ -14,7 +14,7 @@ import typing
 
 import math
 import types
-from decimal import Decimal, getcontext
+from decimal import Decimal, getcontext, localcontext
 
 from PathLib.PathTypes import Contour, Segment, Point
 
@@ -418,20 +418,26 @@ class Bezier(object):
 
     @property
     def length(self):
-        if not self._length:
+        # the length depends on the current decimal settings
+        context = getcontext()
+        settings = (context.prec, context.rounding)
+
+        if not self._length or self._length[0] != settings:
             z = Decimal(0.5)
             sum = Decimal(0)
 
-            getcontext().prec += 2
-            for i in range(len(butils.tValues)):
-                t = butils.tValues[i].fma(z, z)
-                sum = butils.cValues[i].fma(self._arcfun(t), sum)
+            # this restores the settings, also if there's an exception
+            with localcontext() as local:
+                local.prec += 2
+                for i in range(len(butils.tValues)):
+                    t = butils.tValues[i].fma(z, z)
+                    sum = butils.cValues[i].fma(self._arcfun(t), sum)
+
+                length = z * sum
 
-            length = z * sum
-            getcontext().prec -= 2
-            self._length = +length
+            self._length = (settings, +length)
 
-        return self._length
+        return self._length[1]
 
     @typing.overload
     def split(self, t1: float) -> tuple[Bezier, Bezier, list[Point]]: ...
-- 
2.43.0


From bfbebd1c4d7f7b153b319a86214f5ae26838b99a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:30 +0000
Subject: [PATCH 25/32] fix: a color keyword with a Kelvin sign for a k is
 recognized

---
 PathLib/Color.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/PathLib/Color.py b/PathLib/Color.py
index f29e070..106b90c 100644
--- a/PathLib/Color.py
+++ b/PathLib/Color.py
@@ -179,9 +179,10 @@ class Color(FDTColor):
         """
         if not color.isalpha():
             return None
-        color = color.lower()
-        if color in Color._keywords:
-            (red, green, blue) = Color._keywords[color]
+        keyword = color.lower()
+        # lower() takes some letters that aren't ASCII to ASCII letters
+        if color.isascii() and keyword in Color._keywords:
+            (red, green, blue) = Color._keywords[keyword]
             return Color(red, green, blue)
         raise ValueError(f"Unrecognized color keyword: {color}")
 
-- 
2.43.0


From feaa4ebed2ad559c50e8c4ac43f47e46d919df86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:35:18 +0000
Subject: [PATCH 26/32] fix: an outline's bounds follow edits of its contours

---
 PathLib/Bezier.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/PathLib/Bezier.py b/PathLib/Bezier.py
index aa03976..4b208fe 100644
--- a/PathLib/Bezier.py
+++ b/PathLib/Bezier.py
@@ -1076,19 +1076,16 @@ class BContour(object):
         return Bezier.xyPoint(x, y)
 
 class BOutline(object):
-    __slots__ = "_bContours", "_bounds"
+    __slots__ = "_bContours",
 
     def __init__(self, contours: list[Contour]):
-        bounds = PathUtilities.BoundsRectangle()
         bContours: list[BContour] = []
 
         for contour in contours:
             bc = BContour(contour)
             bContours.append(bc)
-            bounds = bounds.union(bc.boundsRectangle)
 
         self._bContours = bContours
-        self._bounds = bounds
 
     def __iter__(self):
         return self._bContours.__iter__()
@@ -1130,4 +1127,9 @@ class BOutline(object):
 
     @property
     def boundsRectangle(self):
-        return self._bounds
+        # not kept, because the contours can be edited
+        bounds = PathUtilities.BoundsRectangle()
+        for bc in self._bContours:
+            bounds = bounds.union(bc.boundsRectangle)
+
+        return bounds
-- 
2.43.0


From 82c5603cd705f156205c69a5592f40c978094e30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:36:55 +0000
Subject: [PATCH 27/32] fix: scaling a curve by a function that isn't a Python
 function failed

---
 PathLib/Bezier.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/PathLib/Bezier.py b/PathLib/Bezier.py
index 4b208fe..e28be2c 100644
--- a/PathLib/Bezier.py
+++ b/PathLib/Bezier.py
@@ -13,7 +13,6 @@ from __future__ import annotations
 import typing
 
 import math
-import types
 from decimal import Decimal, getcontext, localcontext
 
 from PathLib.PathTypes import Contour, Segment, Point
@@ -799,10 +798,10 @@ class Bezier(object):
 
     DistanceFunction = typing.Callable[[float], float]
     def scale(self, d: typing.Union[float, DistanceFunction]) -> Bezier:
-        distanceFn: Bezier.DistanceFunction = d if isinstance(d, types.FunctionType) else lambda f: typing.cast(float, d)
+        distanceFn: Bezier.DistanceFunction = d if callable(d) else lambda f: typing.cast(float, d)
         order = self.order
 
-        if isinstance(d, types.FunctionType) and order == 2: return self.raiseOrder().scale(distanceFn)
+        if callable(d) and order == 2: return self.raiseOrder().scale(distanceFn)
 
         # TODO: add special handling for degenerate (=linear) curves.
         clockwise = self._clockwise
@@ -827,7 +826,7 @@ class Bezier(object):
             py += (r2 if t > 0 else r1) * v[t][1][1]  # v[t].n.y
             np[t * order] = (px, py)
 
-        if not isinstance(d, types.FunctionType):
+        if not callable(d):
             # move control points to lie on the intersection of the offset
             # derivative vector, and the origin-through-control vector
             for t in range(2):
-- 
2.43.0


From b4038bb8de005b9b0d69a5266cff1f5781527f8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:39:11 +0000
Subject: [PATCH 28/32] fix: drawing filled circles left the fill colour
 changed

---
 PathLib/ContourPlotter.py | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/PathLib/ContourPlotter.py b/PathLib/ContourPlotter.py
index d5dba31..32f1734 100644
--- a/PathLib/ContourPlotter.py
+++ b/PathLib/ContourPlotter.py
@@ -236,7 +236,7 @@ class ContourPlotter(GlyphPlotterEngine.GlyphPlotterEngine):
 
         if colors:
             if fill:
-                self._fillColor = colors[0]
+                self.pushFillAttributes(color=colors[0])
             else:
                 self.pushStrokeAttributes(color=colors[0])
 
@@ -253,12 +253,16 @@ class ContourPlotter(GlyphPlotterEngine.GlyphPlotterEngine):
                 if color: self.setStrokeColor(color)
             self.drawCircle(GlyphPlotterEngine.CoordinateSystem.content, x, y, radius, paintMode)
 
-        if colors and not fill: self.popStrokeAtributes()
+        if colors:
+            if fill:
+                self.popFillAttributes()
+            else:
+                self.popStrokeAtributes()
 
     def drawComplexPointsAsCircles(self, points, radius, colors=None, fill=True):
         if colors:
             if fill:
-                self._fillColor = colors[0]
+                self.pushFillAttributes(color=colors[0])
             else:
                 self.pushStrokeAttributes(color=colors[0])
 
@@ -274,7 +278,11 @@ class ContourPlotter(GlyphPlotterEngine.GlyphPlotterEngine):
                 if color: self.setStrokeColor(color)
             self.drawCircle(GlyphPlotterEngine.CoordinateSystem.content, point.real, point.imag, radius, paintMode)
 
-        if colors and not fill: self.popStrokeAtributes()
+        if colors:
+            if fill:
+                self.popFillAttributes()
+            else:
+                self.popStrokeAtributes()
 
     def drawCurve(self, segment, color=None):
         self.drawContours([[segment]], color=color, fill=False, close=False)
-- 
2.43.0


From 413282ff9a7e6a63077f8661e0798b549889edd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:39:14 +0000
Subject: [PATCH 29/32] fix: drawing an arrow left the stroke colour changed,
 and later strokes without their dash

---
 PathLib/ContourPlotter.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/PathLib/ContourPlotter.py b/PathLib/ContourPlotter.py
index 32f1734..0211c48 100644
--- a/PathLib/ContourPlotter.py
+++ b/PathLib/ContourPlotter.py
@@ -323,14 +323,11 @@ class ContourPlotter(GlyphPlotterEngine.GlyphPlotterEngine):
         if lineColor: self.popStrokeAtributes()
 
     def drawArrowBetweenPoints(self, startPoint, endPoint, color=None, style="open60", position="end"):
-        if color:
-            self._strokeColor = color
-
-        self.setStrokeDash("2, 1")
+        self.pushStrokeAttributes(color=color, dash="2, 1")
         startX, startY = startPoint
         endX, endY = endPoint
         self.drawArrow(GlyphPlotterEngine.CoordinateSystem.content, startX, startY, endX, endY, style, position)
-        self.setStrokeDash(None)
+        self.popStrokeAtributes()
 
 # def test():
 #     import PathUtilities
-- 
2.43.0


From 4667257fe39f3598fdb44eb29bceea82e388ec40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:36 +0000
Subject: [PATCH 30/32] fix: reduce gave nothing if the first step of a piece
 wasn't simple

---
 PathLib/Bezier.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/PathLib/Bezier.py b/PathLib/Bezier.py
index e28be2c..6240db3 100644
--- a/PathLib/Bezier.py
+++ b/PathLib/Bezier.py
@@ -633,9 +633,9 @@ class Bezier(object):
                     segment = p1.split(t1, t2)
                     if not segment.simple():
                         t2 -= step
-                        if abs(t1 - t2) < step:
-                            # we can never form a reduction
-                            return []
+                        # even the smallest step can have an inflection or
+                        # a sharp bend. It's a piece of its own then.
+                        if t2 - t1 < step / 2: t2 = t1 + step
                         segment = p1.split(t1, t2)
                         segment._t1 = butils.map(t1, 0, 1, p1._t1, p1._t2)
                         segment._t2 = butils.map(t2, 0, 1, p1._t1, p1._t2)
-- 
2.43.0


From bb805011193561295302affa618524de94ea9930 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:13 +0000
Subject: [PATCH 31/32] fix: roots reports a crossing where the curve only
 comes near the line

---
 PathLib/Bezier.py | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/PathLib/Bezier.py b/PathLib/Bezier.py
index 6240db3..fa3f7ec 100644
--- a/PathLib/Bezier.py
+++ b/PathLib/Bezier.py
@@ -518,6 +518,18 @@ class Bezier(object):
                 t = nt
             return t
 
+        # If two roots are equal, or nearly so, whether they are real, and where, depends on
+        # rounding in the solutions below. The turning point between them tells.
+        def nearlyEqual(t: float) -> list[float]:
+            for _ in range(5):
+                y = ((d0 * t + a0) * t + b0) * t + c0
+                k = 3 * d0 * t + a0
+                if butils.approximately(y, 0): return [t]
+                if k == 0: return []
+                t -= ((3 * d0 * t + 2 * a0) * t + b0) / (2 * k)
+            h = butils.sqrt(-y / k)
+            return [polish(t - h), polish(t + h)]
+
         if butils.approximately(d, 0, max(butils.epsilon, 1e-5 * abs(a))):
             # this is not a cubic curve.
             if butils.approximately(a, 0):
@@ -529,6 +541,8 @@ class Bezier(object):
                 # linear solution:
                 return list(filter(reduce, [-c / b]))
 
+            if abs(b * b / 4 - a * c) < 1e-4 * a * a: return list(filter(reduce, nearlyEqual(-b / (2 * a))))
+
             # quadratic solution:
             return list(filter(reduce, map(polish, butils.quadraticRoots(a, b / 2, c))))
 
@@ -543,7 +557,7 @@ class Bezier(object):
         q2 = q / 2
         discriminant = q2 * q2 + p3 * p3 * p3
 
-        if discriminant < 0:
+        if discriminant < -1e-10 * q2 * q2:
             mp3 = -p / 3
             mp33 = mp3 * mp3 * mp3
             r = butils.sqrt(mp33)
@@ -561,7 +575,7 @@ class Bezier(object):
             u1 = butils.crt(-q2) if q2 < 0 else -butils.crt(q2)
             x1 = 2 * u1 - a / 3
             x2 = -u1 - a / 3
-            return list(filter(reduce, [x1, x2]))
+            return list(filter(reduce, [polish(x1), *nearlyEqual(x2)]))
         else:
             sd = butils.sqrt(discriminant)
             u1 = butils.crt(-q2 + sd)
-- 
2.43.0


From 8cafc5f84b2f5526a383c5f297d2e1822fa7bfcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:24 +0000
Subject: [PATCH 32/32] fix: the length of a curve of Decimal coordinates no
 longer has the digits of an earlier decimal precision

The differences of control points were kept from the first question.
---
 PathLib/Bezier.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/PathLib/Bezier.py b/PathLib/Bezier.py
index fa3f7ec..c529d01 100644
--- a/PathLib/Bezier.py
+++ b/PathLib/Bezier.py
@@ -34,7 +34,7 @@ class Bezier(object):
     dir_up = 1
     dir_down = 2
 
-    __slots__ = "_controlPoints", "_t1", "_t2", "_dcPoints", "_extrema", "_length", "_bbox", "_boundsRectangle", \
+    __slots__ = "_controlPoints", "_t1", "_t2", "_dcPoints", "_dcSettings", "_extrema", "_length", "_bbox", "_boundsRectangle", \
                 "_lut", "_direction", "_linear", "_clockwise", "_start", "_end"
 
     def __init__(self, controlPoints: typing.Sequence[Point]):
@@ -327,7 +327,11 @@ class Bezier(object):
 
     @property
     def dcPoints(self) -> list[list[Point]]:
-        if not self._dcPoints:
+        # the differences of Decimal values depend on the decimal settings
+        context = getcontext()
+        settings = (context.prec, context.rounding)
+
+        if not self._dcPoints or self._dcSettings != settings:
             dpoints: list[list[Point]] = []
             p = self._controlPoints
             d = len(p)
@@ -344,6 +348,7 @@ class Bezier(object):
                 d -= 1
 
             self._dcPoints = dpoints
+            self._dcSettings = settings
 
         return self._dcPoints
 
-- 
2.43.0

