From 81682438a7861b45735910d5db3fc4e8ebc7360c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:42 +0000
Subject: [PATCH 01/40] fix: collinearity of points on a line that does not
 pass through the origin

---
 skcurve/_geomalg.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/skcurve/_geomalg.py b/skcurve/_geomalg.py
index e7284d0..069cc5d 100644
--- a/skcurve/_geomalg.py
+++ b/skcurve/_geomalg.py
@@ -199,7 +199,7 @@ def collinear_points(points: ty.Union[ty.List['Point'], np.ndarray],
     -----
 
     In n-dimensional space, a set of three or more distinct points are collinear
-    if and only if, the matrix of the coordinates of these vectors is of rank 1 or less.
+    if and only if, the matrix of the relative coordinates of these points is of rank 1 or less.
 
     Parameters
     ----------
@@ -225,7 +225,12 @@ def collinear_points(points: ty.Union[ty.List['Point'], np.ndarray],
     if m.shape[1] < 3:
         return True
 
-    return np.linalg.matrix_rank(m, tol=tol) <= 1
+    if tol is None:
+        # The threshold must consider rounding errors of the coordinates
+        tol = np.linalg.norm(m, 2) * max(m.shape) * F_EPS
+
+    # The line might not pass through the origin
+    return np.linalg.matrix_rank(m[:, 1:] - m[:, :1], tol=tol) <= 1
 
 
 def coplanar_points(points: ty.Union[ty.List['Point'], np.ndarray],
-- 
2.43.0


From 397a5dd385bb3ebe347826800df58612afced170 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:51 +0000
Subject: [PATCH 02/40] fix: overlap of segments which have decreasing
 coordinates along the line

---
 skcurve/_geomalg.py | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/skcurve/_geomalg.py b/skcurve/_geomalg.py
index 069cc5d..876fe10 100644
--- a/skcurve/_geomalg.py
+++ b/skcurve/_geomalg.py
@@ -306,8 +306,20 @@ def overlap_segments(segment1: 'Segment', segment2: 'Segment',
     if np.any(data_maxmin > data_minmax):
         return None
 
-    return skcurve._base.Segment(p1=skcurve._base.Point(data_maxmin),
-                                 p2=skcurve._base.Point(data_minmax))
+    # The overlap is the diagonal of the box that is co-directed with the segments
+    direction = p12_data - p11_data
+
+    if not np.any(direction):
+        direction = p22_data - p21_data
+
+    if np.any(direction) and direction[np.flatnonzero(direction)[0]] < 0:
+        direction = -direction
+
+    p1_data = np.where(direction < 0, data_minmax, data_maxmin)
+    p2_data = np.where(direction < 0, data_maxmin, data_minmax)
+
+    return skcurve._base.Segment(p1=skcurve._base.Point(p1_data),
+                                 p2=skcurve._base.Point(p2_data))
 
 
 def segment_to_point(segment: 'Segment', point: 'Point') -> float:
-- 
2.43.0


From 615b6364115def7147b26ba76163bd003748b56c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:02 +0000
Subject: [PATCH 03/40] fix: shortest segment between a segment and a singular
 segment

---
 skcurve/_geomalg.py | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/skcurve/_geomalg.py b/skcurve/_geomalg.py
index 876fe10..3e9a1a1 100644
--- a/skcurve/_geomalg.py
+++ b/skcurve/_geomalg.py
@@ -392,6 +392,11 @@ def segment_to_segment(segment1: 'Segment', segment2: 'Segment', tol: float = F_
     d = u @ w
     e = v @ w
 
+    if c < tol:
+        # the second segment degenerates into a point
+        t1 = 0.0 if a < tol else min(max(-d / a, 0.0), 1.0)
+        return t1, 0.0
+
     dd = a * c - b * b
     sd = td = dd
 
@@ -569,8 +574,16 @@ def segments_to_segments(data1: np.ndarray, data2: np.ndarray, tol: float = F_EP
     t1 = np.zeros_like(dd)
     t2 = np.zeros_like(dd)
 
-    t1[abs_sn_gt_tol] = (sn / sd)[abs_sn_gt_tol]
-    t2[abs_tn_gt_tol] = (tn / td)[abs_tn_gt_tol]
+    t1[abs_sn_gt_tol] = sn[abs_sn_gt_tol] / sd[abs_sn_gt_tol]
+    t2[abs_tn_gt_tol] = tn[abs_tn_gt_tol] / td[abs_tn_gt_tol]
+
+    # The second segments degenerate into points
+    c_lt_tol = c < tol
+    project = c_lt_tol & ~(a < tol)
+
+    t1[c_lt_tol] = 0.0
+    t2[c_lt_tol] = 0.0
+    t1[project] = np.clip(-d[project] / a[project], 0.0, 1.0)
 
     p1 = p11 + t1 * u
     p2 = p21 + t2 * v
-- 
2.43.0


From e2298d8c547492fa10307308ebac48cb16d0de3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:12 +0000
Subject: [PATCH 04/40] fix: "almost" intersections of the curves with integer
 data

---
 skcurve/_geomalg.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/skcurve/_geomalg.py b/skcurve/_geomalg.py
index 3e9a1a1..d8e72e6 100644
--- a/skcurve/_geomalg.py
+++ b/skcurve/_geomalg.py
@@ -491,6 +491,10 @@ def segments_to_segments(data1: np.ndarray, data2: np.ndarray, tol: float = F_EP
 
     """
 
+    # Integer data should not be used to compute dot products and "t" parameters
+    data1 = np.asarray(data1, dtype=np.float64)
+    data2 = np.asarray(data2, dtype=np.float64)
+
     m1 = data1.shape[0] - 1
     m2 = data2.shape[0] - 1
 
-- 
2.43.0


From 525dbe963fb22524da64194511494bcbd8b677e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:22 +0000
Subject: [PATCH 05/40] fix: "t" value for the sequence with single not
 collinear point

---
 skcurve/_geomalg.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/skcurve/_geomalg.py b/skcurve/_geomalg.py
index d8e72e6..53ae140 100644
--- a/skcurve/_geomalg.py
+++ b/skcurve/_geomalg.py
@@ -108,12 +108,11 @@ def segment_t(segment: 'Segment', point: ty.Union['Point', ty.Sequence['Point']]
     if is_collinear.size == 0:
         return float(t)
     else:
+        t = np.atleast_1d(t)
         if not np.all(is_collinear):
             warnings.warn(
                 "Some given points are not collinear with the segment", GeometryAlgorithmsWarning)
             t[~is_collinear] = np.nan
-        if t.size == 1:
-            t = np.array(t, ndmin=1)
         return t
 
 
-- 
2.43.0


From 11caf2aa038e1b32746128e8cc972aa354535b95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:33 +0000
Subject: [PATCH 06/40] fix: coplanarity of less than four points and unsigned
 integer data

---
 skcurve/_geomalg.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/skcurve/_geomalg.py b/skcurve/_geomalg.py
index 53ae140..eec02b3 100644
--- a/skcurve/_geomalg.py
+++ b/skcurve/_geomalg.py
@@ -251,12 +251,12 @@ def coplanar_points(points: ty.Union[ty.List['Point'], np.ndarray],
     """
 
     if isinstance(points, np.ndarray):
-        points_data = np.array(points)
+        points_data = np.array(points, dtype=np.float64)
     else:
         points_data = np.vstack([point.data for point in points])
 
-    if points_data.shape[1] < 3:
-        # In dimension < 3 the points are coplanar
+    if points_data.shape[1] < 3 or points_data.shape[0] < 4:
+        # In dimension < 3 the points are coplanar. Also three points are always coplanar.
         return True
 
     # Relative differences
-- 
2.43.0


From 1caa2b02ae97c53ddcc13b41d94fee5c8e30e53d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:44 +0000
Subject: [PATCH 07/40] fix: negative index that is out of curve size

---
 skcurve/_base.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/skcurve/_base.py b/skcurve/_base.py
index 78ab123..d18ad37 100644
--- a/skcurve/_base.py
+++ b/skcurve/_base.py
@@ -403,6 +403,8 @@ class CurvePoint(Point, _diffgeom.CurvePointFunctionMixin):
     def __init__(self, curve: 'Curve', index: int):
         if index < 0:
             index = curve.size + index
+        if index < 0 or index >= curve.size:
+            raise IndexError('The index is out of curve size')
 
         self._curve = curve
         self._idx = index
@@ -929,7 +931,7 @@ class CurveSegment(Segment):
     def __init__(self, curve: 'Curve', index: int) -> None:
         if index < 0:
             index = (curve.size - 1) + index
-        if index >= (curve.size - 1):
+        if index < 0 or index >= (curve.size - 1):
             raise ValueError('The index is out of curve size')
 
         self._curve = curve
-- 
2.43.0


From eb9b4fe9a82530c3213d239ed3006eb9c1a4a26f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:55 +0000
Subject: [PATCH 08/40] fix: raise ValueError if dtype is not numeric

---
 skcurve/_base.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/skcurve/_base.py b/skcurve/_base.py
index d18ad37..1d194ac 100644
--- a/skcurve/_base.py
+++ b/skcurve/_base.py
@@ -139,7 +139,7 @@ class Point(abc.Sequence):
             dtype = DEFAULT_DTYPE
 
         if not np.issubdtype(dtype, np.number):
-            ValueError('dtype must be a numeric type.')
+            raise ValueError('dtype must be a numeric type.')
 
         data = np.array(point_data, dtype=np.dtype(dtype))
 
@@ -1139,7 +1139,7 @@ class Curve(abc.Sequence, _diffgeom.CurvePointFunctionMixin):
         dtype = np.dtype(dtype)
 
         if not np.issubdtype(dtype, np.number):
-            ValueError(f"'dtype' must be a numeric type not {dtype}.")
+            raise ValueError(f"'dtype' must be a numeric type not {dtype}.")
 
         data = as2d(curve_data, axis=axis).astype(dtype)
 
-- 
2.43.0


From ab396ba7295337acc8e43d6892c78f706fb819c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:08 +0000
Subject: [PATCH 09/40] fix: keep the dimension of an empty curve

---
 skcurve/_base.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/skcurve/_base.py b/skcurve/_base.py
index 1d194ac..a71d336 100644
--- a/skcurve/_base.py
+++ b/skcurve/_base.py
@@ -1144,6 +1144,9 @@ class Curve(abc.Sequence, _diffgeom.CurvePointFunctionMixin):
         data = as2d(curve_data, axis=axis).astype(dtype)
 
         if data.size == 0:
+            if is_array and curve_data.ndim == 2:
+                # Keep the dimension of empty data (of sub-curve without points, for example)
+                ndmin = max(ndmin, curve_data.shape[1 if axis in (0, -2) else 0])
             data = np.reshape([], (0, ndmin)).astype(dtype)
 
         m, n = data.shape
-- 
2.43.0


From 23512d110a0456754ada7838e2fe4f2bfb422bdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:17 +0000
Subject: [PATCH 10/40] fix: index of the point when start index is negative

---
 skcurve/_base.py | 12 +++---------
 1 file changed, 3 insertions(+), 9 deletions(-)

diff --git a/skcurve/_base.py b/skcurve/_base.py
index a71d336..339bfa7 100644
--- a/skcurve/_base.py
+++ b/skcurve/_base.py
@@ -1384,21 +1384,15 @@ class Curve(abc.Sequence, _diffgeom.CurvePointFunctionMixin):
 
         self._check_ndim(point)
 
-        if start is None and end is None:
-            data = self._data
-        else:
-            data = self._data[slice(start, end)]
+        start, end, _ = slice(start, end).indices(self.size)
+        data = self._data[start:end]
 
         is_close = allequal(point.data, data, axis=1)
 
         if not np.any(is_close):
             raise ValueError(f'{point} is not in curve and given interval')
 
-        indices = np.flatnonzero(is_close)
-
-        if start:
-            indices += start
-
+        indices = np.flatnonzero(is_close) + start
         return indices[0]
 
     def count(self, point: Point) -> int:
-- 
2.43.0


From 8dc0dd102159ed97ca1eb697a0f66879b720c627 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:30 +0000
Subject: [PATCH 11/40] fix: slice of the point is the point with the same
 dtype

---
 skcurve/_base.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/skcurve/_base.py b/skcurve/_base.py
index 339bfa7..3d86aa5 100644
--- a/skcurve/_base.py
+++ b/skcurve/_base.py
@@ -194,8 +194,8 @@ class Point(abc.Sequence):
 
         data = self._data[index]
 
-        if data.size > 1:
-            return Point(data)
+        if data.ndim > 0:
+            return Point(data, dtype=data.dtype)
         else:
             return data
 
-- 
2.43.0


From b00107db3e4f06e00f909a64ee54d1672a00b57f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:41 +0000
Subject: [PATCH 12/40] fix: needless warning when the parametric curve is
 co-oriented

---
 skcurve/_base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skcurve/_base.py b/skcurve/_base.py
index 3d86aa5..12fabd7 100644
--- a/skcurve/_base.py
+++ b/skcurve/_base.py
@@ -1689,7 +1689,7 @@ class Curve(abc.Sequence, _diffgeom.CurvePointFunctionMixin):
         if not is_coorient:
             return self.reverse()
         else:
-            return Curve(self, tdata=self._tdata)
+            return Curve(self)
 
     def insert(self, index: Indexer, other: PointCurveUnion) -> 'Curve':
         """Inserts point or sub-curve to the curve and returns new curve
-- 
2.43.0


From e5183b164dae6863f981e322c67c275699739333 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:52 +0000
Subject: [PATCH 13/40] fix: chord lengths of the empty curves and integer data

---
 skcurve/_diffgeom.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/skcurve/_diffgeom.py b/skcurve/_diffgeom.py
index 9265fff..24c65e2 100644
--- a/skcurve/_diffgeom.py
+++ b/skcurve/_diffgeom.py
@@ -86,9 +86,15 @@ def chordlen(curve: 'Curve') -> np.ndarray:
     """
 
     if not curve:
-        return np.ndarray([], dtype=np.float64)
+        return np.zeros(0, dtype=np.float64)
 
-    return np.sqrt(np.sum((np.diff(curve.data, axis=0))**2, axis=1))
+    data = curve.data
+
+    if np.issubdtype(data.dtype, np.integer):
+        # Avoid overflow
+        data = data.astype(np.float64)
+
+    return np.sqrt(np.sum((np.diff(data, axis=0))**2, axis=1))
 
 
 def arclen(curve: 'Curve') -> float:
@@ -237,6 +243,9 @@ class CurvePointFunctionMixin:
 
         """
 
+        if not self:
+            return np.zeros(0, dtype=np.float64)
+
         return np.hstack((0.0, np.cumsum(self.chordlen)))
 
     @cached_property
-- 
2.43.0


From fd34984d8f258278811abd0fb94e0538ea076dad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:04 +0000
Subject: [PATCH 14/40] fix: shape of the differential geometry values for the
 empty and single-point curves

---
 skcurve/_diffgeom.py | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/skcurve/_diffgeom.py b/skcurve/_diffgeom.py
index 24c65e2..5362abf 100644
--- a/skcurve/_diffgeom.py
+++ b/skcurve/_diffgeom.py
@@ -143,7 +143,7 @@ def _gradient(data: np.ndarray, edge_order: int = DEFAULT_GRAD_EDGE_ORDER) -> np
     m_rows = data.shape[0]
 
     if m_rows == 0:
-        return np.array([], dtype=np.float64)
+        return np.zeros(data.shape, dtype=np.float64)
 
     for edge_order in range(edge_order, 0, -1):
         if m_rows < (edge_order + 1):
@@ -155,7 +155,7 @@ def _gradient(data: np.ndarray, edge_order: int = DEFAULT_GRAD_EDGE_ORDER) -> np
             break
     else:
         warnings.warn('Cannot calculate a numerical gradient.', DifferentialGeometryWarning)
-        return np.zeros((m_rows, 1), dtype=np.float64)
+        return np.zeros(data.shape, dtype=np.float64)
 
     return np.gradient(data, axis=0, edge_order=edge_order)
 
@@ -357,7 +357,7 @@ class CurvePointFunctionMixin:
         curve = self
 
         if not curve:
-            return np.array([], ndmin=curve.ndim, dtype=np.float64)
+            return np.zeros((0, curve.ndim), dtype=np.float64)
 
         sder = curve.secondderiv
         e1 = curve.frenet1
@@ -394,7 +394,7 @@ class CurvePointFunctionMixin:
         curve = self
 
         if not curve:
-            return np.array([], ndmin=curve.ndim, dtype=np.float64)
+            return np.zeros((0, curve.ndim), dtype=np.float64)
 
         tder = curve.thirdderiv
         e1 = curve.frenet1
@@ -449,7 +449,7 @@ class CurvePointFunctionMixin:
         curve = self
 
         if not curve:
-            return np.array([], ndmin=curve.ndim, dtype=np.float64)
+            return np.zeros((0, curve.ndim), dtype=np.float64)
 
         not_well_defined_warn_msg = (
             'Cannot calculate the first Frenet vectors (unit tangent vectors). '
@@ -489,7 +489,7 @@ class CurvePointFunctionMixin:
         curve = self
 
         if not curve:
-            return np.array([], ndmin=curve.ndim, dtype=np.float64)
+            return np.zeros((0, curve.ndim), dtype=np.float64)
 
         not_well_defined_warn_msg = (
             'Cannot calculate the second Frenet vectors (unit normal vectors). '
@@ -531,7 +531,7 @@ class CurvePointFunctionMixin:
         curve = self
 
         if not curve:
-            return np.array([], ndmin=curve.ndim, dtype=np.float64)
+            return np.zeros((0, curve.ndim), dtype=np.float64)
 
         not_well_defined_warn_msg = (
             'Cannot calculate the third Frenet vectors (unit binormal vectors). '
@@ -590,7 +590,7 @@ class CurvePointFunctionMixin:
         curve = self
 
         if not curve:
-            return np.array([], ndmin=curve.ndim, dtype=np.float64)
+            return np.zeros(0, dtype=np.float64)
 
         if curve.is2d:
             # Compute signed curvature value for a plane curve
@@ -639,7 +639,7 @@ class CurvePointFunctionMixin:
         curve = self
 
         if not curve:
-            return np.array([], ndmin=curve.ndim, dtype=np.float64)
+            return np.zeros(0, dtype=np.float64)
 
         e2_grad = _gradient(curve.frenet2)
         tangent_norm = np.linalg.norm(curve.tangent, axis=1)
-- 
2.43.0


From 308cb182d2a61fd3e5356252c6eaaf3da03eb98b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:14 +0000
Subject: [PATCH 15/40] fix: close points that are separated by non-finite
 points are singular

---
 skcurve/_diffgeom.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/skcurve/_diffgeom.py b/skcurve/_diffgeom.py
index 5362abf..44ffa59 100644
--- a/skcurve/_diffgeom.py
+++ b/skcurve/_diffgeom.py
@@ -57,13 +57,14 @@ def nonsingular(curve: 'Curve'):
 
     """
 
-    chord_lengths = curve.chordlen
+    # Non-finite points should be dropped first because they hide the close points around them
+    curve = curve.drop(lambda curve_data: np.isnan(curve_data) | np.isinf(curve_data))
 
-    def is_singular(curve_data):
-        return (np.any(np.isnan(curve_data) | np.isinf(curve_data), axis=1) |
-                np.isclose(np.hstack([1.0, chord_lengths]), 0.0))
+    if not curve:
+        return curve
 
-    return curve.drop(is_singular)
+    chord_lengths = curve.chordlen
+    return curve.drop(lambda curve_data: np.isclose(np.hstack([1.0, chord_lengths]), 0.0))
 
 
 def chordlen(curve: 'Curve') -> np.ndarray:
-- 
2.43.0


From 3a432e9fc26ed29e3d2fd7fbc51618208e17d18b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:25 +0000
Subject: [PATCH 16/40] fix: smoothed curve has float64 type

---
 skcurve/_smooth.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/skcurve/_smooth.py b/skcurve/_smooth.py
index b71e98f..5b30adf 100644
--- a/skcurve/_smooth.py
+++ b/skcurve/_smooth.py
@@ -170,7 +170,7 @@ def window_filter(curve: 'Curve',
     window /= window.sum()
 
     return ndimage.convolve1d(
-        curve.data,
+        curve.data.astype(np.float64),
         weights=window,
         mode=mode,
         cval=cval,
@@ -216,4 +216,4 @@ def smooth(curve: 'Curve', method: str, **params) -> 'Curve':
     except Exception as err:
         raise SmoothingError(f'Smoothing has failed: {err}') from err
 
-    return type(curve)(smoothed_data)
+    return type(curve)(smoothed_data, dtype=np.float64)
-- 
2.43.0


From df99c3ea36be5b5c4be9cacfad985e22955a2ab5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:38 +0000
Subject: [PATCH 17/40] fix: registering decorators return the decorated object

---
 skcurve/_interpolate.py | 1 +
 skcurve/_intersect.py   | 2 ++
 skcurve/_smooth.py      | 1 +
 3 files changed, 4 insertions(+)

diff --git a/skcurve/_interpolate.py b/skcurve/_interpolate.py
index ba10931..5c9be25 100644
--- a/skcurve/_interpolate.py
+++ b/skcurve/_interpolate.py
@@ -394,6 +394,7 @@ def register_interpolator(method: str):
         if not issubclass(cls, InterpolatorBase):
             raise TypeError(f"{cls} is not a subclass of 'InterpolatorBase'")
         _interpolators[method] = cls
+        return cls
     return decorator
 
 
diff --git a/skcurve/_intersect.py b/skcurve/_intersect.py
index bf51f66..3bd67c8 100644
--- a/skcurve/_intersect.py
+++ b/skcurve/_intersect.py
@@ -435,6 +435,8 @@ def register_intersect_method(method: str, default: bool = False):
         if default:
             set_default_intersect_method(method)
 
+        return cls
+
     return decorator
 
 
diff --git a/skcurve/_smooth.py b/skcurve/_smooth.py
index 5b30adf..c27b08b 100644
--- a/skcurve/_smooth.py
+++ b/skcurve/_smooth.py
@@ -71,6 +71,7 @@ def register_smooth_method(method: str):
             raise ValueError(
                 f"'{method}' smoothing method already registered for {_smooth_methods[method]}")
         _smooth_methods[method] = method_callable
+        return method_callable
 
     return decorator
 
-- 
2.43.0


From 55a2b48004102058433febda7c50662f8eb1a078 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:48 +0000
Subject: [PATCH 18/40] fix: IntersectionType.NONE can be called with None

---
 skcurve/_intersect.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skcurve/_intersect.py b/skcurve/_intersect.py
index 3bd67c8..b1d5971 100644
--- a/skcurve/_intersect.py
+++ b/skcurve/_intersect.py
@@ -57,7 +57,7 @@ class IntersectionType(enum.Enum):
     ALMOST = 3
 
     def __call__(self, intersect_data: ty.Optional[ty.Union['Point', 'Segment']] = None) -> 'IntersectionInfo':
-        if self == IntersectionType.NONE and intersect_data is not IntersectionType:
+        if self == IntersectionType.NONE and intersect_data is not None:
             raise ValueError(f"'intersect_data' must be 'None' for type {self}")
 
         if self == IntersectionType.EXACT and not isinstance(intersect_data, skcurve._base.Point):
-- 
2.43.0


From 56d89a6c30741381bb14ef491f20118852f4fda8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:59 +0000
Subject: [PATCH 19/40] fix: negative axis that is out of array shape

---
 skcurve/_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skcurve/_utils.py b/skcurve/_utils.py
index e6bedc2..1fa5c2a 100644
--- a/skcurve/_utils.py
+++ b/skcurve/_utils.py
@@ -35,7 +35,7 @@ def as2d(arr: np.ndarray, axis: int) -> np.ndarray:
     orig_axis = axis
     axis = arr.ndim + axis if axis < 0 else axis
 
-    if axis >= arr.ndim:
+    if not 0 <= axis < arr.ndim:
         raise ValueError(f'axis {orig_axis} is out of array shape {arr.shape}.')
 
     tr_axes = list(range(arr.ndim))
-- 
2.43.0


From d2f8b8f1b3f79dbce49fca04954283b1b2b8e687 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:29 +0000
Subject: [PATCH 20/40] fix: window that was created by the user callable
 should not be changed

---
 skcurve/_smooth.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skcurve/_smooth.py b/skcurve/_smooth.py
index c27b08b..1e7cc65 100644
--- a/skcurve/_smooth.py
+++ b/skcurve/_smooth.py
@@ -168,7 +168,7 @@ def window_filter(curve: 'Curve',
     else:
         window = windows.get_window(window_type, window_size, fftbins=False)
 
-    window /= window.sum()
+    window = window / window.sum()
 
     return ndimage.convolve1d(
         curve.data.astype(np.float64),
-- 
2.43.0


From a6099ad3158f7a11116099da1a764502ad1d0412 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:50 +0000
Subject: [PATCH 21/40] fix: insert by the sequence of indices that are out of
 bounds

---
 skcurve/_base.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/skcurve/_base.py b/skcurve/_base.py
index 12fabd7..3d9def4 100644
--- a/skcurve/_base.py
+++ b/skcurve/_base.py
@@ -1756,6 +1756,13 @@ class Curve(abc.Sequence, _diffgeom.CurvePointFunctionMixin):
         else:
             raise TypeError('Inserted object must be Point or Curve instance')
 
+        if isinstance(index, (abc.Sequence, np.ndarray)):
+            # numpy does not check all of the indices when the sequence of indices is used
+            indices = np.asarray(index)
+            if np.any((indices < -self.size) | (indices > self.size)):
+                raise IndexError(
+                    f'Index {index} is out of bounds for curve size {self.size}')
+
         try:
             return Curve(
                 np.insert(self._data, index, other_data, axis=0)
-- 
2.43.0


From 3b40635cd6c06ef6dc6eec6d1106d1dfbb3eb73e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:10 +0000
Subject: [PATCH 22/40] fix: integer overflow in the point operations

---
 skcurve/_base.py | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/skcurve/_base.py b/skcurve/_base.py
index 3d9def4..15781e2 100644
--- a/skcurve/_base.py
+++ b/skcurve/_base.py
@@ -79,6 +79,13 @@ DEFAULT_DTYPE = np.float64
 DATA_FORMAT_PRECISION = 4
 
 
+def _as_computable(data: np.ndarray) -> np.ndarray:
+    """Returns the data that can be used in computations without integer overflow
+    """
+
+    return data.astype(np.float64) if np.issubdtype(data.dtype, np.integer) else data
+
+
 class Axis(enum.IntEnum):
     """The enumeration represents three basic axes: X, Y and Z
     """
@@ -269,7 +276,7 @@ class Point(abc.Sequence):
         if not isinstance(other, Point):
             return NotImplemented
 
-        return ty.cast(Numeric, np.dot(self._data, other.data))
+        return ty.cast(Numeric, np.dot(_as_computable(self._data), _as_computable(other.data)))
 
     def __copy__(self) -> 'Point':
         return self.__deepcopy__()
@@ -357,13 +364,13 @@ class Point(abc.Sequence):
         if not callable(metric):
             raise TypeError('Metric must be str or callable')
 
-        return metric(self._data, other.data)
+        return metric(_as_computable(self._data), _as_computable(other.data))
 
     def _op(self, op, other: ty.Union['Point', Numeric], right: bool = False) -> ty.Optional['Point']:
-        left_data = self._data
+        left_data = _as_computable(self._data)
 
         if isinstance(other, Point):
-            right_data = other.data
+            right_data = _as_computable(other.data)
         elif isinstance(other, numbers.Number):
             right_data = other
         else:
-- 
2.43.0


From 52867861c4f8285df024ca9d225a7221d676aba4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:21 +0000
Subject: [PATCH 23/40] fix: collinearity and "t" value for unsigned integer
 points

---
 skcurve/_geomalg.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/skcurve/_geomalg.py b/skcurve/_geomalg.py
index eec02b3..95ba757 100644
--- a/skcurve/_geomalg.py
+++ b/skcurve/_geomalg.py
@@ -88,11 +88,11 @@ def segment_t(segment: 'Segment', point: ty.Union['Point', ty.Sequence['Point']]
                 f"Given point '{point}' is not collinear with the segment '{segment}'",
                 GeometryAlgorithmsWarning)
             return np.nan
-        b = point.data - segment.p1.data
+        b = (point - segment.p1).data
         is_collinear = np.asarray([])
     else:
         is_collinear = np.array([segment.collinear(p, tol=tol) for p in point], dtype=np.bool_)
-        b = np.stack([p.data - segment.p1.data for p in point], axis=1)
+        b = np.stack([(p - segment.p1).data for p in point], axis=1)
 
     a = segment.direction.data[np.newaxis].T
 
@@ -219,6 +219,9 @@ def collinear_points(points: ty.Union[ty.List['Point'], np.ndarray],
     else:
         points_data = np.vstack([point.data for point in points]).T
 
+    # Unsigned integer data should not be used to compute relative coordinates
+    points_data = points_data.astype(np.float64)
+
     m = np.unique(points_data, axis=1)
 
     if m.shape[1] < 3:
-- 
2.43.0


From 68ae9bd4f134d2050a4a1565efcc820bceecb3be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:18 +0000
Subject: [PATCH 24/40] fix: overlap of segments with unsigned integer
 coordinates

---
 skcurve/_geomalg.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/skcurve/_geomalg.py b/skcurve/_geomalg.py
index 95ba757..fc62208 100644
--- a/skcurve/_geomalg.py
+++ b/skcurve/_geomalg.py
@@ -309,10 +309,10 @@ def overlap_segments(segment1: 'Segment', segment2: 'Segment',
         return None
 
     # The overlap is the diagonal of the box that is co-directed with the segments
-    direction = p12_data - p11_data
+    direction = segment1.direction.data
 
     if not np.any(direction):
-        direction = p22_data - p21_data
+        direction = segment2.direction.data
 
     if np.any(direction) and direction[np.flatnonzero(direction)[0]] < 0:
         direction = -direction
-- 
2.43.0


From 29f23212d3be2a2ebae52e93a45728ef69b2c702 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:27 +0000
Subject: [PATCH 25/40] fix: parallelism of short segments

The tolerance of the parallelism was absolute, so all short segments (about 1e-4 and less)
were parallel and the intersections of the dense curves were lost.
---
 skcurve/_geomalg.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/skcurve/_geomalg.py b/skcurve/_geomalg.py
index fc62208..4892a7d 100644
--- a/skcurve/_geomalg.py
+++ b/skcurve/_geomalg.py
@@ -182,12 +182,16 @@ def parallel_segments(segment1: 'Segment', segment2: 'Segment', tol: float = F_E
     v = segment2.direction
 
     a = u @ u
-    b = u @ v
     c = v @ v
 
-    d = a * c - b * b
+    if a == 0 or c == 0:
+        return True
+
+    # The part of "v" that is perpendicular to "u".
+    # The tolerance is relative because the result must not depend on the segment lengths.
+    w = v - u * ((u @ v) / a)
 
-    return d < tol
+    return bool(w @ w < tol * c)
 
 
 def collinear_points(points: ty.Union[ty.List['Point'], np.ndarray],
-- 
2.43.0


From 4e14cf2e0245e153b25231c0ce298648d050b823 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:23 +0000
Subject: [PATCH 26/40] fix: shortest segment between almost parallel and short
 segments

The tolerances were absolute: short crossing segments (about 1e-4 and less) were parallel, and
the determinant of long parallel segments that is affected by rounding errors gave a wrong result.
---
 skcurve/_geomalg.py | 27 +++++++++++++++++----------
 1 file changed, 17 insertions(+), 10 deletions(-)

diff --git a/skcurve/_geomalg.py b/skcurve/_geomalg.py
index 4892a7d..c407b5d 100644
--- a/skcurve/_geomalg.py
+++ b/skcurve/_geomalg.py
@@ -404,16 +404,15 @@ def segment_to_segment(segment1: 'Segment', segment2: 'Segment', tol: float = F_
         return t1, 0.0
 
     dd = a * c - b * b
-    sd = td = dd
+    sd = dd
 
     # Compute the line parameters of the two closest points
-    if dd < tol:
+    if dd <= tol * a * c:
         # the lines are almost parallel
         sn, sd = 0.0, 1.0
         tn, td = e, c
     else:
         sn = b * e - c * d
-        tn = a * e - b * d
 
         if sn < 0.0:
             # sc < 0 => the s=0 edge is visible
@@ -424,6 +423,10 @@ def segment_to_segment(segment1: 'Segment', segment2: 'Segment', tol: float = F_
             sn = sd
             tn = e + b
             td = c
+        else:
+            # "t2" must be the nearest to "t1" even if "dd" is affected by rounding errors
+            tn = e + b * sn / sd
+            td = c
 
     if tn < 0.0:
         # tc < 0 => the t=0 edge is visible
@@ -449,8 +452,8 @@ def segment_to_segment(segment1: 'Segment', segment2: 'Segment', tol: float = F_
             sd = a
 
     # finally do the division to get sc and tc
-    t1 = 0.0 if np.abs(sn) < tol else sn / sd
-    t2 = 0.0 if np.abs(tn) < tol else tn / td
+    t1 = 0.0 if np.abs(sn) <= tol * sd else sn / sd
+    t2 = 0.0 if np.abs(tn) <= tol * td else tn / td
 
     return t1, t2
 
@@ -527,7 +530,7 @@ def segments_to_segments(data1: np.ndarray, data2: np.ndarray, tol: float = F_EP
     sn = np.zeros_like(dd)
     tn = np.zeros_like(dd)
 
-    dd_lt_tol = dd < tol
+    dd_lt_tol = dd <= tol * a * c
     not_dd_lt_tol = ~dd_lt_tol
 
     sd[dd_lt_tol] = 1.0
@@ -535,10 +538,8 @@ def segments_to_segments(data1: np.ndarray, data2: np.ndarray, tol: float = F_EP
     td[dd_lt_tol] = c[dd_lt_tol]
 
     be_cd = b * e - c * d
-    ae_bd = a * e - b * d
 
     sn[not_dd_lt_tol] = be_cd[not_dd_lt_tol]
-    tn[not_dd_lt_tol] = ae_bd[not_dd_lt_tol]
 
     sn_lt_zero = (sn < 0) & not_dd_lt_tol
 
@@ -552,6 +553,12 @@ def segments_to_segments(data1: np.ndarray, data2: np.ndarray, tol: float = F_EP
     tn[sn_gt_sd] = e[sn_gt_sd] + b[sn_gt_sd]
     td[sn_gt_sd] = c[sn_gt_sd]
 
+    # "t2" must be the nearest to "t1" even if "dd" is affected by rounding errors
+    sn_else = (~sn_lt_zero & ~sn_gt_sd) & not_dd_lt_tol
+
+    tn[sn_else] = e[sn_else] + b[sn_else] * sn[sn_else] / sd[sn_else]
+    td[sn_else] = c[sn_else]
+
     tn_lt_zero = tn < 0
     tn[tn_lt_zero] = 0.0
 
@@ -578,8 +585,8 @@ def segments_to_segments(data1: np.ndarray, data2: np.ndarray, tol: float = F_EP
     sn[bmd_else] = bmd[bmd_else]
     sd[bmd_else] = a[bmd_else]
 
-    abs_sn_gt_tol = ~(np.abs(sn) < tol)
-    abs_tn_gt_tol = ~(np.abs(tn) < tol)
+    abs_sn_gt_tol = ~(np.abs(sn) <= tol * sd)
+    abs_tn_gt_tol = ~(np.abs(tn) <= tol * td)
 
     t1 = np.zeros_like(dd)
     t2 = np.zeros_like(dd)
-- 
2.43.0


From bd0ec0b269d64eb39ffe9fedc52760947e5739d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:34 +0000
Subject: [PATCH 27/40] fix: shortest segment between a short segment and a
 point

---
 skcurve/_geomalg.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/skcurve/_geomalg.py b/skcurve/_geomalg.py
index c407b5d..bda8b74 100644
--- a/skcurve/_geomalg.py
+++ b/skcurve/_geomalg.py
@@ -350,12 +350,12 @@ def segment_to_point(segment: 'Segment', point: 'Point') -> float:
 
     c1 = to_point_direction @ segment_direction
 
-    if c1 < 0 or np.isclose(c1, 0):
+    if c1 <= 0:
         return 0.0
 
     c2 = segment_direction @ segment_direction
 
-    if c2 < c1 or np.isclose(c2, c1):
+    if c2 <= c1:
         return 1.0
 
     t = c1 / c2
-- 
2.43.0


From e02c1a126dbd6c314c4d2354b186a2c0484b7464 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:45 +0000
Subject: [PATCH 28/40] fix: angle between short segments

---
 skcurve/_geomalg.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/skcurve/_geomalg.py b/skcurve/_geomalg.py
index bda8b74..5eb0452 100644
--- a/skcurve/_geomalg.py
+++ b/skcurve/_geomalg.py
@@ -139,15 +139,16 @@ def segments_angle(segment1: 'Segment', segment2: 'Segment',
     u1 = segment1.direction
     u2 = segment2.direction
 
-    denominator = u1.norm() * u2.norm()
+    norm1 = u1.norm()
+    norm2 = u2.norm()
 
-    if np.isclose(denominator, 0.0):
+    if np.isclose(norm1, 0.0) or np.isclose(norm2, 0.0):
         warnings.warn(
             'Cannot compute angle between segments. One or both segments degenerate into a point.',
             GeometryAlgorithmsWarning)
         return np.nan
 
-    cos_phi = (u1 @ u2) / denominator
+    cos_phi = (u1 @ u2) / (norm1 * norm2)
 
     if ndigits is not None:
         cos_phi = round(cos_phi, ndigits=ndigits)
-- 
2.43.0


From 01f58000978a0cb39ad414670d7ddac22ae9d8b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:17 +0000
Subject: [PATCH 29/40] fix: segments that are far from the origin are not
 singular

The relative tolerance of the points comparison made singular the segments that are short
relative to the coordinates, and their intersections were lost.
---
 skcurve/_base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skcurve/_base.py b/skcurve/_base.py
index 15781e2..318709f 100644
--- a/skcurve/_base.py
+++ b/skcurve/_base.py
@@ -598,7 +598,7 @@ class Segment:
             Returns True if the segment is singular (has zero lenght)
         """
 
-        return self.p1 == self.p2
+        return bool(np.isclose(self.seglen, 0.0))
 
     @property
     def seglen(self) -> Numeric:
-- 
2.43.0


From ef9e7ed7c3f247cd197a211ad2f3fa33d354af09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:25 +0000
Subject: [PATCH 30/40] fix: csaps interpolation if the grid size is equal to
 the curve dimension

---
 skcurve/_interpolate.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/skcurve/_interpolate.py b/skcurve/_interpolate.py
index 5c9be25..fdc59cf 100644
--- a/skcurve/_interpolate.py
+++ b/skcurve/_interpolate.py
@@ -632,11 +632,13 @@ class CsapsInterpolator(InterpolatorBase):
                  smooth: ty.Optional[float] = 1.0,
                  weights: ty.Optional[np.ndarray] = None):
         super().__init__(curve)
+        # csaps cannot be used with "axis=0" because the result is not transposed
+        # if the grid size is equal to the dimension
         self.csaps = csaps.CubicSmoothingSpline(
-            curve.t, curve.data, weights=weights, smooth=smooth, axis=0)
+            curve.t, curve.data.T, weights=weights, smooth=smooth, axis=-1)
 
     def _interpolate(self, grid: np.ndarray) -> np.ndarray:
-        return self.csaps(grid)
+        return self.csaps(grid).T
 
 
 def interp_methods() -> ty.List[str]:
-- 
2.43.0


From 6e3638d8204c2b6cf864399c208c1a1f1a6c47c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:34 +0000
Subject: [PATCH 31/40] fix: interpolation of the empty and single-point curves

---
 skcurve/_interpolate.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/skcurve/_interpolate.py b/skcurve/_interpolate.py
index fdc59cf..5de57b7 100644
--- a/skcurve/_interpolate.py
+++ b/skcurve/_interpolate.py
@@ -725,5 +725,9 @@ def interpolate(curve: 'Curve', grid_spec: InterpGridSpecType, method: str, **pa
 
     """
 
+    if method in _interpolators and curve.size < 2:
+        # Interpolators cannot be created if there are no segments in the curve
+        return InterpolatorBase(curve)(grid_spec)
+
     interpolator = get_interpolator(method, curve, **params)
     return interpolator(grid_spec)
-- 
2.43.0


From e5cbeca445086ed98727ac5a839c0d0d273a70d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:41 +0000
Subject: [PATCH 32/40] fix: refuse interpolation grids with non-finite values

---
 skcurve/_interpolate.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/skcurve/_interpolate.py b/skcurve/_interpolate.py
index 5de57b7..6bf6d21 100644
--- a/skcurve/_interpolate.py
+++ b/skcurve/_interpolate.py
@@ -355,6 +355,9 @@ class InterpolatorBase:
         if not np.issubdtype(grid.dtype, np.number):
             raise ValueError(f'Invalid dtype {grid.dtype} of interpolation grid')
 
+        if not np.all(np.isfinite(grid)):
+            raise ValueError('The values in the interpolation grid must be finite.')
+
         dt = np.diff(grid)
 
         if np.any(dt < 0) or np.any(np.isclose(dt, 0)):
-- 
2.43.0


From 710e4cce28d7fa28a2113fa4d3d684ef8aa548c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:47:37 +0000
Subject: [PATCH 33/40] fix: akima interpolation of the curve with two points

---
 skcurve/_interpolate.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/skcurve/_interpolate.py b/skcurve/_interpolate.py
index 6bf6d21..30aafe5 100644
--- a/skcurve/_interpolate.py
+++ b/skcurve/_interpolate.py
@@ -528,7 +528,12 @@ class AkimaInterpolator(InterpolatorBase):
 
     def __init__(self, curve: 'Curve'):
         super().__init__(curve)
-        self.akima = interp.Akima1DInterpolator(curve.t, curve.data, axis=0)
+
+        if curve.size < 3:
+            # Akima1DInterpolator is wrong for two points, the interpolant is the straight line in this case
+            self.akima = interp.PchipInterpolator(curve.t, curve.data, axis=0, extrapolate=False)
+        else:
+            self.akima = interp.Akima1DInterpolator(curve.t, curve.data, axis=0)
 
     def _interpolate(self, grid: np.ndarray) -> np.ndarray:
         return self.akima(grid)
-- 
2.43.0


From 25c17fa7930569996f1166834d4e93a49f1bf59d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:51:20 +0000
Subject: [PATCH 34/40] fix: invalid values of the interpolation grid
 parameters

---
 skcurve/_interpolate.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/skcurve/_interpolate.py b/skcurve/_interpolate.py
index 30aafe5..ea30695 100644
--- a/skcurve/_interpolate.py
+++ b/skcurve/_interpolate.py
@@ -119,6 +119,8 @@ class UniformInterpolationGrid(InterpolationGrid):
         elif kind == 'length':
             if not isinstance(fill, (int, float)):
                 raise TypeError("'fill' must be an integer or float for 'kind' == 'length'.")
+            if not fill > 0:
+                raise ValueError('The length of chord must be positive.')
 
         self.fill = fill
         self.kind = kind
@@ -128,7 +130,8 @@ class UniformInterpolationGrid(InterpolationGrid):
             raise ValueError(f'The curve size {curve.size} is too few')
 
         if self.kind == 'length':
-            pcount = int(round(curve.arclen / self.fill) + 1)
+            # The grid must cover the parametrization even if the length is greater than the curve length
+            pcount = max(int(round(curve.arclen / self.fill) + 1), 2)
         else:
             pcount = int(self.fill)
 
@@ -244,6 +247,9 @@ class PreservedSpeedInterpolationGrid(InterpolationGrid):
         self.interp_kind = interp_kind
 
     def __call__(self, curve: 'Curve') -> np.ndarray:
+        if self.pcount < 2:
+            raise ValueError('There must be at least two interpolation points.')
+
         if not curve.isparametric:
             x = np.linspace(0, 1, curve.size)
             xi = np.linspace(0, 1, self.pcount)
-- 
2.43.0


From 873675d7626d5f6412aac4a99bf6dbd7265465b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:54:24 +0000
Subject: [PATCH 35/40] fix: refuse smoothing windows whose weights add up to
 zero

A 'hann' or 'bartlett' window with size 2 has zero weights only; smoothing
divided by zero and returned a curve of NaN values.
---
 skcurve/_smooth.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/skcurve/_smooth.py b/skcurve/_smooth.py
index 1e7cc65..1fdebc6 100644
--- a/skcurve/_smooth.py
+++ b/skcurve/_smooth.py
@@ -168,7 +168,13 @@ def window_filter(curve: 'Curve',
     else:
         window = windows.get_window(window_type, window_size, fftbins=False)
 
-    window = window / window.sum()
+    window_sum = window.sum()
+
+    if window_sum == 0:
+        raise ValueError(
+            f'The weights of the window {window_type} with size {window_size} add up to zero')
+
+    window = window / window_sum
 
     return ndimage.convolve1d(
         curve.data.astype(np.float64),
-- 
2.43.0


From 48e56cc7899249e7e4b3f87dbcc3498694655e14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:12:55 +0000
Subject: [PATCH 36/40] fix: color range of plots if the parameter has
 undefined values

The curvature of singular points is NaN, and then the range of colors was
NaN too, so that the whole curve was drawn with meaningless colors.
---
 skcurve/plot.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skcurve/plot.py b/skcurve/plot.py
index 9171814..52d8437 100644
--- a/skcurve/plot.py
+++ b/skcurve/plot.py
@@ -136,7 +136,7 @@ class CurvePlot:
         else:
             line_collection = Line3DCollection
 
-        norm = Normalize(multicolor_values.min(), multicolor_values.max())
+        norm = Normalize(np.nanmin(multicolor_values), np.nanmax(multicolor_values))
         mappable = ScalarMappable(norm=norm, cmap=self._param_cmap)
         colors = mappable.to_rgba(multicolor_values)
 
-- 
2.43.0


From 37c94ce641e5aa7aa402ea938d817178711b85bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:41:25 +0000
Subject: [PATCH 37/40] fix: singularity of segments with non-finite
 coordinates

The length of such segments cannot be computed, and therefore the coordinates
are compared with the absolute tolerance only.
---
 skcurve/_base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skcurve/_base.py b/skcurve/_base.py
index 318709f..07dce6f 100644
--- a/skcurve/_base.py
+++ b/skcurve/_base.py
@@ -598,7 +598,7 @@ class Segment:
             Returns True if the segment is singular (has zero lenght)
         """
 
-        return bool(np.isclose(self.seglen, 0.0))
+        return self.p1 == self.p2 and bool(np.allclose(self.p1.data, self.p2.data, rtol=0.0))
 
     @property
     def seglen(self) -> Numeric:
-- 
2.43.0


From 61e57333a5dceabad76a8a9feb70e7ca88ea65ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:50 +0000
Subject: [PATCH 38/40] fix: intersections of long segments were lost because
 of rounding errors

The points on both segments are compared with the tolerance relative to
the magnitude of the coordinates, otherwise intersections near zero of any
coordinate are rejected if the segments are long.
---
 skcurve/_intersect.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/skcurve/_intersect.py b/skcurve/_intersect.py
index b1d5971..ad34a4d 100644
--- a/skcurve/_intersect.py
+++ b/skcurve/_intersect.py
@@ -513,8 +513,10 @@ class ExactIntersectionMethod(IntersectionMethodBase):
 
             if intersect_point1 != intersect_point2:
                 distance = intersect_point1.distance(intersect_point2)
+                # Rounding errors of the points depend on the magnitude of the coordinates
+                max_coord = np.max(np.abs(np.vstack((segment1.data, segment2.data)).astype(np.float64)))
 
-                if distance > self._feps:
+                if distance > max(self._feps, 1e-8 * max_coord):
                     warnings.warn(
                         f"Incorrect solution. The points for 't1' and 't2' are different (distance: {distance}).",
                         IntersectionWarning)
-- 
2.43.0


From 239042fd669c8b0c5d7c03d7861e71b5e432392e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:46 +0000
Subject: [PATCH 39/40] fix: coplanarity of points that are far from the origin

---
 skcurve/_geomalg.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/skcurve/_geomalg.py b/skcurve/_geomalg.py
index 5eb0452..4555389 100644
--- a/skcurve/_geomalg.py
+++ b/skcurve/_geomalg.py
@@ -267,6 +267,10 @@ def coplanar_points(points: ty.Union[ty.List['Point'], np.ndarray],
         # In dimension < 3 the points are coplanar. Also three points are always coplanar.
         return True
 
+    if tol is None:
+        # The threshold must consider rounding errors of the coordinates
+        tol = np.linalg.norm(points_data, 2) * max(points_data.shape) * F_EPS
+
     # Relative differences
     points_data -= points_data[-1, :]
     return np.linalg.matrix_rank(points_data[:-1, :], tol=tol) <= 2
-- 
2.43.0


From 763ec36d4665a9ffe3f156dfb8cf46b941e1509a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:07 +0000
Subject: [PATCH 40/40] fix: coplanarity of points with unsigned integer
 coordinates

---
 skcurve/_geomalg.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skcurve/_geomalg.py b/skcurve/_geomalg.py
index 4555389..3015cfc 100644
--- a/skcurve/_geomalg.py
+++ b/skcurve/_geomalg.py
@@ -261,7 +261,7 @@ def coplanar_points(points: ty.Union[ty.List['Point'], np.ndarray],
     if isinstance(points, np.ndarray):
         points_data = np.array(points, dtype=np.float64)
     else:
-        points_data = np.vstack([point.data for point in points])
+        points_data = np.vstack([point.data for point in points]).astype(np.float64)
 
     if points_data.shape[1] < 3 or points_data.shape[0] < 4:
         # In dimension < 3 the points are coplanar. Also three points are always coplanar.
-- 
2.43.0

