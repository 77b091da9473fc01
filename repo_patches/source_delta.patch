From 14ffb9a953b8ca66758d00437f6fa97e09f69a27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:40 +0000
Subject: [PATCH 01/30] fix: stop unbounded recursion when validating the
 values of an array subclass

np.isfinite on a Point/Vector calls __array_wrap__, which constructs the class
again, which calls np.isfinite again. On NumPy 1.x this recursed until
RecursionError (or a C stack overflow with a raised recursion limit) on every
arithmetic operation.
---
 src/skspatial/objects/_base_array.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/skspatial/objects/_base_array.py b/src/skspatial/objects/_base_array.py
index f9aae04..4e979d2 100644
--- a/src/skspatial/objects/_base_array.py
+++ b/src/skspatial/objects/_base_array.py
@@ -23,7 +23,7 @@ class _BaseArray(np.ndarray, _BaseSpatial):
         if np.size(array) == 0:
             raise ValueError("The array must not be empty.")
 
-        if not np.isfinite(array).all():
+        if not np.isfinite(np.asarray(array)).all():
             raise ValueError("The values must all be finite.")
 
         # We cast the input array to be our class type.
-- 
2.43.0


From 09a7bf872b8a889238f64f58f5c40ef814a2c033 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:11 +0000
Subject: [PATCH 02/30] fix: return a new object from round() instead of
 rounding the array in place

Vector.round() and Point.round() overwrote the object they were called on, and
also the user's array that the object was created from.
---
 src/skspatial/objects/_base_array.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/skspatial/objects/_base_array.py b/src/skspatial/objects/_base_array.py
index 4e979d2..5a16abd 100644
--- a/src/skspatial/objects/_base_array.py
+++ b/src/skspatial/objects/_base_array.py
@@ -122,7 +122,7 @@ class _BaseArray(np.ndarray, _BaseSpatial):
         Point([1.  , 2.  , 3.53])
 
         """
-        return np.around(self, decimals=decimals, out=self)
+        return np.around(self.to_array(), decimals=decimals).view(type(self))
 
 
 class _BaseArray1D(_BaseArray):
-- 
2.43.0


From be2d5cd708994267dbc555b887174fa48218f9cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:11 +0000
Subject: [PATCH 03/30] fix: restore the dimension of an unpickled Point,
 Vector, or Points

The array is filled after __array_finalize__ is called, so an unpickled object
had a dimension of 0 (or None).
---
 src/skspatial/objects/_base_array.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/skspatial/objects/_base_array.py b/src/skspatial/objects/_base_array.py
index 5a16abd..86fda19 100644
--- a/src/skspatial/objects/_base_array.py
+++ b/src/skspatial/objects/_base_array.py
@@ -53,6 +53,11 @@ class _BaseArray(np.ndarray, _BaseSpatial):
         except Exception:
             return array
 
+    def __setstate__(self, state) -> None:
+        """Update the dimension after the array is unpickled."""
+        super().__setstate__(state)
+        self.__array_finalize__(None)
+
     def to_array(self) -> np.ndarray:
         """
         Convert the object to a regular NumPy ndarray.
-- 
2.43.0


From 89d86016f94e8ff6c6a622c970481dce5f07f601 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:11 +0000
Subject: [PATCH 04/30] fix: give LineSegment a dimension

LineSegment.plotter() always failed with an AttributeError.
---
 src/skspatial/objects/line_segment.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/skspatial/objects/line_segment.py b/src/skspatial/objects/line_segment.py
index 749e4ea..11d8c6e 100644
--- a/src/skspatial/objects/line_segment.py
+++ b/src/skspatial/objects/line_segment.py
@@ -57,6 +57,8 @@ class LineSegment(_BaseSpatial):
         if self.point_a.is_close(self.point_b):
             raise ValueError("The endpoints must not be equal.")
 
+        self.dimension = self.point_a.dimension
+
     def __repr__(self) -> str:
         repr_point_a = np.array_repr(self.point_a)
         repr_point_b = np.array_repr(self.point_b)
-- 
2.43.0


From 345a1f5c63ed1d86a6bd3472ad2b3b80357a5292 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:11 +0000
Subject: [PATCH 05/30] fix: reject a NaN radius of a circle or sphere

The cylinder already rejects it.
---
 src/skspatial/objects/_base_sphere.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/skspatial/objects/_base_sphere.py b/src/skspatial/objects/_base_sphere.py
index bb297d0..cb6117e 100644
--- a/src/skspatial/objects/_base_sphere.py
+++ b/src/skspatial/objects/_base_sphere.py
@@ -15,7 +15,7 @@ class _BaseSphere(_BaseSpatial):
     """Private parent class for Circle and Sphere."""
 
     def __init__(self, point: array_like, radius: float):
-        if radius <= 0:
+        if not radius > 0:
             raise ValueError("The radius must be positive.")
 
         self.point = Point(point)
-- 
2.43.0


From 8d5b10d294985d0744e8a296a6466afada569a8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:11 +0000
Subject: [PATCH 06/30] fix: raise an error when projecting onto the zero
 vector

The projection is undefined, but a Vector of NaN values was returned.
---
 src/skspatial/objects/vector.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/skspatial/objects/vector.py b/src/skspatial/objects/vector.py
index 1588542..d90fb5c 100644
--- a/src/skspatial/objects/vector.py
+++ b/src/skspatial/objects/vector.py
@@ -697,6 +697,9 @@ class Vector(_BaseArray1D):
         Vector([0., 5.])
 
         """
+        if self.is_zero():
+            raise ValueError("The vector must not be the zero vector.")
+
         return self.dot(other) / self.dot(self) * self
 
     def different_direction(self, **kwargs: float) -> Vector:
-- 
2.43.0


From e9a9cedb30a8095deebed96223c9d3816632237e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:11 +0000
Subject: [PATCH 07/30] fix: raise an error when normalizing points that are
 all at the origin

The normalization is undefined, but a Points of NaN values was returned.
---
 src/skspatial/objects/points.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/skspatial/objects/points.py b/src/skspatial/objects/points.py
index f0b24ac..ae31970 100644
--- a/src/skspatial/objects/points.py
+++ b/src/skspatial/objects/points.py
@@ -185,7 +185,12 @@ class Points(_BaseArray2D):
         """
         distances_to_points = np.linalg.norm(self, axis=1)
 
-        return self / distances_to_points.max()
+        distance_max = distances_to_points.max()
+
+        if distance_max == 0:
+            raise ValueError("The points must not all be at the origin.")
+
+        return self / distance_max
 
     def affine_rank(self, **kwargs) -> np.int64:
         """
-- 
2.43.0


From cba2ae65f865d8d4bf9d824f5966972a45874aeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:11 +0000
Subject: [PATCH 08/30] fix: classify a triangle with two pairs of close sides
 as isosceles

Closeness is not transitive, so two of the three pairs of sides can be close.
The triangle was then classified as scalene.
---
 src/skspatial/objects/triangle.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/skspatial/objects/triangle.py b/src/skspatial/objects/triangle.py
index da21687..a376d79 100644
--- a/src/skspatial/objects/triangle.py
+++ b/src/skspatial/objects/triangle.py
@@ -577,7 +577,7 @@ class Triangle(_BaseSpatial):
         if n_pairs_close == 3:
             return 'equilateral'
 
-        if n_pairs_close == 1:
+        if n_pairs_close >= 1:
             return 'isosceles'
 
         return 'scalene'
-- 
2.43.0


From 3e5b018551d76b99f98badbc072915eeaad4624a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:11 +0000
Subject: [PATCH 09/30] fix: intersect tangent circles without a math domain
 error

---
 src/skspatial/objects/circle.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/skspatial/objects/circle.py b/src/skspatial/objects/circle.py
index b821adb..d5779fd 100644
--- a/src/skspatial/objects/circle.py
+++ b/src/skspatial/objects/circle.py
@@ -281,7 +281,8 @@ class Circle(_BaseSphere):
 
         a = (self.radius**2 - other.radius**2 + d**2) / (2 * d)
 
-        h = math.sqrt(self.radius**2 - a**2)
+        # Rounding can make the difference negative if the circles are tangent.
+        h = math.sqrt(max(self.radius**2 - a**2, 0))
 
         point_middle = self.point + a * Vector.from_points(self.point, other.point) / d
 
-- 
2.43.0


From 5bda27d09a385baf7112ec6ecbfaa647c730fd90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:11 +0000
Subject: [PATCH 10/30] fix: return the angles of a thin triangle without a
 math domain error

---
 src/skspatial/objects/triangle.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/skspatial/objects/triangle.py b/src/skspatial/objects/triangle.py
index a376d79..93e3e03 100644
--- a/src/skspatial/objects/triangle.py
+++ b/src/skspatial/objects/triangle.py
@@ -415,7 +415,8 @@ class Triangle(_BaseSpatial):
         else:
             raise ValueError("The vertex must be 'A', 'B', or 'C'.")
 
-        return math.acos(arg)
+        # Rounding can move the argument out of the domain of the arccosine.
+        return math.acos(np.clip(arg, -1, 1))
 
     def centroid(self) -> Point:
         """
-- 
2.43.0


From e17200415f49b2afc856efaaf05dc298fd9aaecb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:14 +0000
Subject: [PATCH 11/30] fix: prevent integer overflow in dot and cross products

The products of integer coordinates overflowed for moderate values. For example,
lines with coordinates of 50000 intersected at a wrong point, and a plane
through points with coordinates of 65536 was rejected for having a zero normal.
---
 src/skspatial/objects/plane.py  |  4 ++--
 src/skspatial/objects/vector.py | 30 +++++++++++++++++++++++++++---
 2 files changed, 29 insertions(+), 5 deletions(-)

diff --git a/src/skspatial/objects/plane.py b/src/skspatial/objects/plane.py
index 812c3b0..0e511e0 100644
--- a/src/skspatial/objects/plane.py
+++ b/src/skspatial/objects/plane.py
@@ -689,8 +689,8 @@ class Plane(_BaseLinePlane, _ToPointsMixin):
         array_11 = np.zeros((2, 2))
         matrix = np.block([[array_00, array_01], [array_10, array_11]])
 
-        dot_a = np.dot(self.point, self.normal)
-        dot_b = np.dot(other.point, other.normal)
+        dot_a = self.normal.dot(self.point)
+        dot_b = other.normal.dot(other.point)
         array_y = np.array([0, 0, 0, dot_a, dot_b])
 
         # Solve the linear system.
diff --git a/src/skspatial/objects/vector.py b/src/skspatial/objects/vector.py
index d90fb5c..20c879c 100644
--- a/src/skspatial/objects/vector.py
+++ b/src/skspatial/objects/vector.py
@@ -3,7 +3,7 @@
 from __future__ import annotations
 
 import math
-from typing import cast
+from typing import Tuple, cast
 
 import numpy as np
 
@@ -12,6 +12,20 @@ from skspatial.objects._base_array import _BaseArray1D
 from skspatial.typing import array_like
 
 
+def _prevent_overflow(array_a: array_like, array_b: array_like) -> Tuple[np.ndarray, np.ndarray]:
+    """Convert two arrays to floats if a sum of their products could overflow the integer type."""
+    array_a, array_b = np.asarray(array_a), np.asarray(array_b)
+    dtype = np.result_type(array_a, array_b)
+
+    if np.issubdtype(dtype, np.integer):
+        bound = len(array_a) * np.abs(array_a.astype(float)).max() * np.abs(array_b.astype(float)).max()
+
+        if bound >= np.iinfo(dtype).max:
+            return array_a.astype(float), array_b.astype(float)
+
+    return array_a, array_b
+
+
 class Vector(_BaseArray1D):
     """
     A vector implemented as a 1D array.
@@ -100,6 +114,16 @@ class Vector(_BaseArray1D):
 
         return cls(array_vector_ab)
 
+    def dot(self, other: array_like, *args, **kwargs):  # type: ignore[override]
+        """
+        Return the dot product with another array.
+
+        Refer to :func:`numpy.dot` for the full documentation.
+        The product is computed with floats if it could overflow the integer type.
+
+        """
+        return np.dot(*_prevent_overflow(self, other), *args, **kwargs)
+
     def norm(self, **kwargs) -> np.float64:
         """
         Return the norm of the vector.
@@ -245,7 +269,7 @@ class Vector(_BaseArray1D):
         vector_a = self.set_dimension(3)
         vector_b = Vector(other).set_dimension(3)
 
-        return Vector(np.cross(vector_a, vector_b))
+        return Vector(np.cross(*_prevent_overflow(vector_a, vector_b)))
 
     def cosine_similarity(self, other: array_like) -> np.float64:
         """
@@ -627,7 +651,7 @@ class Vector(_BaseArray1D):
         if self.dimension != 2 or vector_other.dimension != 2:
             raise ValueError("The vectors must be 2D.")
 
-        product = np.cross(vector_other.set_dimension(3), self.set_dimension(3))
+        product = vector_other.cross(self)
 
         return int(np.sign(product[2]))
 
-- 
2.43.0


From b93f0c49e5c282f441277f43810036f8e4292100 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:14 +0000
Subject: [PATCH 12/30] fix: fit a cylinder that covers the points along its
 axis

The length was twice the distance from the first point to the centre of the
points, so the cylinder was too short or too long unless the points were
symmetrical along the axis.
---
 src/skspatial/objects/cylinder.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/skspatial/objects/cylinder.py b/src/skspatial/objects/cylinder.py
index 0362fe6..9c67c1d 100644
--- a/src/skspatial/objects/cylinder.py
+++ b/src/skspatial/objects/cylinder.py
@@ -633,10 +633,9 @@ class Cylinder(_BaseSpatial, _ToPointsMixin):
         axis = Line(point=center, direction=unit_vector)
         points_1d = axis.transform_points(points)
         point_a = axis.project_point(points[np.argmin(points_1d)])
-        length = point_a.distance_point(center) * 2
-        vector_ab = unit_vector * length
+        point_b = axis.project_point(points[np.argmax(points_1d)])
 
-        return cls(point_a, vector_ab, radius)
+        return cls.from_points(point_a, point_b, radius)
 
     def plot_3d(self, ax_3d, n_along_axis: int = 100, n_angles: int = 30, **kwargs) -> None:
         """
-- 
2.43.0


From f845760afb41359ada44ea3d782c279d471df7bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:14 +0000
Subject: [PATCH 13/30] fix: centre the mesh of a vertical plane on the point
 of the plane

The mesh of a plane parallel to the z-axis was centred on the x and y coordinates
of the point, although it spans x and z, or y and z.
---
 src/skspatial/objects/plane.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/skspatial/objects/plane.py b/src/skspatial/objects/plane.py
index 0e511e0..3cb8485 100644
--- a/src/skspatial/objects/plane.py
+++ b/src/skspatial/objects/plane.py
@@ -832,7 +832,11 @@ class Plane(_BaseLinePlane, _ToPointsMixin):
 
         """
         a, b, c, d = self.cartesian()
-        x_center, y_center = self.point[:2]
+        x_center, y_center, z_center = self.point.set_dimension(3)
+
+        # The plane is not a function of x and y if it is parallel to the z-axis.
+        if c == 0:
+            x_center, y_center = (x_center, z_center) if b != 0 else (y_center, z_center)
 
         values_x = x_center + lims_x
         values_y = y_center + lims_y
-- 
2.43.0


From 940a928afe72159f97845cc6dc4825496d12589c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:14 +0000
Subject: [PATCH 14/30] fix: reject a line that is parallel to the cylinder
 axis up to rounding

The quadratic coefficient is only exactly zero for some directions. Otherwise,
the method returned points at a distance of around 1e16.
---
 src/skspatial/objects/cylinder.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/skspatial/objects/cylinder.py b/src/skspatial/objects/cylinder.py
index 9c67c1d..5e23a28 100644
--- a/src/skspatial/objects/cylinder.py
+++ b/src/skspatial/objects/cylinder.py
@@ -717,6 +717,10 @@ def _intersect_line_with_infinite_cylinder(
     delta_p = Vector.from_points(p_c, p_l)
 
     a = (v_l - v_l.dot(v_c) * v_c).norm() ** 2
+    # The line is parallel to the cylinder axis, up to the rounding error of the unit vectors.
+    if math.isclose(a, 0, abs_tol=(4 * np.finfo(float).eps) ** 2):
+        raise ValueError("The line does not intersect the cylinder.")
+
     b = 2 * (v_l - v_l.dot(v_c) * v_c).dot(delta_p - delta_p.dot(v_c) * v_c)
     c = (delta_p - delta_p.dot(v_c) * v_c).norm() ** 2 - r**2
 
-- 
2.43.0


From a988728169cec98356caff0dfa0b54861da36c11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:23 +0000
Subject: [PATCH 15/30] fix: create a circle from points that are far from the
 origin

The squared coordinates lost precision, so the radius was wrong or a math
domain error was raised, e.g. for points around (5e5, 4e6) with a radius of 10.
---
 src/skspatial/objects/circle.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/skspatial/objects/circle.py b/src/skspatial/objects/circle.py
index d5779fd..491c0a9 100644
--- a/src/skspatial/objects/circle.py
+++ b/src/skspatial/objects/circle.py
@@ -136,9 +136,13 @@ class Circle(_BaseSphere):
         if Points([point_a, point_b, point_c]).are_collinear(**kwargs):
             raise ValueError("The points must not be collinear.")
 
-        x_a, y_a = point_a
-        x_b, y_b = point_b
-        x_c, y_c = point_c
+        # Translate distant points towards the origin, because their squared coordinates lose precision.
+        # Points that are already around the origin are not translated.
+        points = np.array([point_a, point_b, point_c], dtype=float)
+        extent = np.ptp(points, axis=0).max()
+        translation = 0 - np.round(points.mean(axis=0) / extent) * extent
+
+        (x_a, y_a), (x_b, y_b), (x_c, y_c) = points + translation
 
         matrix = np.array(
             [
@@ -159,7 +163,7 @@ class Circle(_BaseSphere):
 
         radius = math.sqrt(x**2 + y**2 + M_03 / M_00)
 
-        return cls([x, y], radius)
+        return cls(np.array([x, y]) - translation, radius)
 
     @np_float
     def circumference(self) -> float:
-- 
2.43.0


From cac8fb35283dbd5a92c3ca02d7fa6564a15b64b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:23 +0000
Subject: [PATCH 16/30] fix: center the points before fitting a circle or
 sphere

The squared coordinates of points far from the origin lost precision.
---
 src/skspatial/objects/circle.py | 9 ++++++---
 src/skspatial/objects/sphere.py | 9 ++++++---
 2 files changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/skspatial/objects/circle.py b/src/skspatial/objects/circle.py
index 491c0a9..fed43e9 100644
--- a/src/skspatial/objects/circle.py
+++ b/src/skspatial/objects/circle.py
@@ -458,15 +458,18 @@ class Circle(_BaseSphere):
         if points.affine_rank() != 2:
             raise ValueError("The points must not be collinear.")
 
+        # Center the points, because the squared coordinates of distant points lose precision.
+        points_centered, centroid = points.mean_center(return_centroid=True)
+
         n = points.shape[0]
-        A = np.hstack((2 * points, np.ones((n, 1))))
-        b = (points**2).sum(axis=1)
+        A = np.hstack((2 * points_centered, np.ones((n, 1))))
+        b = (points_centered**2).sum(axis=1)
         c = np.linalg.lstsq(A, b, rcond=None)[0]
 
         center = c[:2]
         radius = np.sqrt(c[2] + c[0] ** 2 + c[1] ** 2)
 
-        return cls(center, radius)
+        return cls(center + centroid, radius)
 
     def plot_2d(self, ax_2d, **kwargs) -> None:
         """
diff --git a/src/skspatial/objects/sphere.py b/src/skspatial/objects/sphere.py
index e346a8e..9248c90 100644
--- a/src/skspatial/objects/sphere.py
+++ b/src/skspatial/objects/sphere.py
@@ -232,16 +232,19 @@ class Sphere(_BaseSphere, _ToPointsMixin):
         if points.affine_rank() != 3:
             raise ValueError("The points must not be in a plane.")
 
+        # Center the points, because the squared coordinates of distant points lose precision.
+        points_centered, centroid = points.mean_center(return_centroid=True)
+
         n = points.shape[0]
-        A = np.hstack((2 * points, np.ones((n, 1))))
-        b = (points**2).sum(axis=1)
+        A = np.hstack((2 * points_centered, np.ones((n, 1))))
+        b = (points_centered**2).sum(axis=1)
 
         c, _, _, _ = np.linalg.lstsq(A, b, rcond=None)
 
         center = c[:3]
         radius = float(np.sqrt(np.dot(center, center) + c[3]))
 
-        return cls(center, radius)
+        return cls(center + centroid, radius)
 
     def to_mesh(self, n_angles: int = 30) -> Tuple[np.ndarray, np.ndarray, np.ndarray]:
         """
-- 
2.43.0


From 3f943cb0609fe5f4dc5b67ec4e615ece6dfebc0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:18 +0000
Subject: [PATCH 17/30] fix: compute the affine rank of points that are far
 from the origin

The rounding error of the centroid raised the rank, so collinear points such as
(1000, 1000), (1001, 1001), (1004, 1004) could be reported as not collinear.
---
 src/skspatial/objects/points.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/skspatial/objects/points.py b/src/skspatial/objects/points.py
index ae31970..9e221c0 100644
--- a/src/skspatial/objects/points.py
+++ b/src/skspatial/objects/points.py
@@ -236,7 +236,12 @@ class Points(_BaseArray2D):
 
         """
         # Remove duplicate points so they do not affect the centroid.
-        points_centered = self.unique().mean_center()
+        points_unique = self.unique()
+
+        # Translate the points to the origin, so the rounding error of the centroid
+        # is relative to the spread of the points instead of their distance from the origin.
+        points_translated = Points(np.subtract(points_unique, points_unique[0], dtype=float))
+        points_centered = points_translated.mean_center()
 
         return matrix_rank(points_centered, **kwargs)
 
-- 
2.43.0


From 11d4a6597811593c1675a6988d0dced73e2471cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:18 +0000
Subject: [PATCH 18/30] fix: return the orthocenter of a triangle in 3D

Rounding of the altitudes caused the error that the lines must be coplanar, for
a third of the triangles whose coordinates are around 10.
---
 src/skspatial/objects/triangle.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/skspatial/objects/triangle.py b/src/skspatial/objects/triangle.py
index 93e3e03..c5201dd 100644
--- a/src/skspatial/objects/triangle.py
+++ b/src/skspatial/objects/triangle.py
@@ -526,7 +526,9 @@ class Triangle(_BaseSpatial):
         line_alt_a = self.altitude('A')
         line_alt_b = self.altitude('B')
 
-        return line_alt_a.intersect_line(line_alt_b, **kwargs)
+        # The altitudes of a triangle are always coplanar, so by default this is not checked.
+        # The check could fail because of the rounding error of the altitudes.
+        return line_alt_a.intersect_line(line_alt_b, **{'check_coplanar': False, **kwargs})
 
     def classify(self, **kwargs: float) -> str:
         """
-- 
2.43.0


From b3ba21351bd8d1a2ff8446ee45329ef0b692bd33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:18 +0000
Subject: [PATCH 19/30] fix: intersect line segments that touch at an endpoint

The rounding error of the intersection point caused the error that the line
segments must intersect, even for most pairs of segments sharing an endpoint.
---
 src/skspatial/objects/line_segment.py | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/skspatial/objects/line_segment.py b/src/skspatial/objects/line_segment.py
index 11d8c6e..9c982e7 100644
--- a/src/skspatial/objects/line_segment.py
+++ b/src/skspatial/objects/line_segment.py
@@ -148,8 +148,8 @@ class LineSegment(_BaseSpatial):
 
         point_intersection = line_a.intersect_line(line_b, **kwargs)
 
-        point_on_segment_a = self.contains_point(point_intersection)
-        point_on_segment_b = other.contains_point(point_intersection)
+        point_on_segment_a = _contains_intersection(self, point_intersection)
+        point_on_segment_b = _contains_intersection(other, point_intersection)
 
         if not (point_on_segment_a and point_on_segment_b):
             raise ValueError("The line segments must intersect.")
@@ -230,3 +230,14 @@ class LineSegment(_BaseSpatial):
         from skspatial.plotting import _connect_points_3d
 
         _connect_points_3d(ax_3d, self.point_a, self.point_b, **kwargs)
+
+
+def _contains_intersection(segment: LineSegment, point: Point) -> bool:
+    """Check if the line segment contains an intersection point, which can be rounded off the end of the segment."""
+    tolerance = 1e-9 * segment.point_a.distance_point(segment.point_b)
+
+    return (
+        segment.contains_point(point)
+        or segment.point_a.distance_point(point) <= tolerance
+        or segment.point_b.distance_point(point) <= tolerance
+    )
-- 
2.43.0


From 51da9f92fe11992b2cb41df41f8a23c80b917118 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:23 +0000
Subject: [PATCH 20/30] fix: intersect a circle with a line without losing
 precision

The unit direction was added to the point of the line and subtracted again, so
for coordinates around 1e7 the intersection points were off by 0.1.
---
 src/skspatial/objects/circle.py | 19 ++++++-------------
 1 file changed, 6 insertions(+), 13 deletions(-)

diff --git a/src/skspatial/objects/circle.py b/src/skspatial/objects/circle.py
index fed43e9..4245ffa 100644
--- a/src/skspatial/objects/circle.py
+++ b/src/skspatial/objects/circle.py
@@ -366,23 +366,16 @@ class Circle(_BaseSphere):
         ValueError: The line does not intersect the circle.
 
         """
-        # Two points on the line.
-        point_1 = line.point
-        point_2 = point_1 + line.direction.unit()
+        # Translate the point on the line to mimic the circle being centered on the origin.
+        x_1, y_1 = line.point - self.point
 
-        # Translate the points on the line to mimic the circle being centered on the origin.
-        point_translated_1 = point_1 - self.point
-        point_translated_2 = point_2 - self.point
-
-        x_1, y_1 = point_translated_1
-        x_2, y_2 = point_translated_2
-
-        d_x = x_2 - x_1
-        d_y = y_2 - y_1
+        # The second point on the line is at a unit distance from the first.
+        # Its coordinates are not computed, because they would lose precision far from the circle.
+        d_x, d_y = line.direction.unit()
 
         # Pre-compute variables common to x and y equations.
         d_r_squared = d_x**2 + d_y**2
-        determinant = x_1 * y_2 - x_2 * y_1
+        determinant = x_1 * d_y - d_x * y_1
         discriminant = self.radius**2 * d_r_squared - determinant**2
 
         if discriminant < 0:
-- 
2.43.0


From 6c6d3cde337cbe68b7e0cdfbb668f0a9eeac6dcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:26 +0000
Subject: [PATCH 21/30] fix: reject line segment endpoints of different
 dimensions

---
 src/skspatial/objects/line_segment.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/skspatial/objects/line_segment.py b/src/skspatial/objects/line_segment.py
index 9c982e7..40197a5 100644
--- a/src/skspatial/objects/line_segment.py
+++ b/src/skspatial/objects/line_segment.py
@@ -32,6 +32,7 @@ class LineSegment(_BaseSpatial):
     Raises
     ------
     ValueError
+        If the two endpoints have different dimensions.
         If the two endpoints are equal.
 
     Examples
@@ -54,6 +55,9 @@ class LineSegment(_BaseSpatial):
         self.point_a = Point(point_a)
         self.point_b = Point(point_b)
 
+        if self.point_a.dimension != self.point_b.dimension:
+            raise ValueError("The endpoints must have the same dimension.")
+
         if self.point_a.is_close(self.point_b):
             raise ValueError("The endpoints must not be equal.")
 
-- 
2.43.0


From adfaebd4230fa4d157561b914a2ec8917757e04e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:14 +0000
Subject: [PATCH 22/30] fix: keep memory and time of best fits of lines and
 planes linear in the number of points

---
 src/skspatial/objects/line.py  | 3 ++-
 src/skspatial/objects/plane.py | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/skspatial/objects/line.py b/src/skspatial/objects/line.py
index 05cb3fd..270dda2 100644
--- a/src/skspatial/objects/line.py
+++ b/src/skspatial/objects/line.py
@@ -721,7 +721,8 @@ class Line(_BaseLinePlane):
 
         points_centered, centroid = points_spatial.mean_center(return_centroid=True)
 
-        _, S, Vh = np.linalg.svd(points_centered, **kwargs)
+        # The full matrices are not needed, and their size is quadratic in the number of points.
+        _, S, Vh = np.linalg.svd(points_centered, **{'full_matrices': False, **kwargs})
 
         direction = Vh[0, :]
         line_best_fit = cls(centroid, direction)
diff --git a/src/skspatial/objects/plane.py b/src/skspatial/objects/plane.py
index 3cb8485..85772d7 100644
--- a/src/skspatial/objects/plane.py
+++ b/src/skspatial/objects/plane.py
@@ -781,7 +781,8 @@ class Plane(_BaseLinePlane, _ToPointsMixin):
 
         points_centered, centroid = points.mean_center(return_centroid=True)
 
-        U, S, _ = np.linalg.svd(points_centered.T, **kwargs)
+        # The full matrices are not needed, and their size is quadratic in the number of points.
+        U, S, _ = np.linalg.svd(points_centered.T, **{'full_matrices': False, **kwargs})
         normal = Vector(U[:, 2])
 
         plane_fit = cls(centroid, normal)
-- 
2.43.0


From dd8771cf70f09e8fa01d63706a16b62d3b741ad0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:47:03 +0000
Subject: [PATCH 23/30] fix: prevent integer overflow of a radius that is a
 NumPy integer

The radius was squared or cubed as an integer of fixed width. For example, the volume
of a sphere with a radius of numpy.int64(6371000) was wrong by a factor of 756.
---
 src/skspatial/objects/_base_sphere.py | 3 ++-
 src/skspatial/objects/cylinder.py     | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/skspatial/objects/_base_sphere.py b/src/skspatial/objects/_base_sphere.py
index cb6117e..fa4eb22 100644
--- a/src/skspatial/objects/_base_sphere.py
+++ b/src/skspatial/objects/_base_sphere.py
@@ -19,7 +19,8 @@ class _BaseSphere(_BaseSpatial):
             raise ValueError("The radius must be positive.")
 
         self.point = Point(point)
-        self.radius = radius
+        # A NumPy integer could overflow when it is squared or cubed.
+        self.radius = int(radius) if isinstance(radius, np.integer) else radius
 
         self.dimension = self.point.dimension
 
diff --git a/src/skspatial/objects/cylinder.py b/src/skspatial/objects/cylinder.py
index 5e23a28..71ccdbb 100644
--- a/src/skspatial/objects/cylinder.py
+++ b/src/skspatial/objects/cylinder.py
@@ -111,7 +111,8 @@ class Cylinder(_BaseSpatial, _ToPointsMixin):
         if not radius > 0:
             raise ValueError("The radius must be positive.")
 
-        self.radius = radius
+        # A NumPy integer could overflow when it is squared.
+        self.radius = int(radius) if isinstance(radius, np.integer) else radius
 
         self.dimension = self.point.dimension
 
-- 
2.43.0


From 631229826eefa4d4162aeb133d5801fb3b44e90d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:50:04 +0000
Subject: [PATCH 24/30] fix: prevent integer overflow in the signed area of a
 polygon

The products of integer coordinates overflowed for moderate values of a 32-bit type.
---
 src/skspatial/measurement.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/skspatial/measurement.py b/src/skspatial/measurement.py
index d746a0e..5dae631 100644
--- a/src/skspatial/measurement.py
+++ b/src/skspatial/measurement.py
@@ -153,8 +153,9 @@ def area_signed(points: array_like) -> float:
     if n_points < 3:
         raise ValueError("There must be at least 3 points.")
 
-    X = np.array(points[:, 0])
-    Y = np.array(points[:, 1])
+    # The products of integers could overflow.
+    X = np.array(points[:, 0], dtype=float)
+    Y = np.array(points[:, 1], dtype=float)
 
     indices = np.arange(n_points)
     indices_offset = indices - 1
-- 
2.43.0


From def6c653f3a09a8c106b336a534077c8abf7a35d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:50:10 +0000
Subject: [PATCH 25/30] fix: prevent integer overflow when transforming
 coordinates

The matrix product of integers overflowed for moderate values of a 32-bit type.
---
 src/skspatial/_functions.py     | 17 ++++++++++++++++-
 src/skspatial/objects/vector.py | 18 ++----------------
 src/skspatial/transformation.py |  4 +++-
 3 files changed, 21 insertions(+), 18 deletions(-)

diff --git a/src/skspatial/_functions.py b/src/skspatial/_functions.py
index 34e0333..63a206a 100644
--- a/src/skspatial/_functions.py
+++ b/src/skspatial/_functions.py
@@ -4,13 +4,28 @@ from __future__ import annotations
 
 import math
 from functools import wraps
-from typing import Any, Callable, Optional
+from typing import Any, Callable, Optional, Tuple
 
 import numpy as np
 
 from skspatial.typing import array_like
 
 
+def _prevent_overflow(array_a: array_like, array_b: array_like) -> Tuple[np.ndarray, np.ndarray]:
+    """Convert two arrays to floats if a sum of their products could overflow the integer type."""
+    array_a, array_b = np.asarray(array_a), np.asarray(array_b)
+    dtype = np.result_type(array_a, array_b)
+
+    if np.issubdtype(dtype, np.integer):
+        max_a, max_b = (np.abs(array.astype(float)).max(initial=0) for array in (array_a, array_b))
+        bound = array_a.shape[-1] * max_a * max_b
+
+        if bound >= np.iinfo(dtype).max:
+            return array_a.astype(float), array_b.astype(float)
+
+    return array_a, array_b
+
+
 def _contains_point(obj: Any, point: array_like, **kwargs: float) -> bool:
     """
     Check if the object contains a point.
diff --git a/src/skspatial/objects/vector.py b/src/skspatial/objects/vector.py
index 20c879c..3817638 100644
--- a/src/skspatial/objects/vector.py
+++ b/src/skspatial/objects/vector.py
@@ -3,29 +3,15 @@
 from __future__ import annotations
 
 import math
-from typing import Tuple, cast
+from typing import cast
 
 import numpy as np
 
-from skspatial._functions import np_float
+from skspatial._functions import _prevent_overflow, np_float
 from skspatial.objects._base_array import _BaseArray1D
 from skspatial.typing import array_like
 
 
-def _prevent_overflow(array_a: array_like, array_b: array_like) -> Tuple[np.ndarray, np.ndarray]:
-    """Convert two arrays to floats if a sum of their products could overflow the integer type."""
-    array_a, array_b = np.asarray(array_a), np.asarray(array_b)
-    dtype = np.result_type(array_a, array_b)
-
-    if np.issubdtype(dtype, np.integer):
-        bound = len(array_a) * np.abs(array_a.astype(float)).max() * np.abs(array_b.astype(float)).max()
-
-        if bound >= np.iinfo(dtype).max:
-            return array_a.astype(float), array_b.astype(float)
-
-    return array_a, array_b
-
-
 class Vector(_BaseArray1D):
     """
     A vector implemented as a 1D array.
diff --git a/src/skspatial/transformation.py b/src/skspatial/transformation.py
index 4b53d7e..33006d5 100644
--- a/src/skspatial/transformation.py
+++ b/src/skspatial/transformation.py
@@ -4,6 +4,7 @@ from typing import Sequence, cast
 
 import numpy as np
 
+from skspatial._functions import _prevent_overflow
 from skspatial.typing import array_like
 
 
@@ -51,6 +52,7 @@ def transform_coordinates(points: array_like, point_origin: array_like, vectors_
 
     """
     vectors_to_points = np.subtract(points, point_origin)
-    array_transformed = np.matmul(vectors_to_points, np.transpose(vectors_basis))
+    vectors_to_points, array_basis = _prevent_overflow(vectors_to_points, vectors_basis)
+    array_transformed = np.matmul(vectors_to_points, np.transpose(array_basis))
 
     return cast(np.ndarray, array_transformed)
-- 
2.43.0


From 76cb997f80f9b998dccbb92081d7120f906a1a8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:12:43 +0000
Subject: [PATCH 26/30] fix: prevent integer overflow in the mesh of a plane

The products of integer coordinates overflowed for moderate values of a 32-bit type,
so the points of the mesh and the plot were far from the plane.
---
 src/skspatial/objects/plane.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/skspatial/objects/plane.py b/src/skspatial/objects/plane.py
index 85772d7..d63e5f2 100644
--- a/src/skspatial/objects/plane.py
+++ b/src/skspatial/objects/plane.py
@@ -832,7 +832,8 @@ class Plane(_BaseLinePlane, _ToPointsMixin):
                [0., 0.]])
 
         """
-        a, b, c, d = self.cartesian()
+        # The products of integers could overflow.
+        a, b, c, d = (float(coefficient) for coefficient in self.cartesian())
         x_center, y_center, z_center = self.point.set_dimension(3)
 
         # The plane is not a function of x and y if it is parallel to the z-axis.
@@ -845,14 +846,14 @@ class Plane(_BaseLinePlane, _ToPointsMixin):
         X, Y = np.meshgrid(values_x, values_y)
 
         if c != 0:
-            Z = -(a * X + b * Y + d) / c
+            Z = (0 - (a * X + b * Y + d)) / c
 
         elif b != 0:
-            Z = -(a * X + c * Y + d) / b
+            Z = (0 - (a * X + c * Y + d)) / b
             X, Y, Z = X, Z, Y
 
         else:
-            Z = -(b * X + c * Y + d) / a
+            Z = (0 - (b * X + c * Y + d)) / a
             X, Y, Z = Z, X, Y
 
         return X, Y, Z
-- 
2.43.0


From a69a5809a725d8f5f577e3793f711ab761a1254a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:54:09 +0000
Subject: [PATCH 27/30] fix: accept the documented keywords in the constructors
 of Line and Plane

---
 src/skspatial/objects/line.py  | 4 ++--
 src/skspatial/objects/plane.py | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/skspatial/objects/line.py b/src/skspatial/objects/line.py
index 270dda2..06b36c6 100644
--- a/src/skspatial/objects/line.py
+++ b/src/skspatial/objects/line.py
@@ -81,8 +81,8 @@ class Line(_BaseLinePlane):
 
     """
 
-    def __init__(self, point: array_like, direction: array_like):
-        super().__init__(point, direction)
+    def __init__(self, point: array_like, direction: array_like, **kwargs: float):
+        super().__init__(point, direction, **kwargs)
 
         self.direction = self.vector
 
diff --git a/src/skspatial/objects/plane.py b/src/skspatial/objects/plane.py
index d63e5f2..66666a4 100644
--- a/src/skspatial/objects/plane.py
+++ b/src/skspatial/objects/plane.py
@@ -82,8 +82,8 @@ class Plane(_BaseLinePlane, _ToPointsMixin):
 
     """
 
-    def __init__(self, point: array_like, normal: array_like):
-        super().__init__(point, normal)
+    def __init__(self, point: array_like, normal: array_like, **kwargs: float):
+        super().__init__(point, normal, **kwargs)
         self.normal = self.vector
 
     @classmethod
-- 
2.43.0


From 501e3df2f81b0f0b5866db83d4e6886f03abb8d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:54:09 +0000
Subject: [PATCH 28/30] fix: name the parameter of Plane.distance_points as
 documented

---
 src/skspatial/objects/plane.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/skspatial/objects/plane.py b/src/skspatial/objects/plane.py
index 66666a4..62999c1 100644
--- a/src/skspatial/objects/plane.py
+++ b/src/skspatial/objects/plane.py
@@ -489,7 +489,7 @@ class Plane(_BaseLinePlane, _ToPointsMixin):
         """
         return abs(self.distance_point_signed(point))
 
-    def distance_points(self, point: array_like) -> np.ndarray:
+    def distance_points(self, points: array_like) -> np.ndarray:
         """
         Return the distances from multiple points to the plane.
 
@@ -517,7 +517,7 @@ class Plane(_BaseLinePlane, _ToPointsMixin):
         array([0., 1., 4., 4.])
 
         """
-        return np.abs(self.distance_points_signed(point))
+        return np.abs(self.distance_points_signed(points))
 
     def side_point(self, point: array_like) -> int:
         """
-- 
2.43.0


From 6442ca6ef4270bf9f65243d291550b50ae0931e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:54:09 +0000
Subject: [PATCH 29/30] fix: accept any line in Line.is_coplanar when the line
 is of a subclass

---
 src/skspatial/objects/line.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/skspatial/objects/line.py b/src/skspatial/objects/line.py
index 06b36c6..646199a 100644
--- a/src/skspatial/objects/line.py
+++ b/src/skspatial/objects/line.py
@@ -215,7 +215,7 @@ class Line(_BaseLinePlane):
         TypeError: The input must also be a line.
 
         """
-        if not isinstance(other, type(self)):
+        if not isinstance(other, Line):
             raise TypeError("The input must also be a line.")
 
         point_1 = self.point
-- 
2.43.0


From 007096d88d7677a7d65807885af6560e9b34bb49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:54:09 +0000
Subject: [PATCH 30/30] fix: return an instance of the subclass from
 Plane.from_points

---
 src/skspatial/objects/plane.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/skspatial/objects/plane.py b/src/skspatial/objects/plane.py
index 62999c1..5b0d466 100644
--- a/src/skspatial/objects/plane.py
+++ b/src/skspatial/objects/plane.py
@@ -186,7 +186,7 @@ class Plane(_BaseLinePlane, _ToPointsMixin):
         vector_ab = Vector.from_points(point_a, point_b)
         vector_ac = Vector.from_points(point_a, point_c)
 
-        return Plane.from_vectors(point_a, vector_ab, vector_ac)
+        return cls.from_vectors(point_a, vector_ab, vector_ac)
 
     def cartesian(self) -> Tuple[np.int64, np.int64, np.int64, np.int64]:
         """
-- 
2.43.0

