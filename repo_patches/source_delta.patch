From f44d0b1f50c7fb42c6f7d63ca5e679ceef755271 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:34 +0000
Subject: [PATCH 01/21] fix: copy the input array when creating a Point or
 Vector

The object shared memory with an input ndarray, so changing one changed the other.
---
 src/skspatial/objects/_base_array.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/skspatial/objects/_base_array.py b/src/skspatial/objects/_base_array.py
index f9aae04..d1d033b 100644
--- a/src/skspatial/objects/_base_array.py
+++ b/src/skspatial/objects/_base_array.py
@@ -134,7 +134,7 @@ class _BaseArray1D(_BaseArray):
         if array.ndim != 1:
             raise ValueError("The array must be 1D.")
 
-        return super().__new__(cls, array_like)
+        return super().__new__(cls, array)
 
     def __array_finalize__(self, _):
         self.dimension = self.size
-- 
2.43.0


From fcba8b3257761d23981b1b5152b2f33612ca998d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:34 +0000
Subject: [PATCH 02/21] fix: do not modify the object when rounding

---
 src/skspatial/objects/_base_array.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/skspatial/objects/_base_array.py b/src/skspatial/objects/_base_array.py
index d1d033b..9d0fa68 100644
--- a/src/skspatial/objects/_base_array.py
+++ b/src/skspatial/objects/_base_array.py
@@ -122,7 +122,7 @@ class _BaseArray(np.ndarray, _BaseSpatial):
         Point([1.  , 2.  , 3.53])
 
         """
-        return np.around(self, decimals=decimals, out=self)
+        return type(self)(np.around(self.to_array(), decimals=decimals))
 
 
 class _BaseArray1D(_BaseArray):
-- 
2.43.0


From 29d4954465d83fadd5a84bd0b25b17da0bab0f5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:34 +0000
Subject: [PATCH 03/21] fix: return a regular array when a NumPy result is not
 a valid object

The fallback returned an object of the spatial class with a forbidden shape or non-finite values.
---
 src/skspatial/objects/_base_array.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/skspatial/objects/_base_array.py b/src/skspatial/objects/_base_array.py
index 9d0fa68..57f5b51 100644
--- a/src/skspatial/objects/_base_array.py
+++ b/src/skspatial/objects/_base_array.py
@@ -51,7 +51,7 @@ class _BaseArray(np.ndarray, _BaseSpatial):
         try:
             return type(self)(array)
         except Exception:
-            return array
+            return np.asarray(array)
 
     def to_array(self) -> np.ndarray:
         """
-- 
2.43.0


From 7dbd70867c98bc01dfad17064aba21592992c480 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:34 +0000
Subject: [PATCH 04/21] fix: set the dimension of a line segment

LineSegment.plotter raised an AttributeError, and endpoints of different dimensions were accepted.
---
 src/skspatial/objects/line_segment.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/skspatial/objects/line_segment.py b/src/skspatial/objects/line_segment.py
index 749e4ea..7f0dd63 100644
--- a/src/skspatial/objects/line_segment.py
+++ b/src/skspatial/objects/line_segment.py
@@ -32,6 +32,7 @@ class LineSegment(_BaseSpatial):
     Raises
     ------
     ValueError
+        If the endpoints have different dimensions.
         If the two endpoints are equal.
 
     Examples
@@ -54,9 +55,14 @@ class LineSegment(_BaseSpatial):
         self.point_a = Point(point_a)
         self.point_b = Point(point_b)
 
+        if self.point_a.dimension != self.point_b.dimension:
+            raise ValueError("The endpoints must have the same dimension.")
+
         if self.point_a.is_close(self.point_b):
             raise ValueError("The endpoints must not be equal.")
 
+        self.dimension = self.point_a.dimension
+
     def __repr__(self) -> str:
         repr_point_a = np.array_repr(self.point_a)
         repr_point_b = np.array_repr(self.point_b)
-- 
2.43.0


From b52a8c0bdabed3b46d18caf88cd591108e1ed349 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:34 +0000
Subject: [PATCH 05/21] fix: reject a NaN radius for circles and spheres

---
 src/skspatial/objects/_base_sphere.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/skspatial/objects/_base_sphere.py b/src/skspatial/objects/_base_sphere.py
index bb297d0..cb6117e 100644
--- a/src/skspatial/objects/_base_sphere.py
+++ b/src/skspatial/objects/_base_sphere.py
@@ -15,7 +15,7 @@ class _BaseSphere(_BaseSpatial):
     """Private parent class for Circle and Sphere."""
 
     def __init__(self, point: array_like, radius: float):
-        if radius <= 0:
+        if not radius > 0:
             raise ValueError("The radius must be positive.")
 
         self.point = Point(point)
-- 
2.43.0


From 901afb570c6675191ecbf7b5b900dfd214c1a0d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:34 +0000
Subject: [PATCH 06/21] fix: avoid a math domain error when circles are tangent

---
 src/skspatial/objects/circle.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/skspatial/objects/circle.py b/src/skspatial/objects/circle.py
index b821adb..cd1aafa 100644
--- a/src/skspatial/objects/circle.py
+++ b/src/skspatial/objects/circle.py
@@ -281,7 +281,8 @@ class Circle(_BaseSphere):
 
         a = (self.radius**2 - other.radius**2 + d**2) / (2 * d)
 
-        h = math.sqrt(self.radius**2 - a**2)
+        # The difference can be slightly negative when the circles are tangent.
+        h = math.sqrt(max(self.radius**2 - a**2, 0))
 
         point_middle = self.point + a * Vector.from_points(self.point, other.point) / d
 
-- 
2.43.0


From 605ed0d9f40309b0bc2c12aa5e703d4841c293af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:34 +0000
Subject: [PATCH 07/21] fix: avoid a math domain error for the angles of a thin
 triangle

---
 src/skspatial/objects/triangle.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/skspatial/objects/triangle.py b/src/skspatial/objects/triangle.py
index da21687..9c50ee3 100644
--- a/src/skspatial/objects/triangle.py
+++ b/src/skspatial/objects/triangle.py
@@ -415,7 +415,7 @@ class Triangle(_BaseSpatial):
         else:
             raise ValueError("The vertex must be 'A', 'B', or 'C'.")
 
-        return math.acos(arg)
+        return math.acos(min(max(arg, -1), 1))
 
     def centroid(self) -> Point:
         """
-- 
2.43.0


From 74e80be41093af4a95bdd093d40ccf2aa43d9d88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:34 +0000
Subject: [PATCH 08/21] fix: classify a triangle with two pairs of close
 lengths as isosceles

Closeness is not transitive, so two of the three pairs can be close.
---
 src/skspatial/objects/triangle.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/skspatial/objects/triangle.py b/src/skspatial/objects/triangle.py
index 9c50ee3..f15913d 100644
--- a/src/skspatial/objects/triangle.py
+++ b/src/skspatial/objects/triangle.py
@@ -577,7 +577,7 @@ class Triangle(_BaseSpatial):
         if n_pairs_close == 3:
             return 'equilateral'
 
-        if n_pairs_close == 1:
+        if n_pairs_close >= 1:
             return 'isosceles'
 
         return 'scalene'
-- 
2.43.0


From cc09ea9ada68c5ba506a63ec05225c76ba3fd096 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:34 +0000
Subject: [PATCH 09/21] fix: return an object of the calling class in
 Plane.from_points

---
 src/skspatial/objects/plane.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/skspatial/objects/plane.py b/src/skspatial/objects/plane.py
index 812c3b0..ddd0fa5 100644
--- a/src/skspatial/objects/plane.py
+++ b/src/skspatial/objects/plane.py
@@ -186,7 +186,7 @@ class Plane(_BaseLinePlane, _ToPointsMixin):
         vector_ab = Vector.from_points(point_a, point_b)
         vector_ac = Vector.from_points(point_a, point_c)
 
-        return Plane.from_vectors(point_a, vector_ab, vector_ac)
+        return cls.from_vectors(point_a, vector_ab, vector_ac)
 
     def cartesian(self) -> Tuple[np.int64, np.int64, np.int64, np.int64]:
         """
-- 
2.43.0


From f09c77c897dcf994a3f1397da983ddcf07afc6c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:34 +0000
Subject: [PATCH 10/21] fix: raise an error when projecting onto the zero
 vector

---
 src/skspatial/objects/vector.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/skspatial/objects/vector.py b/src/skspatial/objects/vector.py
index 1588542..a4f436f 100644
--- a/src/skspatial/objects/vector.py
+++ b/src/skspatial/objects/vector.py
@@ -680,6 +680,11 @@ class Vector(_BaseArray1D):
         Vector
             Vector projection.
 
+        Raises
+        ------
+        ValueError
+            If the magnitude of the vector is zero.
+
         Examples
         --------
         >>> from skspatial.objects import Vector
@@ -697,7 +702,12 @@ class Vector(_BaseArray1D):
         Vector([0., 5.])
 
         """
-        return self.dot(other) / self.dot(self) * self
+        magnitude_squared = self.dot(self)
+
+        if magnitude_squared == 0:
+            raise ValueError("The magnitude must not be zero.")
+
+        return self.dot(other) / magnitude_squared * self
 
     def different_direction(self, **kwargs: float) -> Vector:
         """
-- 
2.43.0


From d4951024b9032efbe95b8658d250b06fbc070fe1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:34 +0000
Subject: [PATCH 11/21] fix: accept the documented keywords in the Line and
 Plane constructors

---
 src/skspatial/objects/line.py  | 4 ++--
 src/skspatial/objects/plane.py | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/skspatial/objects/line.py b/src/skspatial/objects/line.py
index 05cb3fd..e718da8 100644
--- a/src/skspatial/objects/line.py
+++ b/src/skspatial/objects/line.py
@@ -81,8 +81,8 @@ class Line(_BaseLinePlane):
 
     """
 
-    def __init__(self, point: array_like, direction: array_like):
-        super().__init__(point, direction)
+    def __init__(self, point: array_like, direction: array_like, **kwargs):
+        super().__init__(point, direction, **kwargs)
 
         self.direction = self.vector
 
diff --git a/src/skspatial/objects/plane.py b/src/skspatial/objects/plane.py
index ddd0fa5..b0a2de2 100644
--- a/src/skspatial/objects/plane.py
+++ b/src/skspatial/objects/plane.py
@@ -82,8 +82,8 @@ class Plane(_BaseLinePlane, _ToPointsMixin):
 
     """
 
-    def __init__(self, point: array_like, normal: array_like):
-        super().__init__(point, normal)
+    def __init__(self, point: array_like, normal: array_like, **kwargs):
+        super().__init__(point, normal, **kwargs)
         self.normal = self.vector
 
     @classmethod
-- 
2.43.0


From dabc60428d47ea69f65cb7833540c8d9b942248e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:34 +0000
Subject: [PATCH 12/21] fix: compute the radius in Circle.from_points as a
 distance

The determinant formula could be negative because of cancellation, which raised a math domain error.
---
 src/skspatial/objects/circle.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/skspatial/objects/circle.py b/src/skspatial/objects/circle.py
index cd1aafa..42535e2 100644
--- a/src/skspatial/objects/circle.py
+++ b/src/skspatial/objects/circle.py
@@ -152,12 +152,11 @@ class Circle(_BaseSphere):
         M_00 = _minor(matrix, 0, 0)
         M_01 = _minor(matrix, 0, 1)
         M_02 = _minor(matrix, 0, 2)
-        M_03 = _minor(matrix, 0, 3)
 
         x = 0.5 * M_01 / M_00
         y = -0.5 * M_02 / M_00
 
-        radius = math.sqrt(x**2 + y**2 + M_03 / M_00)
+        radius = Point([x, y]).distance_point(point_a)
 
         return cls([x, y], radius)
 
-- 
2.43.0


From 7b543c4267b434d1af1f30c66aa596b1191d131a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:34 +0000
Subject: [PATCH 13/21] fix: compute the radius of fitted circles and spheres
 from the distances

The algebraic formula could be negative because of cancellation, which gave a NaN radius.
---
 src/skspatial/objects/circle.py | 2 +-
 src/skspatial/objects/sphere.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/skspatial/objects/circle.py b/src/skspatial/objects/circle.py
index 42535e2..df5b2cc 100644
--- a/src/skspatial/objects/circle.py
+++ b/src/skspatial/objects/circle.py
@@ -459,7 +459,7 @@ class Circle(_BaseSphere):
         c = np.linalg.lstsq(A, b, rcond=None)[0]
 
         center = c[:2]
-        radius = np.sqrt(c[2] + c[0] ** 2 + c[1] ** 2)
+        radius = np.sqrt(np.mean(np.linalg.norm(points - center, axis=1) ** 2))
 
         return cls(center, radius)
 
diff --git a/src/skspatial/objects/sphere.py b/src/skspatial/objects/sphere.py
index e346a8e..dc8e175 100644
--- a/src/skspatial/objects/sphere.py
+++ b/src/skspatial/objects/sphere.py
@@ -239,7 +239,7 @@ class Sphere(_BaseSphere, _ToPointsMixin):
         c, _, _, _ = np.linalg.lstsq(A, b, rcond=None)
 
         center = c[:3]
-        radius = float(np.sqrt(np.dot(center, center) + c[3]))
+        radius = float(np.sqrt(np.mean(np.linalg.norm(points - center, axis=1) ** 2)))
 
         return cls(center, radius)
 
-- 
2.43.0


From 3886f94c8702d858dcaf01b99f8693a701616b20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:34 +0000
Subject: [PATCH 14/21] fix: raise an error when normalizing points that are
 all at the origin

---
 src/skspatial/objects/points.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/skspatial/objects/points.py b/src/skspatial/objects/points.py
index f0b24ac..d3bfab5 100644
--- a/src/skspatial/objects/points.py
+++ b/src/skspatial/objects/points.py
@@ -164,6 +164,11 @@ class Points(_BaseArray2D):
         Points
             Normalized points.
 
+        Raises
+        ------
+        ValueError
+            If all the points are at the origin.
+
         Examples
         --------
         >>> from skspatial.objects import Points
@@ -185,6 +190,9 @@ class Points(_BaseArray2D):
         """
         distances_to_points = np.linalg.norm(self, axis=1)
 
+        if not distances_to_points.any():
+            raise ValueError("The points must not all be at the origin.")
+
         return self / distances_to_points.max()
 
     def affine_rank(self, **kwargs) -> np.int64:
-- 
2.43.0


From 43acd7a0c0fcca5fed88d0b87aa6efccadcb9d60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:43 +0000
Subject: [PATCH 15/21] fix: centre the mesh of a vertical plane on the point
 of the plane

The grid of a plane parallel to the z-axis used the x and y coordinates of
the point as the centre of the y and z ranges.
---
 src/skspatial/objects/plane.py | 16 ++++++----------
 1 file changed, 6 insertions(+), 10 deletions(-)

diff --git a/src/skspatial/objects/plane.py b/src/skspatial/objects/plane.py
index b0a2de2..bbf4e31 100644
--- a/src/skspatial/objects/plane.py
+++ b/src/skspatial/objects/plane.py
@@ -832,23 +832,19 @@ class Plane(_BaseLinePlane, _ToPointsMixin):
 
         """
         a, b, c, d = self.cartesian()
-        x_center, y_center = self.point[:2]
-
-        values_x = x_center + lims_x
-        values_y = y_center + lims_y
-
-        X, Y = np.meshgrid(values_x, values_y)
+        x_center, y_center, z_center = self.point
 
         if c != 0:
+            X, Y = np.meshgrid(x_center + lims_x, y_center + lims_y)
             Z = -(a * X + b * Y + d) / c
 
         elif b != 0:
-            Z = -(a * X + c * Y + d) / b
-            X, Y, Z = X, Z, Y
+            X, Z = np.meshgrid(x_center + lims_x, z_center + lims_y)
+            Y = -(a * X + c * Z + d) / b
 
         else:
-            Z = -(b * X + c * Y + d) / a
-            X, Y, Z = Z, X, Y
+            Y, Z = np.meshgrid(y_center + lims_x, z_center + lims_y)
+            X = -(b * Y + c * Z + d) / a
 
         return X, Y, Z
 
-- 
2.43.0


From 0b65e424772b52cde573c82d112a9d5f7914ea42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:22 +0000
Subject: [PATCH 16/21] fix: return a regular array from transform_coordinates
 for Points

np.subtract keeps the class of Points, so Line.transform_points returned a one-dimensional Points object.
---
 src/skspatial/transformation.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/skspatial/transformation.py b/src/skspatial/transformation.py
index 4b53d7e..ebd0c73 100644
--- a/src/skspatial/transformation.py
+++ b/src/skspatial/transformation.py
@@ -1,6 +1,6 @@
 """Spatial transformations."""
 
-from typing import Sequence, cast
+from typing import Sequence
 
 import numpy as np
 
@@ -53,4 +53,4 @@ def transform_coordinates(points: array_like, point_origin: array_like, vectors_
     vectors_to_points = np.subtract(points, point_origin)
     array_transformed = np.matmul(vectors_to_points, np.transpose(vectors_basis))
 
-    return cast(np.ndarray, array_transformed)
+    return np.asarray(array_transformed)
-- 
2.43.0


From 5f84293849d72020711fef80ac1b7cec8d905f3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:23:49 +0000
Subject: [PATCH 17/21] fix: reject points of unequal dimension in
 Vector.from_points

---
 src/skspatial/objects/vector.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/skspatial/objects/vector.py b/src/skspatial/objects/vector.py
index a4f436f..9bac6ed 100644
--- a/src/skspatial/objects/vector.py
+++ b/src/skspatial/objects/vector.py
@@ -82,6 +82,11 @@ class Vector(_BaseArray1D):
         Vector
             Vector from point A to point B.
 
+        Raises
+        ------
+        ValueError
+            If the points have different dimensions.
+
         Examples
         --------
         >>> from skspatial.objects import Vector
@@ -96,6 +101,9 @@ class Vector(_BaseArray1D):
         Vector([ 4,  6, -1])
 
         """
+        if np.shape(point_a) != np.shape(point_b):
+            raise ValueError("The points must have the same dimension.")
+
         array_vector_ab = cast(np.ndarray, np.subtract(point_b, point_a))
 
         return cls(array_vector_ab)
-- 
2.43.0


From c18cbf9ce07200ed005afd536842222db83fe972 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:24:08 +0000
Subject: [PATCH 18/21] fix: reject points and vectors of another dimension in
 row operations and Plane.project_vector

---
 src/skspatial/objects/line.py   | 3 +++
 src/skspatial/objects/plane.py  | 9 +++++++++
 src/skspatial/transformation.py | 3 +++
 3 files changed, 15 insertions(+)

diff --git a/src/skspatial/objects/line.py b/src/skspatial/objects/line.py
index e718da8..01b77dc 100644
--- a/src/skspatial/objects/line.py
+++ b/src/skspatial/objects/line.py
@@ -327,6 +327,9 @@ class Line(_BaseLinePlane):
                 [ 0., 10.]])
 
         """
+        if np.shape(points)[-1:] != self.point.shape:
+            raise ValueError("The points must have the same dimension as the line.")
+
         # Vectors from the points on the line to the point in space.
         vectors = np.subtract(points, self.point)
 
diff --git a/src/skspatial/objects/plane.py b/src/skspatial/objects/plane.py
index bbf4e31..1df4613 100644
--- a/src/skspatial/objects/plane.py
+++ b/src/skspatial/objects/plane.py
@@ -296,6 +296,9 @@ class Plane(_BaseLinePlane, _ToPointsMixin):
                 [ 1.,  2.,  0.]])
 
         """
+        if np.shape(points)[-1:] != self.point.shape:
+            raise ValueError("The points must have the same dimension as the plane.")
+
         vectors = np.subtract(self.point, points)
 
         dot_products = np.dot(vectors, self.normal.unit())
@@ -326,6 +329,9 @@ class Plane(_BaseLinePlane, _ToPointsMixin):
         Vector([ 2., -2.,  2.])
 
         """
+        if np.shape(vector) != self.point.shape:
+            raise ValueError("The vector must have the same dimension as the plane.")
+
         point_in_space = self.point + vector
         point_on_plane = self.project_point(point_in_space)
 
@@ -449,6 +455,9 @@ class Plane(_BaseLinePlane, _ToPointsMixin):
         array([ 0.,  1., -4., -4.])
 
         """
+        if np.shape(points)[-1:] != self.point.shape:
+            raise ValueError("The points must have the same dimension as the plane.")
+
         vectors = np.subtract(points, self.point)
 
         return np.array(np.dot(vectors, self.normal.unit()))
diff --git a/src/skspatial/transformation.py b/src/skspatial/transformation.py
index ebd0c73..d6cc609 100644
--- a/src/skspatial/transformation.py
+++ b/src/skspatial/transformation.py
@@ -50,6 +50,9 @@ def transform_coordinates(points: array_like, point_origin: array_like, vectors_
            [7, 1]])
 
     """
+    if np.shape(points)[-1:] != np.shape(point_origin):
+        raise ValueError("The points and the origin must have the same dimension.")
+
     vectors_to_points = np.subtract(points, point_origin)
     array_transformed = np.matmul(vectors_to_points, np.transpose(vectors_basis))
 
-- 
2.43.0


From b75d4cadb7065b70af276fd0757376021e582d1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:24:16 +0000
Subject: [PATCH 19/21] fix: reject lines that are not 2D in
 Circle.intersect_line

---
 src/skspatial/objects/circle.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/skspatial/objects/circle.py b/src/skspatial/objects/circle.py
index df5b2cc..b45eca9 100644
--- a/src/skspatial/objects/circle.py
+++ b/src/skspatial/objects/circle.py
@@ -314,6 +314,7 @@ class Circle(_BaseSphere):
         Raises
         ------
         ValueError
+            If the line is not 2D.
             If the line does not intersect the circle.
 
         References
@@ -361,6 +362,9 @@ class Circle(_BaseSphere):
         ValueError: The line does not intersect the circle.
 
         """
+        if line.dimension != 2:
+            raise ValueError("The line must be 2D.")
+
         # Two points on the line.
         point_1 = line.point
         point_2 = point_1 + line.direction.unit()
-- 
2.43.0


From b9d191ce544598e7ac4449f09c5c6ed3573ee6d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:24:23 +0000
Subject: [PATCH 20/21] fix: round to zero digits when asked to in
 Cylinder.intersect_line

---
 src/skspatial/_functions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/skspatial/_functions.py b/src/skspatial/_functions.py
index 34e0333..f31aa4e 100644
--- a/src/skspatial/_functions.py
+++ b/src/skspatial/_functions.py
@@ -114,7 +114,7 @@ def _solve_quadratic(a: float, b: float, c: float, n_digits: Optional[int] = Non
     ValueError: The discriminant must not be negative.
 
     """
-    if n_digits:
+    if n_digits is not None:
         a = round(a, n_digits)
         b = round(b, n_digits)
         c = round(c, n_digits)
-- 
2.43.0


From e2d450da5ac6cd857c3c3b9831d9001908786f8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:26:07 +0000
Subject: [PATCH 21/21] fix: reject a single point with a ValueError in
 project_points

---
 src/skspatial/objects/line.py  | 2 +-
 src/skspatial/objects/plane.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/skspatial/objects/line.py b/src/skspatial/objects/line.py
index 01b77dc..0806a24 100644
--- a/src/skspatial/objects/line.py
+++ b/src/skspatial/objects/line.py
@@ -327,7 +327,7 @@ class Line(_BaseLinePlane):
                 [ 0., 10.]])
 
         """
-        if np.shape(points)[-1:] != self.point.shape:
+        if np.shape(points)[1:] != self.point.shape:
             raise ValueError("The points must have the same dimension as the line.")
 
         # Vectors from the points on the line to the point in space.
diff --git a/src/skspatial/objects/plane.py b/src/skspatial/objects/plane.py
index 1df4613..d4da2da 100644
--- a/src/skspatial/objects/plane.py
+++ b/src/skspatial/objects/plane.py
@@ -296,7 +296,7 @@ class Plane(_BaseLinePlane, _ToPointsMixin):
                 [ 1.,  2.,  0.]])
 
         """
-        if np.shape(points)[-1:] != self.point.shape:
+        if np.shape(points)[1:] != self.point.shape:
             raise ValueError("The points must have the same dimension as the plane.")
 
         vectors = np.subtract(self.point, points)
-- 
2.43.0

