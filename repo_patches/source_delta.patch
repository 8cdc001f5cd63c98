From 4ca5240e1588a99d4b607e63d3db021905ce5176 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:41:42 +0000
Subject: [PATCH 01/41] fix: AngleDeg /= raised TypeError (Python 2 operator
 name)

---
 src/pyrusgeom/angle_deg.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pyrusgeom/angle_deg.py b/src/pyrusgeom/angle_deg.py
index cc1f687..0338e58 100644
--- a/src/pyrusgeom/angle_deg.py
+++ b/src/pyrusgeom/angle_deg.py
@@ -264,7 +264,7 @@ class AngleDeg:
         self.normal()
         return self
 
-    def __idiv__(self, other: Union[float, int]) -> AngleDeg:
+    def __itruediv__(self, other: Union[float, int]) -> AngleDeg:
         """operator /=
 
         Args:
-- 
2.43.0


From 0973e6699871c121e7fd5764b775998802d60c0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:41:44 +0000
Subject: [PATCH 02/41] fix: Vector2D /= did not update the vector in place
 (Python 2 operator name)

---
 src/pyrusgeom/vector_2d.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pyrusgeom/vector_2d.py b/src/pyrusgeom/vector_2d.py
index 45ccb98..4b68e01 100644
--- a/src/pyrusgeom/vector_2d.py
+++ b/src/pyrusgeom/vector_2d.py
@@ -575,7 +575,7 @@ class Vector2D:
         self._y *= other
         return self
 
-    def __idiv__(self, other: Union[int, float]) -> Vector2D:
+    def __itruediv__(self, other: Union[int, float]) -> Vector2D:
         self._x /= other
         self._y /= other
         return self
-- 
2.43.0


From b608f1eded9de40e554b9f6caea423e8e0d2ec23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:41:45 +0000
Subject: [PATCH 03/41] fix: angle comparisons treat 180 and -180 degrees as
 the same direction

---
 src/pyrusgeom/angle_deg.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/pyrusgeom/angle_deg.py b/src/pyrusgeom/angle_deg.py
index 0338e58..14aa365 100644
--- a/src/pyrusgeom/angle_deg.py
+++ b/src/pyrusgeom/angle_deg.py
@@ -176,8 +176,8 @@ class AngleDeg:
         """
         if not isinstance(angle, AngleDeg):
             angle = AngleDeg(angle)
-        diff = angle.degree() - self.degree()
-        return (0.0 < diff < 180.0) or diff < -180.0
+        diff = (angle - self).degree()
+        return 0.0 < diff < 180.0
 
     def is_right_of(self, angle: Union[AngleDeg, float, int]) -> bool:
         """check if this AngleDeg is right of [angle]
@@ -190,8 +190,8 @@ class AngleDeg:
         """
         if not isinstance(angle, AngleDeg):
             angle = AngleDeg(angle)
-        diff = self.degree() - angle.degree()
-        return (0.0 < diff < 180.0) or diff < -180.0
+        diff = (self - angle).degree()
+        return 0.0 < diff < 180.0
 
     def is_left_equal_of(self, angle: Union[AngleDeg, float, int]) -> bool:
         """check if this AngleDeg is left or equal of [angle]
@@ -204,8 +204,8 @@ class AngleDeg:
         """
         if not isinstance(angle, AngleDeg):
             angle = AngleDeg(angle)
-        diff = angle.degree() - self._degree
-        return 0.0 <= diff < 180.0 or diff < -180.0
+        diff = (angle - self).degree()
+        return 0.0 <= diff < 180.0
 
     def is_right_equal_of(self, angle: Union[AngleDeg, float, int]) -> bool:
         """check if this AngleDeg is right or equal of [angle]
@@ -218,8 +218,8 @@ class AngleDeg:
         """
         if not isinstance(angle, AngleDeg):
             angle = AngleDeg(angle)
-        diff = self.degree() - angle.degree()
-        return (0.0 <= diff < 180.0) or diff < -180.0
+        diff = (self - angle).degree()
+        return 0.0 <= diff < 180.0
 
     def __iadd__(self, other: Union[AngleDeg, float, int]) -> AngleDeg:
         """operator +=
-- 
2.43.0


From 01ddcc700623e999ebae912598131af52c7daf87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:41:46 +0000
Subject: [PATCH 04/41] fix: copies of an invalid Vector2D stay invalid

---
 src/pyrusgeom/vector_2d.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pyrusgeom/vector_2d.py b/src/pyrusgeom/vector_2d.py
index 4b68e01..b24c643 100644
--- a/src/pyrusgeom/vector_2d.py
+++ b/src/pyrusgeom/vector_2d.py
@@ -55,6 +55,7 @@ class Vector2D:
             elif len(args) == 1 and isinstance(args[0], Vector2D):
                 self._x = args[0].x()
                 self._y = args[0].y()
+                self._is_valid = args[0].is_valid()
             elif len(args) == 0:
                 self._x = 0
                 self._y = 0
@@ -110,7 +111,7 @@ class Vector2D:
         Returns:
            Vector2D: Copy of this Vector 2D
         """
-        return Vector2D(self._x, self._y)
+        return Vector2D(self)
 
     def get_copy(self) -> Vector2D:
         """returns copy of this Vector2D
-- 
2.43.0


From 0f837382b355724ee016379f1c110620ebd69389 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:41:48 +0000
Subject: [PATCH 05/41] fix: lines with equal c and parallel directions
 compared equal, scaled copies unequal

---
 src/pyrusgeom/line_2d.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/pyrusgeom/line_2d.py b/src/pyrusgeom/line_2d.py
index c11557f..88c09fb 100644
--- a/src/pyrusgeom/line_2d.py
+++ b/src/pyrusgeom/line_2d.py
@@ -292,7 +292,11 @@ class Line2D:
             bool: true if equal or difference is less than EPSILON. else false
         """
         return (math.fabs(self._a * other.b() - other.a() * self._b)
-                < EPSILON and self._c == other.c())
+                < EPSILON
+                and math.fabs(self._b * other.c() - other.b() * self._c)
+                < EPSILON
+                and math.fabs(self._a * other.c() - other.a() * self._c)
+                < EPSILON)
 
     def __repr__(self) -> str:
         """represent Line2D as a string
-- 
2.43.0


From a070dac20b9b98ccac59cc7863ed7a42f0d7b1a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:42:33 +0000
Subject: [PATCH 06/41] fix: Segment2D.projection and nearest_point returned
 the live end points of the segment

---
 src/pyrusgeom/segment_2d.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/pyrusgeom/segment_2d.py b/src/pyrusgeom/segment_2d.py
index d37bf8a..175b001 100644
--- a/src/pyrusgeom/segment_2d.py
+++ b/src/pyrusgeom/segment_2d.py
@@ -284,7 +284,7 @@ class Segment2D:
         length = direction.r()
 
         if length < EPSILON:
-            return self._origin
+            return self.origin()
 
         direction /= length  # normalize
 
@@ -450,15 +450,15 @@ class Segment2D:
         len_square = vec_tmp.r2()
 
         if len_square == 0.0:
-            return self._origin
+            return self.origin()
 
         inner_product = vec_tmp.inner_product((point - self._origin))
 
         if inner_product <= 0.0:
-            return self._origin
+            return self.origin()
 
         if inner_product >= len_square:
-            return self._terminal
+            return self.terminal()
 
         return self._origin + vec_tmp * inner_product / len_square
 
-- 
2.43.0


From 2df2b47fa37482fad1d6ace1dc33859e3d3165fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:42:34 +0000
Subject: [PATCH 07/41] fix: Triangle2D.is_valid compared a vertex with itself
 and was never true

---
 src/pyrusgeom/triangle_2d.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pyrusgeom/triangle_2d.py b/src/pyrusgeom/triangle_2d.py
index a78f218..e581640 100644
--- a/src/pyrusgeom/triangle_2d.py
+++ b/src/pyrusgeom/triangle_2d.py
@@ -105,7 +105,7 @@ class Triangle2D(Region2D):
             bool: True if triangle is valid. else False.
         """
         return (self._a.is_valid() and self._b.is_valid() and self._c.is_valid() and
-                self._a != self._b and self._b != self._c and self._a != self._a)
+                self._a != self._b and self._b != self._c and self._c != self._a)
 
     def a(self) -> Vector2D:
         """get 1st point copy
-- 
2.43.0


From c1155336e475452ff89a83e5a0ced34ef60cbc61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:42:35 +0000
Subject: [PATCH 08/41] fix: Triangle2D.centroid raised AttributeError (add()
 returns None)

---
 src/pyrusgeom/triangle_2d.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pyrusgeom/triangle_2d.py b/src/pyrusgeom/triangle_2d.py
index e581640..0635d23 100644
--- a/src/pyrusgeom/triangle_2d.py
+++ b/src/pyrusgeom/triangle_2d.py
@@ -384,7 +384,7 @@ class Triangle2D(Region2D):
         Returns:
             Vector2D: coordinates of gravity center
         """
-        return Vector2D(v_a).add(v_b).add(v_c) / 3.0
+        return (v_a + v_b + v_c) / 3.0
 
     @staticmethod
     def tri_incenter(v_a: Vector2D, v_b: Vector2D, v_c: Vector2D) -> Vector2D:
-- 
2.43.0


From 9df96143002b825e9b8c3cf3dbf0306b31b0f675 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:42:36 +0000
Subject: [PATCH 09/41] fix: Triangle2D.circumcenter gave a valid point for
 coincident vertices

---
 src/pyrusgeom/triangle_2d.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/pyrusgeom/triangle_2d.py b/src/pyrusgeom/triangle_2d.py
index 0635d23..0817b37 100644
--- a/src/pyrusgeom/triangle_2d.py
+++ b/src/pyrusgeom/triangle_2d.py
@@ -420,6 +420,13 @@ class Triangle2D(Region2D):
         Returns:
             Vector2D: coordinates of circumcenter
         """
+        a_b = v_b - v_a
+        c_a = v_c - v_a
+
+        tmp = a_b.outer_product(c_a)
+        if math.fabs(tmp) < 1.0e-10:  # The area of parallelogram is 0.
+            return Vector2D.invalid()
+
         perpendicular_ab = Line2D.perpendicular_bisector(v_a, v_b)
         perpendicular_bc = Line2D.perpendicular_bisector(v_b, v_c)
 
@@ -436,13 +443,6 @@ class Triangle2D(Region2D):
             if sol.is_valid():
                 return sol
 
-        a_b = v_b - v_a
-        c_a = v_c - v_a
-
-        tmp = a_b.outer_product(c_a)
-        if math.fabs(tmp) < 1.0e-10:  # The area of parallelogram is 0.
-            return Vector2D.invalid()
-
         inv = 0.5 / tmp
         ab_len2 = a_b.r2()
         ca_len2 = c_a.r2()
-- 
2.43.0


From 8b2b2809443f288808d0733e8d71872cf0d59ef4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:42:37 +0000
Subject: [PATCH 10/41] fix: Triangle2D.intersection lost vertex hits, mixed up
 ray hits and raised on two hits or a segment

---
 src/pyrusgeom/triangle_2d.py | 36 +++++++++++++++---------------------
 1 file changed, 15 insertions(+), 21 deletions(-)

diff --git a/src/pyrusgeom/triangle_2d.py b/src/pyrusgeom/triangle_2d.py
index 0817b37..3d9d4a4 100644
--- a/src/pyrusgeom/triangle_2d.py
+++ b/src/pyrusgeom/triangle_2d.py
@@ -270,32 +270,26 @@ class Triangle2D(Region2D):
         param segment considered line segment.
         return number of intersection + sol 1 + sol 2
         """
+        from pyrusgeom.segment_2d import Segment2D
         if isinstance(other, Line2D):
-            n_sol = 0
-            t_sol = [Vector2D(), Vector2D()]
-            from pyrusgeom.segment_2d import Segment2D
-            t_sol[n_sol] = Segment2D(self._a, self._b).intersection(other)
-            if n_sol < 2 and t_sol[n_sol].is_valid():
-                n_sol += 1
-
-            t_sol[n_sol] = Segment2D(self._b, self._c).intersection(other)
-            if n_sol < 2 and t_sol[n_sol].is_valid():
-                n_sol += 1
-
-            t_sol[n_sol] = Segment2D(self._c, self._a).intersection(other)
-            if n_sol < 2 and t_sol[n_sol].is_valid():
-                n_sol += 1
-
-            if n_sol == 2 and math.fabs(t_sol[0].x() - t_sol[1].x()) < EPSILON and math.fabs(
-                    t_sol[0].y() - t_sol[1].y()) < EPSILON:
-                n_sol = 1
-            sol_list = [n_sol, t_sol[0], t_sol[1]]
+            t_sol = []
+            for edge in (Segment2D(self._a, self._b),
+                         Segment2D(self._b, self._c),
+                         Segment2D(self._c, self._a)):
+                sol = edge.intersection(other)
+                if (len(t_sol) < 2 and sol.is_valid()
+                        and not (t_sol and sol.equals_weakly(t_sol[0]))):
+                    t_sol.append(sol)
+
+            sol_list = [len(t_sol)] + t_sol
+            while len(sol_list) < 3:
+                sol_list.append(Vector2D())
 
             return sol_list
         if isinstance(other, Ray2D):
             n_sol = self.intersection(other.line())
 
-            if n_sol[0] > 1 and not other.in_right_dir(n_sol[1], 1.0):
+            if n_sol[0] > 1 and not other.in_right_dir(n_sol[2], 1.0):
                 n_sol[0] -= 1
 
             if n_sol[0] > 0 and not other.in_right_dir(n_sol[1], 1.0):
@@ -310,7 +304,7 @@ class Triangle2D(Region2D):
             if n_sol[0] > 1 and not other.contains(n_sol[2]):
                 n_sol[0] -= 1
 
-            if n_sol > 0 and not other.contains(n_sol[1]):
+            if n_sol[0] > 0 and not other.contains(n_sol[1]):
                 n_sol[1] = n_sol[2]
                 n_sol[0] -= 1
 
-- 
2.43.0


From 87da95de1aec9d1b543a8a6256e5ee44ba5ca02f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:43:53 +0000
Subject: [PATCH 11/41] fix: Rect2D built from two corners was always empty

---
 src/pyrusgeom/rect_2d.py | 11 +----------
 1 file changed, 1 insertion(+), 10 deletions(-)

diff --git a/src/pyrusgeom/rect_2d.py b/src/pyrusgeom/rect_2d.py
index b631ea4..c2b66ec 100644
--- a/src/pyrusgeom/rect_2d.py
+++ b/src/pyrusgeom/rect_2d.py
@@ -90,12 +90,7 @@ class Rect2D(Region2D):
 
             if bottom_right.y() - top_left.y() < 0.0:
                 self._top_left.set_y(bottom_right.y())
-                self._size = Size2D()
-                self._is_valid = True
-            else:
-                self._top_left = Vector2D()
-                self._size = Size2D()
-                self._is_valid = True
+            self._is_valid = True
         elif len(args) == 2:
             self._top_left = Vector2D(args[0])
             self._size = args[1]
@@ -158,10 +153,6 @@ class Rect2D(Region2D):
 
             if bottom_right.y() - top_left.y() < 0.0:
                 self._top_left.set_y(bottom_right.y())
-                self._size = Size2D()
-            else:
-                self._top_left = Vector2D()
-                self._size = Size2D()
         elif len(args) == 2:
             self._top_left = Vector2D(args[0])
             self._size = args[1]
-- 
2.43.0


From b07de44156e55914176d2d4b7ccebb845ceef20c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:43:55 +0000
Subject: [PATCH 12/41] fix: Rect2D.assign with four numbers took the left
 coordinate as length

---
 src/pyrusgeom/rect_2d.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pyrusgeom/rect_2d.py b/src/pyrusgeom/rect_2d.py
index c2b66ec..77b1ddb 100644
--- a/src/pyrusgeom/rect_2d.py
+++ b/src/pyrusgeom/rect_2d.py
@@ -138,7 +138,7 @@ class Rect2D(Region2D):
 
         if len(args) == 4:
             self._top_left.assign(args[0], args[1])
-            self._size.assign(args[0], args[3])
+            self._size.assign(args[2], args[3])
         elif len(args) == 3:
             self._top_left = Vector2D(args[0])
             self._size.assign(args[1], args[2])
-- 
2.43.0


From f6eb86dababde664c84b3b93edc442a8b8dd2121 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:43:56 +0000
Subject: [PATCH 13/41] fix: Rect2D shared the Size2D it was built from with
 the caller

---
 src/pyrusgeom/rect_2d.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pyrusgeom/rect_2d.py b/src/pyrusgeom/rect_2d.py
index 77b1ddb..9b2cd7a 100644
--- a/src/pyrusgeom/rect_2d.py
+++ b/src/pyrusgeom/rect_2d.py
@@ -93,7 +93,7 @@ class Rect2D(Region2D):
             self._is_valid = True
         elif len(args) == 2:
             self._top_left = Vector2D(args[0])
-            self._size = args[1]
+            self._size = Size2D(args[1].length(), args[1].width())
             self._is_valid = True
         elif len(args) == 1 and isinstance(args[0], Rect2D):
             self._top_left = args[0].top_left()
@@ -155,7 +155,7 @@ class Rect2D(Region2D):
                 self._top_left.set_y(bottom_right.y())
         elif len(args) == 2:
             self._top_left = Vector2D(args[0])
-            self._size = args[1]
+            self._size = Size2D(args[1].length(), args[1].width())
         elif len(args) == 1 and isinstance(args[0], Rect2D):
             self._top_left = args[0].top_left()
             self._size = args[0].size()
-- 
2.43.0


From 7d84107f0addb390ecf1a2c9789747b889714067 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:43:58 +0000
Subject: [PATCH 14/41] fix: Rect2D.contains_almost compared bound methods and
 raised TypeError

---
 src/pyrusgeom/rect_2d.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pyrusgeom/rect_2d.py b/src/pyrusgeom/rect_2d.py
index 9b2cd7a..f2f0c40 100644
--- a/src/pyrusgeom/rect_2d.py
+++ b/src/pyrusgeom/rect_2d.py
@@ -526,8 +526,8 @@ class Rect2D(Region2D):
         Returns:
             bool: True if it almost contains it. else False.
         """
-        return self.left() - error_thr <= point.x <= self.right() + error_thr and \
-            self.top() - error_thr <= point.y <= self.bottom() + error_thr
+        return self.left() - error_thr <= point.x() <= self.right() + error_thr and \
+            self.top() - error_thr <= point.y() <= self.bottom() + error_thr
 
     def left(self) -> float:
         """get the left x coordinate of this rectangle.
-- 
2.43.0


From 99a37e32aac9d0ac262296f9f3c2ab41cbaf4a80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:44:00 +0000
Subject: [PATCH 15/41] fix: Rect2D.from_center with a Vector2D raised
 TypeError

---
 src/pyrusgeom/rect_2d.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pyrusgeom/rect_2d.py b/src/pyrusgeom/rect_2d.py
index f2f0c40..13c141b 100644
--- a/src/pyrusgeom/rect_2d.py
+++ b/src/pyrusgeom/rect_2d.py
@@ -835,7 +835,8 @@ class Rect2D(Region2D):
         if len(args) == 4:
             return Rect2D(args[0] - args[2] * 0.5, args[1] - args[3] * 0.5, args[2], args[3])
         if len(args) == 3:
-            return Rect2D(args[0] - args[1] * 0.5, args[0] - args[2] * 0.5, args[1], args[2])
+            return Rect2D(args[0].x() - args[1] * 0.5, args[0].y() - args[2] * 0.5,
+                          args[1], args[2])
         raise Exception("Input must be 4 float or one vector and two float")
 
     def __repr__(self) -> str:
-- 
2.43.0


From 151ede2fd075400bde494a4b0b85c8033a3bfab1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:44:01 +0000
Subject: [PATCH 16/41] fix: Rect2D.intersection lost the second point of a
 line through a corner

---
 src/pyrusgeom/rect_2d.py | 38 +++++++++-----------------------------
 1 file changed, 9 insertions(+), 29 deletions(-)

diff --git a/src/pyrusgeom/rect_2d.py b/src/pyrusgeom/rect_2d.py
index 13c141b..3f790d6 100644
--- a/src/pyrusgeom/rect_2d.py
+++ b/src/pyrusgeom/rect_2d.py
@@ -704,35 +704,15 @@ class Rect2D(Region2D):
             list[Vector2D]: intersection Points
         """
         if isinstance(other, Line2D):
-            n_sol = 0
-            t_sol = [Vector2D(0, 0), Vector2D(0, 0)]
-            left_x = self.left()
-            right_x = self.right()
-            top_y = self.top()
-            bottom_y = self.bottom()
-            t_sol[n_sol] = self.left_edge().intersection(other) # n_sol 0
-            if t_sol[n_sol].is_valid() and top_y <= t_sol[n_sol].y() <= bottom_y:
-                n_sol += 1
-            t_sol[n_sol] = self.right_edge().intersection(other) # n_sol 0 1
-            if n_sol < 2 and t_sol[n_sol].is_valid() and top_y <= t_sol[n_sol].y() <= bottom_y:
-                n_sol += 1
-            if n_sol < 2:
-                t_sol[n_sol] = self.top_edge().intersection(other) # n_sol 0-1 2
-                if (t_sol[n_sol]).is_valid() and left_x <= t_sol[n_sol].x() <= right_x:
-                    n_sol += 1
-            if n_sol < 2:
-                t_sol[n_sol] = self.bottom_edge().intersection(other) # n_sol 0-2 3
-                if (t_sol[n_sol]).is_valid() and left_x <= t_sol[n_sol].x() <= right_x:
-                    n_sol += 1
-            if n_sol == 2 and math.fabs(t_sol[0].x() - t_sol[1].x()) < EPSILON and math.fabs(
-                    t_sol[0].y() - t_sol[1].y()) < EPSILON:
-                n_sol = 1
-            if n_sol == 0:
-                sol_list = []
-            elif n_sol == 1:
-                sol_list = [t_sol[0]]
-            else:
-                sol_list = [t_sol[0], t_sol[1]]
+            sol_list = []
+            for edge in (Segment2D(self.top_left(), self.bottom_left()),
+                         Segment2D(self.top_right(), self.bottom_right()),
+                         Segment2D(self.top_left(), self.top_right()),
+                         Segment2D(self.bottom_left(), self.bottom_right())):
+                sol = edge.intersection(other)
+                if (len(sol_list) < 2 and sol.is_valid()
+                        and not (sol_list and sol.equals_weakly(sol_list[0]))):
+                    sol_list.append(sol)
             return sol_list
         if isinstance(other, Ray2D):
             n_sol = self.intersection(other.line())
-- 
2.43.0


From 63fabbbd761faaa3af225c3df2c93677893e328a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:44:02 +0000
Subject: [PATCH 17/41] fix: Rect2D.intersected of rectangles without common
 area was not empty

---
 src/pyrusgeom/rect_2d.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/pyrusgeom/rect_2d.py b/src/pyrusgeom/rect_2d.py
index 3f790d6..95596eb 100644
--- a/src/pyrusgeom/rect_2d.py
+++ b/src/pyrusgeom/rect_2d.py
@@ -744,9 +744,10 @@ class Rect2D(Region2D):
         Returns:
             [Rect2D]: rectangle instance
         """
-        if not self.is_valid or not other.is_valid():
+        if not self.is_valid() or not other.is_valid():
             self._top_left.assign(0.0, 0.0)
             self._size.assign(0.0, 0.0)
+            return self
 
         left = max(self.left(), other.left())
         top = max(self.top(), other.top())
@@ -756,6 +757,7 @@ class Rect2D(Region2D):
         if width <= 0.0 or length <= 0.0:
             self._top_left.assign(0.0, 0.0)
             self._size.assign(0.0, 0.0)
+            return self
 
         self._top_left.assign(left, top)
         self._size.assign(width, length)
-- 
2.43.0


From c9b9b9fb577a5a1b13f0cbcb8024718805f67a75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:44:04 +0000
Subject: [PATCH 18/41] fix: Rect2D.united did not give the rectangle covering
 both

---
 src/pyrusgeom/rect_2d.py | 17 +++++++----------
 1 file changed, 7 insertions(+), 10 deletions(-)

diff --git a/src/pyrusgeom/rect_2d.py b/src/pyrusgeom/rect_2d.py
index 95596eb..4f82416 100644
--- a/src/pyrusgeom/rect_2d.py
+++ b/src/pyrusgeom/rect_2d.py
@@ -773,18 +773,15 @@ class Rect2D(Region2D):
         Returns:
             Rect2D: rectangle instance.
         """
-        if not self.is_valid or not other.is_valid():
-            self._top_left.assign(0.0, 0.0)
-        self._size.assign(0.0, 0.0)
-
-        left = max(self.left(), other.left())
-        top = max(self.top(), other.top())
-        width = min(self.right(), other.right()) - left
-        length = min(self.bottom(), other.bottom()) - top
-
-        if width <= 0.0 or length <= 0.0:
+        if not self.is_valid() or not other.is_valid():
             self._top_left.assign(0.0, 0.0)
             self._size.assign(0.0, 0.0)
+            return self
+
+        left = min(self.left(), other.left())
+        top = min(self.top(), other.top())
+        width = max(self.right(), other.right()) - left
+        length = max(self.bottom(), other.bottom()) - top
 
         self._top_left.assign(left, top)
         self._size.assign(width, length)
-- 
2.43.0


From 98c5b38123e5677113c40f16a7806eb198fc8535 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:44:55 +0000
Subject: [PATCH 19/41] fix: Segment2D.on_segment of a degenerate segment
 accepted points beside it

---
 src/pyrusgeom/segment_2d.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/pyrusgeom/segment_2d.py b/src/pyrusgeom/segment_2d.py
index 175b001..f31e500 100644
--- a/src/pyrusgeom/segment_2d.py
+++ b/src/pyrusgeom/segment_2d.py
@@ -519,6 +519,8 @@ class Segment2D:
         Returns:
             float: True if point is on this segment. else False.
         """
+        if self._origin == self._terminal:
+            return self._origin == point
         return Triangle2D.double_signed_area_st(self._origin, self._terminal, point) == 0.0 \
             and self.check_intersects_on_line(point)
 
-- 
2.43.0


From 01efc4e15c4ff2e17d01f3580bc7949e698dabf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:44:57 +0000
Subject: [PATCH 20/41] fix: Sector2D discarded its inner radius and returned
 it as the outer one

---
 src/pyrusgeom/sector_2d.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/pyrusgeom/sector_2d.py b/src/pyrusgeom/sector_2d.py
index b8b8679..19585d9 100644
--- a/src/pyrusgeom/sector_2d.py
+++ b/src/pyrusgeom/sector_2d.py
@@ -44,8 +44,8 @@ class Sector2D(Region2D):
         super().__init__()
 
         self._center = Vector2D(center)
-        self._min_r = min(0.0, min_r)
-        self._max_r = max(min_r, max_r)
+        self._min_r = max(0.0, min_r)
+        self._max_r = max(self._min_r, max_r)
         self._start = AngleDeg(start)
         self._end = AngleDeg(end)
         self.is_valid = True
@@ -62,8 +62,8 @@ class Sector2D(Region2D):
             end (Union[AngleDeg, float]): end angle(turn clockwise)
         """
         self._center = Vector2D(center)
-        self._min_r = min(0.0, min_r)
-        self._max_r = max(min_r, max_r)
+        self._min_r = max(0.0, min_r)
+        self._max_r = max(self._min_r, max_r)
         self._start = AngleDeg(start)
         self._end = AngleDeg(end)
 
@@ -97,7 +97,7 @@ class Sector2D(Region2D):
         Returns:
             float: the big side radius
         """
-        return self._min_r
+        return self._max_r
 
     def angle_left_start(self) -> AngleDeg:
         """get the left start angle copy
-- 
2.43.0


From af23ddcd5466ebd5e57a22f4764e2b3b9c3036ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:44:59 +0000
Subject: [PATCH 21/41] fix: Polygon2D.contains gave inconsistent answers for
 points on an edge

---
 src/pyrusgeom/polygon_2d.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/src/pyrusgeom/polygon_2d.py b/src/pyrusgeom/polygon_2d.py
index 66d4b9b..71916e6 100644
--- a/src/pyrusgeom/polygon_2d.py
+++ b/src/pyrusgeom/polygon_2d.py
@@ -258,11 +258,8 @@ class Polygon2D(Region2D):
             p_0 = self._vertices[i]
             p_1 = self._vertices[p1_index]
 
-            if not allow_on_segment and Segment2D(p_0, p_1).on_segment(point):
-                return False
-
-            if allow_on_segment and point == p_0:
-                return True
+            if Segment2D(p_0, p_1).on_segment(point):
+                return allow_on_segment
 
             if line.exist_intersection(Segment2D(p_0, p_1)):
                 if p_0.y() == point.y() or p_1.y() == point.y():
-- 
2.43.0


From 225b6b5e36da38051980571bece05de9e2e09c57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:45:01 +0000
Subject: [PATCH 22/41] fix: Polygon2D shared the points it was built from with
 the caller

---
 src/pyrusgeom/polygon_2d.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/pyrusgeom/polygon_2d.py b/src/pyrusgeom/polygon_2d.py
index 71916e6..c8651c1 100644
--- a/src/pyrusgeom/polygon_2d.py
+++ b/src/pyrusgeom/polygon_2d.py
@@ -147,7 +147,7 @@ class Polygon2D(Region2D):
         if len(args) == 0:
             self._vertices = [Vector2D()]
         elif isinstance(args[0], list):
-            self._vertices = args[0].copy()
+            self._vertices = [Vector2D(point) for point in args[0]]
         else:
             for item in args:
                 if isinstance(item,Vector2D):
@@ -166,7 +166,7 @@ class Polygon2D(Region2D):
             Polygon2D: rturn itself
         """
         if len(points) > 0:
-            self._vertices = points.copy()
+            self._vertices = [Vector2D(point) for point in points]
         return self
 
     def add_vertex(self, point: Vector2D) -> None:
@@ -175,7 +175,7 @@ class Polygon2D(Region2D):
         Args:
             point(Vector2d): point to add
         """
-        self._vertices.append(point)
+        self._vertices.append(Vector2D(point))
 
     def vertices(self) -> list[Vector2D]:
         """get a copy list from the vertex container
-- 
2.43.0


From edb75bb6d01aefa52a5b85567ca31d947abfa084 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:45:02 +0000
Subject: [PATCH 23/41] fix: Polygon2D.get_bounding_box without vertices raised
 instead of giving an empty rectangle

---
 src/pyrusgeom/polygon_2d.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pyrusgeom/polygon_2d.py b/src/pyrusgeom/polygon_2d.py
index c8651c1..11c92f7 100644
--- a/src/pyrusgeom/polygon_2d.py
+++ b/src/pyrusgeom/polygon_2d.py
@@ -201,7 +201,7 @@ class Polygon2D(Region2D):
             bounding box of this polygon
         """
         if len(self._vertices) == 0:
-            return Rect2D()
+            return Rect2D(0.0, 0.0, 0.0, 0.0)
         x_min = float("inf")
         x_max = - float("inf")
         y_min = float("inf")
-- 
2.43.0


From 1a250d9f897eb8707bebf78e82a9dfbb1b0a9241 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:46:53 +0000
Subject: [PATCH 24/41] fix: ConvexHull kept and emptied the list of points of
 its caller

---
 src/pyrusgeom/convex_hull.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/pyrusgeom/convex_hull.py b/src/pyrusgeom/convex_hull.py
index 9c5fd3d..b819920 100644
--- a/src/pyrusgeom/convex_hull.py
+++ b/src/pyrusgeom/convex_hull.py
@@ -137,7 +137,7 @@ class ConvexHull:
             point_list: array of input points
 
         """
-        self._input_points = point_list
+        self._input_points = [Vector2D(point) for point in point_list]
         self._vertices = []
         self._edges = []
 
@@ -159,7 +159,7 @@ class ConvexHull:
         Args:
             point(Vector2D) : point to add
         """
-        self._input_points.append(point)
+        self._input_points.append(Vector2D(point))
 
     def add_points(self, points: list) -> None:
         """add a point list to the set of input point
@@ -168,7 +168,7 @@ class ConvexHull:
             points(list) : points to add
         """
         for point in points:
-            self._input_points.append(point)
+            self._input_points.append(Vector2D(point))
 
     def compute(self, m_type: MethodType = MethodType.WRAPPING_METHOD) -> None:
         """generate convex hull by specified method
-- 
2.43.0


From b3bef932fa6e0d4bf997a4cb8ae002e562accd08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:46:55 +0000
Subject: [PATCH 25/41] fix: gift wrapping went wrong with duplicate points or
 points on a hull edge

---
 src/pyrusgeom/convex_hull.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pyrusgeom/convex_hull.py b/src/pyrusgeom/convex_hull.py
index b819920..5991459 100644
--- a/src/pyrusgeom/convex_hull.py
+++ b/src/pyrusgeom/convex_hull.py
@@ -344,7 +344,7 @@ class ConvexHull:
                     candidate = i
 
                 elif (area < EPSILON and
-                        current_point.dist2(point_first) > current_point.dist2(point_second)):
+                        current_point.dist2(point_first) < current_point.dist2(point_second)):
                     candidate = i
             current_index = candidate
             current_point = self._input_points[current_index]
-- 
2.43.0


From e87ffbebd85ca54565a9267e49a31479f57c435f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:46:57 +0000
Subject: [PATCH 26/41] fix: gift wrapping left out the first edge of the hull

---
 src/pyrusgeom/convex_hull.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/pyrusgeom/convex_hull.py b/src/pyrusgeom/convex_hull.py
index 5991459..057904b 100644
--- a/src/pyrusgeom/convex_hull.py
+++ b/src/pyrusgeom/convex_hull.py
@@ -353,10 +353,9 @@ class ConvexHull:
 
             if current_index == min_index:
                 break
-        for i in range(len(self._vertices)):
-            if self._vertices[i] != self._vertices[-1]:
-                self._edges.append(
-                    Segment2D(self._vertices[i], self._vertices[i + 1]))
+        for i in range(len(self._vertices) - 1):
+            self._edges.append(
+                Segment2D(self._vertices[i], self._vertices[i + 1]))
 
         self._vertices.pop()
 
-- 
2.43.0


From be9d07a2f2b626bcbcd4c99b45eb5d6810e9e95a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:46:59 +0000
Subject: [PATCH 27/41] fix: Graham scan sorted around the origin, lost input
 points and gave wrong hulls

---
 src/pyrusgeom/convex_hull.py | 42 ++++++++++++++++--------------------
 1 file changed, 19 insertions(+), 23 deletions(-)

diff --git a/src/pyrusgeom/convex_hull.py b/src/pyrusgeom/convex_hull.py
index 057904b..56d3741 100644
--- a/src/pyrusgeom/convex_hull.py
+++ b/src/pyrusgeom/convex_hull.py
@@ -370,30 +370,26 @@ class ConvexHull:
         if point_size < 3 or min_index == -1:
             return
 
-        self.sort_points_angle_from(min_index)
+        base: Vector2D = self._input_points[min_index]
+
+        def compare(lhs: Vector2D, rhs: Vector2D) -> float:
+            area = Triangle2D.double_signed_area_st(base, lhs, rhs)
+            if area != 0.0:
+                return -area
+            return base.dist2(lhs) - base.dist2(rhs)
+
+        self._vertices.append(base)
+        for point in sorted((p for p in self._input_points if p != base),
+                            key=functools.cmp_to_key(compare)):
+            while len(self._vertices) > 1 and Triangle2D.double_signed_area_st(
+                    self._vertices[-2], self._vertices[-1], point) <= 0.0:
+                self._vertices.pop()
+            self._vertices.append(point)
 
-        self._vertices = self._input_points
-
-        top = 1
-        for i in range(2, point_size):
-            while not is_clockwise(self._vertices[top - 1],
-                self._vertices[top], self._input_points[i]):
-                top -= 1
-
-            top += 1
-            tmp = self._vertices[top]
-            self._vertices[top] = self._vertices[i]
-            self._vertices[i] = tmp
-
-        top += 1
-
-        del self._vertices[top:len(self._vertices)]
-
-        for i in range(len(self._vertices)):
-            if self._vertices[i] != self._vertices[-1]:
-                self._edges.append(
-                    Segment2D(self._vertices[i], self._vertices[i + 1]))
-        self._edges.append(Segment2D(self._vertices[0], self._vertices[-1]))
+        for i in range(len(self._vertices) - 1):
+            self._edges.append(
+                Segment2D(self._vertices[i], self._vertices[i + 1]))
+        self._edges.append(Segment2D(self._vertices[-1], self._vertices[0]))
 
     def get_min_point_index(self) -> int:
         """get the index of minimum coordinate point
-- 
2.43.0


From 99f797badb1d501934cc4c96dcde923577424fe2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:47:01 +0000
Subject: [PATCH 28/41] fix: Polygon2D.vertices and ConvexHull.vertices, edges,
 input_points handed out live parts

---
 src/pyrusgeom/convex_hull.py | 6 +++---
 src/pyrusgeom/polygon_2d.py  | 2 +-
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/pyrusgeom/convex_hull.py b/src/pyrusgeom/convex_hull.py
index 56d3741..c11b8a8 100644
--- a/src/pyrusgeom/convex_hull.py
+++ b/src/pyrusgeom/convex_hull.py
@@ -192,7 +192,7 @@ class ConvexHull:
         Returns:
             list: a list with input point conrainer values
         """
-        input_list_cp = self._input_points.copy()
+        input_list_cp = [Vector2D(point) for point in self._input_points]
         return input_list_cp
 
     def input_points_(self) -> list:
@@ -209,7 +209,7 @@ class ConvexHull:
         Returns:
             list: a list with the vertex container values
         """
-        vertices_cp = self._vertices.copy()
+        vertices_cp = [Vector2D(point) for point in self._vertices]
         return vertices_cp
 
     def vertices_(self) -> list:
@@ -226,7 +226,7 @@ class ConvexHull:
         Returns:
             list: a list with the edge container values
         """
-        edges_cp = self._edges.copy()
+        edges_cp = [edge.copy() for edge in self._edges]
         return edges_cp
 
     def edges_(self) -> list:
diff --git a/src/pyrusgeom/polygon_2d.py b/src/pyrusgeom/polygon_2d.py
index 11c92f7..fcd1b67 100644
--- a/src/pyrusgeom/polygon_2d.py
+++ b/src/pyrusgeom/polygon_2d.py
@@ -183,7 +183,7 @@ class Polygon2D(Region2D):
         Returns:
             list: a list with the vertex container values
         """
-        vertices_cp = self._vertices.copy()
+        vertices_cp = [Vector2D(point) for point in self._vertices]
         return vertices_cp
 
     def vertices_(self) -> list:
-- 
2.43.0


From 511ec030569a6e9c3cb11dfa4d95c287c112a1a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:47:03 +0000
Subject: [PATCH 29/41] fix: Matrix2D product overwrote its left factor

---
 src/pyrusgeom/matrix_2d.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pyrusgeom/matrix_2d.py b/src/pyrusgeom/matrix_2d.py
index 478ff06..3ba35b3 100644
--- a/src/pyrusgeom/matrix_2d.py
+++ b/src/pyrusgeom/matrix_2d.py
@@ -343,7 +343,7 @@ class Matrix2D:
         if isinstance(other, Vector2D):
             return self.transform(other)
         if isinstance(other, Matrix2D):
-            mat_tmp = self
+            mat_tmp = Matrix2D(self._m11, self._m12, self._m21, self._m22, self._dx, self._dy)
             return mat_tmp.__imul__(other)
         return self
 
-- 
2.43.0


From 97f187f29cedce5392aa9bb7b4b1c5a646670826 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:47:04 +0000
Subject: [PATCH 30/41] fix: Matrix2D equality compared the x offset with the y
 offset

---
 src/pyrusgeom/matrix_2d.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pyrusgeom/matrix_2d.py b/src/pyrusgeom/matrix_2d.py
index 3ba35b3..dd569f3 100644
--- a/src/pyrusgeom/matrix_2d.py
+++ b/src/pyrusgeom/matrix_2d.py
@@ -362,7 +362,7 @@ class Matrix2D:
 
         return self._m11 == other.m11() and self._m12 == other.m12() and\
             self._m21 == other.m21() and self._m22 == other.m22() and\
-            self._dx == other.dytf() and self._dy == other.dytf()
+            self._dx == other.dxtf() and self._dy == other.dytf()
 
 
     def __repr__(self):
-- 
2.43.0


From a176385792f19d75e88a6351d3fb0a50f8e8a796 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:47:06 +0000
Subject: [PATCH 31/41] fix: wind_effect ignored the wind vector and always
 returned zero

---
 src/pyrusgeom/soccer_math.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/pyrusgeom/soccer_math.py b/src/pyrusgeom/soccer_math.py
index 7acf000..3338dae 100644
--- a/src/pyrusgeom/soccer_math.py
+++ b/src/pyrusgeom/soccer_math.py
@@ -384,8 +384,7 @@ def wind_effect(speed: float, weight: float,
     Returns:
         Vector2D: wind effect acceleration
     """
-    wind_vec = Vector2D()
-    wind_vec.polar2vector(wind_force, wind_dir)
+    wind_vec = Vector2D.polar2vector(wind_force, wind_dir)
 
     if wind_error:
         wind_error.assign(speed * wind_vec.x() * wind_rand
-- 
2.43.0


From 19b029c6809ae72f7f3a3e71b7b3c7d4eccbc040 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:47:32 +0000
Subject: [PATCH 32/41] fix: to_str of circles, segments and triangles
 discarded the text it built

---
 src/pyrusgeom/circle_2d.py   | 3 ++-
 src/pyrusgeom/segment_2d.py  | 3 ++-
 src/pyrusgeom/triangle_2d.py | 1 +
 3 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/pyrusgeom/circle_2d.py b/src/pyrusgeom/circle_2d.py
index 43fd684..a92dc0b 100644
--- a/src/pyrusgeom/circle_2d.py
+++ b/src/pyrusgeom/circle_2d.py
@@ -298,7 +298,7 @@ class Circle2D:
         """
         return f"({self._center} , {self._radius})"
 
-    def to_str(self, ostr: str) -> None:
+    def to_str(self, ostr: str) -> str:
         """add circle to the ostr
 
         Args:
@@ -306,6 +306,7 @@ class Circle2D:
         """
         ostr += f'(circle {round(self.center().x(), 3)} \
             {round(self.center().y(), 3)} {round(self.radius(), 3)})'
+        return ostr
 
 
 def quadratic_f(qf_a: float, qf_b: float, qf_c: float) -> list[float]:
diff --git a/src/pyrusgeom/segment_2d.py b/src/pyrusgeom/segment_2d.py
index f31e500..04e9394 100644
--- a/src/pyrusgeom/segment_2d.py
+++ b/src/pyrusgeom/segment_2d.py
@@ -544,7 +544,7 @@ class Segment2D:
         """
         return f"[{self._origin},{self._terminal}]"
 
-    def to_str(self, ostr: str) -> None:
+    def to_str(self, ostr: str) -> str:
         """add segment to the ostr
 
         Args:
@@ -552,3 +552,4 @@ class Segment2D:
         """
         ostr += f' (line {round(self.origin().x(), 3)} {round(self.origin().y(), 3)} \
             {round(self.terminal().x(), 3)} {round(self.terminal().y(), 3)})'
+        return ostr
diff --git a/src/pyrusgeom/triangle_2d.py b/src/pyrusgeom/triangle_2d.py
index 3d9d4a4..e7a212a 100644
--- a/src/pyrusgeom/triangle_2d.py
+++ b/src/pyrusgeom/triangle_2d.py
@@ -506,3 +506,4 @@ class Triangle2D(Region2D):
         """
         ostr += f'(tri {round(self.a().x(), 3)} {round(self.a().y(), 3)} {round(self.b().x(), 3)} \
         {round(self.b().y(), 3)} {round(self.c().x(), 3)} {round(self.c().y(), 3)})'
+        return ostr
-- 
2.43.0


From d29eba4c47a1fb368b5b8e9ea1c5cea781cbb403 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:47:34 +0000
Subject: [PATCH 33/41] fix: Rect2D.to_str had a stray letter before the right
 coordinate

---
 src/pyrusgeom/rect_2d.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pyrusgeom/rect_2d.py b/src/pyrusgeom/rect_2d.py
index 4f82416..ffcee08 100644
--- a/src/pyrusgeom/rect_2d.py
+++ b/src/pyrusgeom/rect_2d.py
@@ -833,5 +833,5 @@ class Rect2D(Region2D):
             ostr (str): str to add to it
         """
         ostr += f'(rect {round(self.left(), 3)} {round(self.top(), 3)} \
-            f{round(self.right(), 3)} {round(self.bottom(), 3)})'
+            {round(self.right(), 3)} {round(self.bottom(), 3)})'
         return ostr
-- 
2.43.0


From 935a6014a0bcb10da6d1f8acf0403d6a1eb22c72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:39:14 +0000
Subject: [PATCH 34/41] fix: clipping a polygon stopped at an edge along the
 clip line and lost the remaining vertices

---
 src/pyrusgeom/polygon_2d.py | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/src/pyrusgeom/polygon_2d.py b/src/pyrusgeom/polygon_2d.py
index fcd1b67..76c20c9 100644
--- a/src/pyrusgeom/polygon_2d.py
+++ b/src/pyrusgeom/polygon_2d.py
@@ -444,17 +444,14 @@ class Polygon2D(Region2D):
                 else:
                     cuted = line.intersection(Line2D(p_0, p_1))
 
-                    if not cuted.is_valid():
-                        return new_points
-                    new_points.append(cuted)
+                    if cuted.is_valid():
+                        new_points.append(cuted)
             else:
                 if in_rectangle[index_1]:
                     cuted = line.intersection(Line2D(p_0, p_1))
 
-                    if not cuted.is_valid():
-                        return new_points
-
-                    new_points.append(cuted)
+                    if cuted.is_valid():
+                        new_points.append(cuted)
                     new_points.append(p_1)
         return new_points
 
-- 
2.43.0


From 235f76fa3b8d4f69ef631edfdc2cc3b58bdce194 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:48:15 +0000
Subject: [PATCH 35/41] fix: ConvexHull.add_points never ended when given the
 hull's own live point list

---
 src/pyrusgeom/convex_hull.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pyrusgeom/convex_hull.py b/src/pyrusgeom/convex_hull.py
index c11b8a8..2a8f347 100644
--- a/src/pyrusgeom/convex_hull.py
+++ b/src/pyrusgeom/convex_hull.py
@@ -167,7 +167,7 @@ class ConvexHull:
         Args:
             points(list) : points to add
         """
-        for point in points:
+        for point in list(points):
             self._input_points.append(Vector2D(point))
 
     def compute(self, m_type: MethodType = MethodType.WRAPPING_METHOD) -> None:
-- 
2.43.0


From 6e209151062ebc7d8fd5861a6beb7da0d8879a5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:05:57 +0000
Subject: [PATCH 36/41] fix: Vector2D silently dropped positional arguments
 given together with keywords

---
 src/pyrusgeom/vector_2d.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pyrusgeom/vector_2d.py b/src/pyrusgeom/vector_2d.py
index b24c643..dd484d5 100644
--- a/src/pyrusgeom/vector_2d.py
+++ b/src/pyrusgeom/vector_2d.py
@@ -61,7 +61,7 @@ class Vector2D:
                 self._y = 0
             else:
                 raise Exception('The input should be a Vector2D or two numbers')
-        elif len(kwargs) == 2:
+        elif len(args) == 0 and len(kwargs) == 2:
             if 'x' in kwargs and 'y' in kwargs:
                 self._x = kwargs['x']
                 self._y = kwargs['y']
-- 
2.43.0


From 7acd57619864c9e39c4656698bf6756880a07aef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:12:54 +0000
Subject: [PATCH 37/41] fix: gift wrapping took small areas for collinear
 points and lost vertices of small hulls

---
 src/pyrusgeom/convex_hull.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pyrusgeom/convex_hull.py b/src/pyrusgeom/convex_hull.py
index 2a8f347..008311b 100644
--- a/src/pyrusgeom/convex_hull.py
+++ b/src/pyrusgeom/convex_hull.py
@@ -343,7 +343,7 @@ class ConvexHull:
                 if area < 0.0:
                     candidate = i
 
-                elif (area < EPSILON and
+                elif (area == 0.0 and
                         current_point.dist2(point_first) < current_point.dist2(point_second)):
                     candidate = i
             current_index = candidate
-- 
2.43.0


From b38ac40c8e76799bcc740350d64a29d8c4a258d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:15:49 +0000
Subject: [PATCH 38/41] fix: circle-line intersection was far off or missed for
 nearly horizontal lines

---
 src/pyrusgeom/circle_2d.py | 22 ++++++++++++----------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/src/pyrusgeom/circle_2d.py b/src/pyrusgeom/circle_2d.py
index a92dc0b..b35e27a 100644
--- a/src/pyrusgeom/circle_2d.py
+++ b/src/pyrusgeom/circle_2d.py
@@ -109,23 +109,25 @@ class Circle2D:
             Exception: Input must be one of Line2D, Ray2D, Segment2D, Circle2D
         """
         if isinstance(other, Line2D):
-            if math.fabs(other.a()) < EPSILON:
-                if math.fabs(other.b()) < EPSILON:
-                    return []
+            if math.fabs(other.a()) < EPSILON and math.fabs(other.b()) < EPSILON:
+                return []
+
+            if math.fabs(other.a()) < math.fabs(other.b()):
+                a_b = other.a() / other.b()
+                c_b = other.c() / other.b()
 
-                n_sol = quadratic_f(1.0,
-                                    -2.0 * self._center.x(),
+                n_sol = quadratic_f(1.0 + a_b * a_b,
+                                    2.0 * (-self._center.x()
+                                           + (c_b + self._center.y()) * a_b),
                                     (math.pow(self._center.x(), 2)
-                                     + math.pow(other.c() /
-                                                other.b() + self._center.y(), 2)
+                                     + math.pow(c_b + self._center.y(), 2)
                                      - math.pow(self._radius, 2)))
 
                 if len(n_sol):
-                    sol_tmp_1 = -other.c() / other.b()
                     sol_1 = n_sol[0]
                     sol_2 = n_sol[1]
-                    sol_list = [Vector2D(sol_1, sol_tmp_1),
-                                Vector2D(sol_2, sol_tmp_1)]
+                    sol_list = [Vector2D(sol_1, -(a_b * sol_1 + c_b)),
+                                Vector2D(sol_2, -(a_b * sol_2 + c_b))]
                     if sol_list[0].equals_weakly(sol_list[1]):
                         del sol_list[1]
                 else:
-- 
2.43.0


From 6b58a1d8d32cd4f380712b7b1ba8ffff8e3f3825 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:16:11 +0000
Subject: [PATCH 39/41] fix: Line2D.projection was invalid on lines whose
 coefficients are shorter than 0.001

---
 src/pyrusgeom/line_2d.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/pyrusgeom/line_2d.py b/src/pyrusgeom/line_2d.py
index 88c09fb..03e48b2 100644
--- a/src/pyrusgeom/line_2d.py
+++ b/src/pyrusgeom/line_2d.py
@@ -229,7 +229,11 @@ class Line2D:
         Returns:
             Vector2D: projection point
         """
-        return self.intersection(self.perpendicular(point))
+        norm2 = self._a * self._a + self._b * self._b
+        if norm2 == 0.0:
+            return Vector2D.invalid()
+        ratio = (self._a * point.x() + self._b * point.y() + self._c) / norm2
+        return Vector2D(point.x() - self._a * ratio, point.y() - self._b * ratio)
 
     @staticmethod
     def line_intersection(line1: Line2D, line2: Line2D) -> Vector2D:
-- 
2.43.0


From a5bd29181d9e9f059b1a15f80c90d5eee838ef61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:16:37 +0000
Subject: [PATCH 40/41] fix: Line2D equality called all lines with small
 coefficients equal

---
 src/pyrusgeom/line_2d.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/pyrusgeom/line_2d.py b/src/pyrusgeom/line_2d.py
index 03e48b2..958c181 100644
--- a/src/pyrusgeom/line_2d.py
+++ b/src/pyrusgeom/line_2d.py
@@ -295,12 +295,14 @@ class Line2D:
         Returns:
             bool: true if equal or difference is less than EPSILON. else false
         """
+        thr = EPSILON * (math.hypot(self._a, self._b)
+                         * math.hypot(other.a(), other.b()))
         return (math.fabs(self._a * other.b() - other.a() * self._b)
-                < EPSILON
+                <= thr
                 and math.fabs(self._b * other.c() - other.b() * self._c)
-                < EPSILON
+                <= thr
                 and math.fabs(self._a * other.c() - other.a() * self._c)
-                < EPSILON)
+                <= thr)
 
     def __repr__(self) -> str:
         """represent Line2D as a string
-- 
2.43.0


From 63846c6e146643b71127b9bf8909e5d880577ef3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:21:42 +0000
Subject: [PATCH 41/41] fix: the orthocentre of small triangles was reported
 invalid

---
 src/pyrusgeom/triangle_2d.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/pyrusgeom/triangle_2d.py b/src/pyrusgeom/triangle_2d.py
index e7a212a..a1e4a47 100644
--- a/src/pyrusgeom/triangle_2d.py
+++ b/src/pyrusgeom/triangle_2d.py
@@ -461,7 +461,12 @@ class Triangle2D(Region2D):
         """
         perpend_a = Line2D(v_b, v_c).perpendicular(v_a)
         perpend_b = Line2D(v_c, v_a).perpendicular(v_b)
-        return perpend_a.intersection(perpend_b)
+        sol = perpend_a.intersection(perpend_b)
+        if not sol.is_valid():
+            circumcenter = Triangle2D.tri_circumcenter(v_a, v_b, v_c)
+            if circumcenter.is_valid():
+                return v_a + (v_b - circumcenter) + (v_c - circumcenter)
+        return sol
 
     @staticmethod
     def tri_contains(v_a: Vector2D, v_b: Vector2D, v_c: Vector2D, point: Vector2D) -> bool:
-- 
2.43.0

