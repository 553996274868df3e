From 0436805d54e909c5a7d99bfbb0f9043c065fc5e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:33 +0000
Subject: [PATCH 01/62] fix: Tetrahedron.contains tests the sign of the third
 coordinate for non-default tetrahedra

---
 symfem/references.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/symfem/references.py b/symfem/references.py
index 7716b5f..6ad072d 100644
--- a/symfem/references.py
+++ b/symfem/references.py
@@ -1408,7 +1408,7 @@ class Tetrahedron(Reference):
             t0 = minv[0, 0] * po[0] + minv[0, 1] * po[1] + minv[0, 2] * po[2]
             t1 = minv[1, 0] * po[0] + minv[1, 1] * po[1] + minv[1, 2] * po[2]
             t2 = minv[2, 0] * po[0] + minv[2, 1] * po[1] + minv[2, 2] * po[2]
-            return 0 <= t0 and 0 <= t1 and 0 >= t2 and t0 + t1 + t2 <= 1
+            return 0 <= t0 and 0 <= t1 and 0 <= t2 and t0 + t1 + t2 <= 1
 
 
 class Quadrilateral(Reference):
-- 
2.43.0


From a3a6606e0a5ff42ddf2f97c0301d5bc025452748 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:33 +0000
Subject: [PATCH 02/62] fix: point_in_quadrilateral works for both orientations
 of the quadrilateral

---
 symfem/geometry.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/symfem/geometry.py b/symfem/geometry.py
index 8ad84ba..45337c1 100644
--- a/symfem/geometry.py
+++ b/symfem/geometry.py
@@ -188,7 +188,10 @@ def point_in_quadrilateral(point: PointType, quad: SetOfPoints) -> bool:
     if isinstance(d3, sympy.Float) and _is_close(d3, 0):
         d3 = sympy.Integer(0)
 
-    return d0 >= 0 and d1 >= 0 and d2 >= 0 and d3 >= 0
+    # The sign of these distances depends on the orientation of the quadrilateral
+    return (d0 >= 0 and d1 >= 0 and d2 >= 0 and d3 >= 0) or (
+        d0 <= 0 and d1 <= 0 and d2 <= 0 and d3 <= 0
+    )
 
 
 def point_in_tetrahedron(point: PointType, tetrahedron: SetOfPoints) -> bool:
-- 
2.43.0


From 577ad4ef82d9ad94a214e6e87b1c1518655f3b98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:33 +0000
Subject: [PATCH 03/62] fix: Reference.on_edge and on_face check the edges and
 faces themselves

---
 symfem/references.py | 40 +++++++++++++++++++++++++---------------
 1 file changed, 25 insertions(+), 15 deletions(-)

diff --git a/symfem/references.py b/symfem/references.py
index 6ad072d..ae554c0 100644
--- a/symfem/references.py
+++ b/symfem/references.py
@@ -16,6 +16,7 @@ from symfem.geometry import (
     SetOfPointsInput,
     parse_point_input,
     parse_set_of_points_input,
+    point_in_quadrilateral,
 )
 from symfem.symbols import AxisVariablesNotSingle, t, x
 
@@ -620,14 +621,12 @@ class Reference(ABC):
         Returns:
             Is the point on an edge?
         """
-        from symfem.functions import VectorFunction
-
-        point = VectorFunction(point_in)
         for e in self.edges:
-            v0 = VectorFunction(self.vertices[e[0]])
-            v1 = VectorFunction(self.vertices[e[1]])
-            crossed = (v0 - point).cross(v1 - point).norm()
-            if crossed == 0:
+            a, b = (_vsub(self.vertices[i], parse_point_input(point_in)) for i in e)
+            ab = _vdot(a, b)
+            # The point is on the line through the vertices if |a|^2|b|^2 == (a.b)^2, and is
+            # between them if a.b <= 0
+            if ab <= 0 and sympy.expand(_vdot(a, a) * _vdot(b, b) - ab**2) == 0:
                 return True
         return False
 
@@ -640,15 +639,26 @@ class Reference(ABC):
         Returns:
             Is the point on a face?
         """
-        from symfem.functions import VectorFunction
-
-        point = VectorFunction(point_in)
+        point = parse_point_input(point_in)
         for f in self.faces:
-            v0 = VectorFunction(self.vertices[f[0]])
-            v1 = VectorFunction(self.vertices[f[1]])
-            v2 = VectorFunction(self.vertices[f[2]])
-            crossed = (v0 - point).cross(v1 - point)
-            if crossed.dot(v2 - point):
+            v0, v1, v2 = (self.vertices[i] for i in f[:3])
+            e1, e2, p = _vsub(v1, v0), _vsub(v2, v0), _vsub(point, v0)
+            # Project the point onto the plane of the face
+            gram = sympy.Matrix([[_vdot(e1, e1), _vdot(e1, e2)], [_vdot(e1, e2), _vdot(e2, e2)]])
+            a, b = gram.inv() * sympy.Matrix([_vdot(e1, p), _vdot(e2, p)])
+            residual = tuple(k - a * i - b * j for i, j, k in zip(e1, e2, p))
+            if sympy.expand(_vdot(residual, residual)) != 0:
+                continue
+            if len(f) == 3:
+                if 0 <= a and 0 <= b and a + b <= 1:
+                    return True
+            elif point_in_quadrilateral(
+                (a, b),
+                tuple(
+                    tuple(gram.inv() * sympy.Matrix([_vdot(e1, w), _vdot(e2, w)]))
+                    for w in (_vsub(self.vertices[i], v0) for i in f)
+                ),
+            ):
                 return True
         return False
 
-- 
2.43.0


From 35330ba42344ac63359c417f47e2d3cccedd5f29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:33 +0000
Subject: [PATCH 04/62] fix: inverse map of a triangle embedded in 3D

---
 symfem/references.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/symfem/references.py b/symfem/references.py
index ae554c0..91f0601 100644
--- a/symfem/references.py
+++ b/symfem/references.py
@@ -1196,9 +1196,11 @@ class Triangle(Reference):
             mat = sympy.Matrix([[v1[0], v2[0]], [v1[1], v2[1]]]).inv()
             return (_vdot(mat.row(0), p), _vdot(mat.row(1), p))
 
-        return tuple(
-            _vdot(_vsub(tuple(x), self.origin), a) * sympy.Integer(1) / _vnorm(a) for a in self.axes
-        )
+        p = _vsub(tuple(x), self.origin)
+        a0, a1 = self.axes
+        mat = sympy.Matrix([[_vdot(a0, a0), _vdot(a0, a1)], [_vdot(a0, a1), _vdot(a1, a1)]]).inv()
+        rhs = (_vdot(a0, p), _vdot(a1, p))
+        return (_vdot(mat.row(0), rhs), _vdot(mat.row(1), rhs))
 
     def volume(self) -> sympy.core.expr.Expr:
         """Calculate the volume.
-- 
2.43.0


From 03958c269634135f5378e3f0f07e8f7e544e5423 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:33 +0000
Subject: [PATCH 05/62] fix: map from the reference pyramid is affine and
 inverts the inverse map

---
 symfem/references.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/symfem/references.py b/symfem/references.py
index 91f0601..38c0ba9 100644
--- a/symfem/references.py
+++ b/symfem/references.py
@@ -2226,9 +2226,9 @@ class Pyramid(Reference):
         """
         assert self.vertices == self.reference_vertices
         return tuple(
-            (1 - x[2])
-            * ((1 - x[1]) * ((1 - x[0]) * v0 + x[0] * v1) + x[1] * ((1 - x[0]) * v2 + x[0] * v3))
-            + x[2] * v4
+            (1 - x[1]) * ((1 - x[0]) * v0 + x[0] * v1)
+            + x[1] * ((1 - x[0]) * v2 + x[0] * v3)
+            + x[2] * (v4 - v0)
             for v0, v1, v2, v3, v4 in zip(*vertices)
         )
 
@@ -2262,9 +2262,9 @@ class Pyramid(Reference):
             The map
         """
         return tuple(
-            (1 - x[2])
-            * ((1 - x[1]) * ((1 - x[0]) * v0 + x[0] * v1) + x[1] * ((1 - x[0]) * v2 + x[0] * v3))
-            + x[2] * v4
+            (1 - x[1]) * ((1 - x[0]) * v0 + x[0] * v1)
+            + x[1] * ((1 - x[0]) * v2 + x[0] * v3)
+            + x[2] * (v4 - v0)
             for v0, v1, v2, v3, v4 in zip(*self.vertices)
         )
 
-- 
2.43.0


From 275d258fb167a3e5ea55851b3695dc05e5c6a185 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:33 +0000
Subject: [PATCH 06/62] fix: Quadrilateral.get_inverse_map_to looks at the
 dimension of the target cell

---
 symfem/references.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/symfem/references.py b/symfem/references.py
index 38c0ba9..949028f 100644
--- a/symfem/references.py
+++ b/symfem/references.py
@@ -1562,9 +1562,9 @@ class Quadrilateral(Reference):
         v1 = _vsub(vertices[1], vertices[0])
         v2 = _vsub(vertices[2], vertices[0])
 
-        if len(self.vertices[0]) == 2:
+        if len(vertices[0]) == 2:
             mat = sympy.Matrix([[v1[0], v2[0]], [v1[1], v2[1]]]).inv()
-        elif len(self.vertices[0]) == 3:
+        elif len(vertices[0]) == 3:
             v3 = _vcross(v1, v2)
             mat = sympy.Matrix(
                 [[v1[0], v2[0], v3[0]], [v1[1], v2[1], v3[1]], [v1[2], v2[2], v3[2]]]
-- 
2.43.0


From ebc51d5c7c820d21ff20d06d7047b13ddc6e8b00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:01 +0000
Subject: [PATCH 07/62] fix: BasisFunction.norm returns the norm

---
 symfem/basis_functions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/symfem/basis_functions.py b/symfem/basis_functions.py
index 42859fe..3ef5eeb 100644
--- a/symfem/basis_functions.py
+++ b/symfem/basis_functions.py
@@ -290,7 +290,7 @@ class BasisFunction(AnyFunction):
         Returns:
             The norm
         """
-        raise self.get_function().norm()
+        return self.get_function().norm()
 
     def integral(
         self,
-- 
2.43.0


From b9ecedbe0547ca3e2fae5bc5859d8d26d9fc178c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:01 +0000
Subject: [PATCH 08/62] fix: arithmetic between two BasisFunctions

---
 symfem/basis_functions.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/symfem/basis_functions.py b/symfem/basis_functions.py
index 3ef5eeb..f5bd6db 100644
--- a/symfem/basis_functions.py
+++ b/symfem/basis_functions.py
@@ -58,7 +58,7 @@ class BasisFunction(AnyFunction):
         Returns:
             The sum of two functions
         """
-        return self.get_function().__add__(other)
+        return self.get_function() + other
 
     def __radd__(self, other: typing.Any) -> AnyFunction:
         """Add.
@@ -80,7 +80,7 @@ class BasisFunction(AnyFunction):
         Returns:
             The difference of two functions
         """
-        return self.get_function().__sub__(other)
+        return self.get_function() - other
 
     def __rsub__(self, other: typing.Any) -> AnyFunction:
         """Subtract.
@@ -110,7 +110,7 @@ class BasisFunction(AnyFunction):
         Returns:
             The ratio of two functions
         """
-        return self.get_function().__truediv__(other)
+        return self.get_function() / other
 
     def __rtruediv__(self, other: typing.Any) -> AnyFunction:
         """Divide.
@@ -132,7 +132,7 @@ class BasisFunction(AnyFunction):
         Returns:
             The product of two functions
         """
-        return self.get_function().__mul__(other)
+        return self.get_function() * other
 
     def __rmul__(self, other: typing.Any) -> AnyFunction:
         """Multiply.
@@ -154,7 +154,7 @@ class BasisFunction(AnyFunction):
         Returns:
             The product of two matrix functions
         """
-        return self.get_function().__matmul__(other)
+        return self.get_function() @ other
 
     def __rmatmul__(self, other: typing.Any) -> AnyFunction:
         """Multiply.
@@ -176,7 +176,7 @@ class BasisFunction(AnyFunction):
         Returns:
             This function to the power of other
         """
-        return self.get_function().__pow__(other)
+        return self.get_function() ** other
 
     def as_sympy(self) -> SympyFormat:
         """Convert to a sympy expression.
-- 
2.43.0


From bdcb2a136bdd68a626825103eaedf709e149ed6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:01 +0000
Subject: [PATCH 09/62] fix: BasisFunction has the shape, integrate,
 plot_values and equality of its function

---
 symfem/basis_functions.py     | 50 +++++++++++++++++++++++++++++++++++
 symfem/piecewise_functions.py |  2 ++
 2 files changed, 52 insertions(+)

diff --git a/symfem/basis_functions.py b/symfem/basis_functions.py
index f5bd6db..5c1a191 100644
--- a/symfem/basis_functions.py
+++ b/symfem/basis_functions.py
@@ -322,6 +322,56 @@ class BasisFunction(AnyFunction):
         """
         return SubbedBasisFunction(self, vars, values)
 
+    def __eq__(self, other: typing.Any) -> bool:
+        """Check if two functions are equal.
+
+        Args:
+            other: The function to compare to
+
+        Returns:
+            Are the functions equal?
+        """
+        if isinstance(other, BasisFunction):
+            other = other.get_function()
+        return self.get_function() == other
+
+    @property
+    def shape(self) -> typing.Tuple[int, ...]:
+        """Get the value shape of the function.
+
+        Returns:
+            shape
+        """
+        return self.get_function().shape
+
+    def integrate(self, *limits: typing.Any):
+        """Integrate the function.
+
+        Args:
+            limits: The variables and limits
+
+        Returns:
+            The integral
+        """
+        return self.get_function().integrate(*limits)
+
+    def plot_values(
+        self,
+        reference: Reference,
+        img: typing.Any,
+        value_scale: sympy.core.expr.Expr = sympy.Integer(1),
+        n: int = 6,
+    ):
+        """Plot the function's values.
+
+        Args:
+            reference: The domain to plot the function on
+            img: The image to plot the values on
+            value_scale: The factor to scale values by
+            n: The number of plotting points
+        """
+        self.get_function().plot_values(reference, img, value_scale, n)
+
     def __getitem__(self, key) -> AnyFunction:
         """Forward all other function calls to symbolic function."""
         return self.get_function().__getitem__(key)
diff --git a/symfem/piecewise_functions.py b/symfem/piecewise_functions.py
index 3d45b7c..5b54538 100644
--- a/symfem/piecewise_functions.py
+++ b/symfem/piecewise_functions.py
@@ -167,6 +167,8 @@ class PiecewiseFunction(AnyFunction):
 
     def __eq__(self, other: typing.Any) -> bool:
         """Check if two functions are equal."""
+        if isinstance(other, symfem.basis_functions.BasisFunction):
+            other = other.get_function()
         if not isinstance(other, PiecewiseFunction):
             return False
 
-- 
2.43.0


From 4a69c65f2ac501d65671b7ca8307ba24ebf2311a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:01 +0000
Subject: [PATCH 10/62] fix: VectorFunctions can be iterated over more than
 once at the same time

---
 symfem/functions.py | 11 +----------
 1 file changed, 1 insertion(+), 10 deletions(-)

diff --git a/symfem/functions.py b/symfem/functions.py
index 121c941..74a0f96 100644
--- a/symfem/functions.py
+++ b/symfem/functions.py
@@ -1268,16 +1268,7 @@ class VectorFunction(AnyFunction):
 
     def __iter__(self):
         """Get iterable."""
-        self.iter_n = 0
-        return self
-
-    def __next__(self):
-        """Get next item."""
-        if self.iter_n < len(self._vec):
-            self.iter_n += 1
-            return self._vec[self.iter_n - 1]
-        else:
-            raise StopIteration
+        return iter(self._vec)
 
     def plot_values(
         self,
-- 
2.43.0


From bca8a75f6128faeb47863d2a5ae91fbee3f4b489 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:01 +0000
Subject: [PATCH 11/62] fix: vector-matrix products and dot products of
 non-square matrix functions

---
 symfem/functions.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/symfem/functions.py b/symfem/functions.py
index 74a0f96..1f39985 100644
--- a/symfem/functions.py
+++ b/symfem/functions.py
@@ -1062,8 +1062,8 @@ class VectorFunction(AnyFunction):
     def __matmul__(self, other: typing.Any) -> VectorFunction:
         """Multiply."""
         if isinstance(other, MatrixFunction):
-            assert other.shape[1] == len(self)
-            return VectorFunction([other.col(i).dot(self) for i in range(other.shape[0])])
+            assert other.shape[0] == len(self)
+            return VectorFunction([other.col(i).dot(self) for i in range(other.shape[1])])
         return NotImplemented
 
     def __rmatmul__(self, other: typing.Any) -> VectorFunction:
@@ -1684,7 +1684,7 @@ class MatrixFunction(AnyFunction):
             assert self.shape == other.shape
             out = ScalarFunction(0)
             for i in range(self.shape[0]):
-                for j in range(self.shape[0]):
+                for j in range(self.shape[1]):
                     out += self._mat[i][j] * other._mat[i][j]
             return out
 
-- 
2.43.0


From 694965c489d045ce3e3f832a0b7fc5a87f3a728c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:02 +0000
Subject: [PATCH 12/62] fix: parse_function_input accepts sympy matrices

---
 symfem/functions.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/symfem/functions.py b/symfem/functions.py
index 1f39985..7fe1e6b 100644
--- a/symfem/functions.py
+++ b/symfem/functions.py
@@ -1841,6 +1841,8 @@ def parse_function_input(f: FunctionInput) -> AnyFunction:
                 assert not isinstance(i, (tuple, list))
                 vec.append(i)
             return VectorFunction(tuple(vec))
+    if isinstance(f, sympy.matrices.dense.MutableDenseMatrix):
+        return MatrixFunction(f)
     raise ValueError(f"Could not parse input function: {f}")
 
 
-- 
2.43.0


From 06468237ed1d1c34f1218a9d64d35b6298fc98ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:02 +0000
Subject: [PATCH 13/62] fix: PiecewiseFunction.__eq__ with different pieces

---
 symfem/piecewise_functions.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/symfem/piecewise_functions.py b/symfem/piecewise_functions.py
index 5b54538..294360b 100644
--- a/symfem/piecewise_functions.py
+++ b/symfem/piecewise_functions.py
@@ -174,9 +174,10 @@ class PiecewiseFunction(AnyFunction):
 
         if self.tdim != other.tdim:
             return False
-        for (shape0, f0), (shape1, f1) in zip(self._pieces.items(), other._pieces.items()):
-            assert shape0 == shape1
-            if f0 != f1:
+        if self._pieces.keys() != other._pieces.keys():
+            return False
+        for shape, f in self._pieces.items():
+            if f != other._pieces[shape]:
                 return False
         return True
 
-- 
2.43.0


From 2d50d16c5e649329d403df6dbc0e3841d8417327 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:02 +0000
Subject: [PATCH 14/62] fix: dot and cross products of two PiecewiseFunctions

---
 symfem/piecewise_functions.py | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/symfem/piecewise_functions.py b/symfem/piecewise_functions.py
index 294360b..03ad3de 100644
--- a/symfem/piecewise_functions.py
+++ b/symfem/piecewise_functions.py
@@ -392,8 +392,16 @@ class PiecewiseFunction(AnyFunction):
         Returns:
             The product
         """
+        other = parse_function_input(other_in)
+        if isinstance(other, symfem.basis_functions.BasisFunction):
+            other = other.get_function()
+        if isinstance(other, PiecewiseFunction):
+            assert self._pieces.keys() == other._pieces.keys()
+            return PiecewiseFunction(
+                {shape: f.dot(other._pieces[shape]) for shape, f in self._pieces.items()}, self.tdim
+            )
         return PiecewiseFunction(
-            {shape: f.dot(other_in) for shape, f in self._pieces.items()}, self.tdim
+            {shape: f.dot(other) for shape, f in self._pieces.items()}, self.tdim
         )
 
     def cross(self, other_in: FunctionInput) -> PiecewiseFunction:
@@ -405,8 +413,16 @@ class PiecewiseFunction(AnyFunction):
         Returns:
             The cross product
         """
+        other = parse_function_input(other_in)
+        if isinstance(other, symfem.basis_functions.BasisFunction):
+            other = other.get_function()
+        if isinstance(other, PiecewiseFunction):
+            assert self._pieces.keys() == other._pieces.keys()
+            return PiecewiseFunction(
+                {shape: f.cross(other._pieces[shape]) for shape, f in self._pieces.items()}, self.tdim
+            )
         return PiecewiseFunction(
-            {shape: f.cross(other_in) for shape, f in self._pieces.items()}, self.tdim
+            {shape: f.cross(other) for shape, f in self._pieces.items()}, self.tdim
         )
 
     def div(self) -> PiecewiseFunction:
-- 
2.43.0


From 0ad07ab8270ab4ab94048d18d30eb8cf073f2ac5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:02 +0000
Subject: [PATCH 15/62] fix: PiecewiseFunction.integral counts the interface
 between pieces once; integral over a point is a ScalarFunction

---
 symfem/functions.py           | 2 +-
 symfem/piecewise_functions.py | 5 ++++-
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/symfem/functions.py b/symfem/functions.py
index 7fe1e6b..a3e5107 100644
--- a/symfem/functions.py
+++ b/symfem/functions.py
@@ -809,7 +809,7 @@ class ScalarFunction(AnyFunction):
             for i in limits:
                 assert len(i) == 2
                 out = out.subs(*i)
-            return out
+            return ScalarFunction(out)
 
         out *= domain.jacobian()
         return ScalarFunction(out.integrate(*limits))
diff --git a/symfem/piecewise_functions.py b/symfem/piecewise_functions.py
index 03ad3de..4193d49 100644
--- a/symfem/piecewise_functions.py
+++ b/symfem/piecewise_functions.py
@@ -476,10 +476,13 @@ class PiecewiseFunction(AnyFunction):
             The integral
         """
         result = ScalarFunction(0)
+        integrated: typing.List[typing.Set[PointType]] = []
         for shape, f in self._pieces.items():
             ref = _piece_reference(self.tdim, shape)
             sub_domain = ref.intersection(domain)
-            if sub_domain is not None:
+            # Parts of the domain that are between pieces are in more than one of them
+            if sub_domain is not None and set(sub_domain.vertices) not in integrated:
+                integrated.append(set(sub_domain.vertices))
                 result += f.integral(sub_domain, vars, dummy_vars)
         return result
 
-- 
2.43.0


From 90d34937ee2210d052ef3d741432964da0e43c38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:55 +0000
Subject: [PATCH 16/62] fix: positions of interior DOFs of 3D DirectElements on
 DOF diagrams

---
 symfem/finite_element.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/symfem/finite_element.py b/symfem/finite_element.py
index 674fc9e..04ed563 100644
--- a/symfem/finite_element.py
+++ b/symfem/finite_element.py
@@ -957,7 +957,7 @@ class DirectElement(FiniteElement):
                 )
             elif dim == 3:
                 ne = 1
-                while ne * (ne + 1) * (ne + 2) // 6 < n:
+                while ne * (ne + 1) * (ne + 2) // 6 < dof_count:
                     ne += 1
                 i = 0
                 while entity_n >= (ne - i) * (ne + 1 - i) // 2:
-- 
2.43.0


From d8bedc6ba777a5d2caac6328238c489eca895580 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:55 +0000
Subject: [PATCH 17/62] fix: suffixes of 13, 111, 112 and 113

---
 symfem/functionals.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/symfem/functionals.py b/symfem/functionals.py
index 932b9fe..a5d9e5c 100644
--- a/symfem/functionals.py
+++ b/symfem/functionals.py
@@ -72,11 +72,11 @@ def _nth(n: int) -> str:
     Returns:
         The string (n)th, (n)st, (n)rd or (n)nd
     """
-    if n % 10 == 1 and n != 11:
+    if n % 10 == 1 and n % 100 != 11:
         return f"{n}st"
-    if n % 10 == 2 and n != 12:
+    if n % 10 == 2 and n % 100 != 12:
         return f"{n}nd"
-    if n % 10 == 3 and n != 12:
+    if n % 10 == 3 and n % 100 != 13:
         return f"{n}rd"
     return f"{n}th"
 
-- 
2.43.0


From 0acd9bae98b18e450df291779f7fe61616048402 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:55 +0000
Subject: [PATCH 18/62] fix: Picture.save saves every file in a list of
 filenames

---
 symfem/plotting.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/symfem/plotting.py b/symfem/plotting.py
index 0f6d6d2..b86ad20 100644
--- a/symfem/plotting.py
+++ b/symfem/plotting.py
@@ -1144,7 +1144,7 @@ class Picture:
         if isinstance(filename, list):
             for fn in filename:
                 self.save(fn, plot_options)
-                return
+            return
 
         assert isinstance(filename, str)
         if filename.endswith(".svg"):
-- 
2.43.0


From 5b8c954156a62996b6312ebc71cc5928fbb8cdec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:55 +0000
Subject: [PATCH 19/62] fix: EnrichedElement.map_to_cell passes each subelement
 its part of the basis

---
 symfem/finite_element.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/symfem/finite_element.py b/symfem/finite_element.py
index 04ed563..bcaab0e 100644
--- a/symfem/finite_element.py
+++ b/symfem/finite_element.py
@@ -1218,8 +1218,11 @@ class EnrichedElement(FiniteElement):
             The basis functions mapped to the cell
         """
         out = []
+        start = 0
         for e in self._subelements:
-            out += e.map_to_cell(vertices_in, basis, forward_map, inverse_map)
+            sub_basis = None if basis is None else basis[start : start + e.space_dim]
+            out += e.map_to_cell(vertices_in, sub_basis, forward_map, inverse_map)
+            start += e.space_dim
         return out
 
     def get_polynomial_basis(self) -> typing.List[AnyFunction]:
-- 
2.43.0


From 12c53162fb8d666a308a8606fc6f7925b6d9fb2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:56 +0000
Subject: [PATCH 20/62] fix: do not share cached matrices between elements
 defined outside Symfem

---
 symfem/finite_element.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/symfem/finite_element.py b/symfem/finite_element.py
index bcaab0e..ea4209f 100644
--- a/symfem/finite_element.py
+++ b/symfem/finite_element.py
@@ -685,7 +685,9 @@ class CiarletElement(FiniteElement):
         Returns:
             The dual matrix
         """
-        if caching and self.cache:
+        # The cache is only used for elements defined in Symfem, as the name of a class defined
+        # elsewhere does not identify it
+        if caching and self.cache and self.__class__.__module__.startswith("symfem."):
             cid = (
                 f"{self.__class__.__name__} {self.order} {self.reference.vertices} "
                 f"{self.init_kwargs()} {self.last_updated}"
-- 
2.43.0


From 7cd28ab631c33ff79d84edf06acca708c8c23562 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:56 +0000
Subject: [PATCH 21/62] fix: interrupted, concurrent or damaged cache files
 cannot break or alter elements

---
 symfem/caching.py | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/symfem/caching.py b/symfem/caching.py
index 53ff17a..269ee7d 100644
--- a/symfem/caching.py
+++ b/symfem/caching.py
@@ -3,18 +3,16 @@
 import os
 import typing
 from hashlib import sha256
+from uuid import uuid4
 
 import sympy
 from appdirs import user_cache_dir
 
-if not os.path.isdir(user_cache_dir()):
-    os.mkdir(user_cache_dir())
 CACHE_DIR = user_cache_dir("symfem")
 CACHE_FORMAT = "1"
 if os.path.isfile(CACHE_DIR):
     os.remove(CACHE_DIR)
-if not os.path.isdir(CACHE_DIR):
-    os.mkdir(CACHE_DIR)
+os.makedirs(CACHE_DIR, exist_ok=True)
 
 assert os.path.isdir(CACHE_DIR)
 
@@ -41,7 +39,8 @@ def load_cached_matrix(
         if mat.rows != size[0] or mat.cols != size[1]:
             return None
         return mat
-    except FileNotFoundError:
+    except Exception:
+        # The file does not exist or cannot be read
         return None
 
 
@@ -57,8 +56,16 @@ def save_cached_matrix(
     """
     hashed_id = sha256(cache_id.encode("utf-8")).hexdigest()
     filename = os.path.join(CACHE_DIR, f"{matrix_type}{CACHE_FORMAT}-{hashed_id}.matrix")
-    with open(filename, "w") as f:
-        f.write(matrix_to_string(matrix))
+    # Write to a temporary file so that a partly written matrix can never be loaded
+    temp_filename = f"{filename}-{uuid4().hex}"
+    try:
+        with open(temp_filename, "w") as f:
+            f.write(matrix_to_string(matrix))
+        os.replace(temp_filename, filename)
+    except OSError:
+        # The matrix cannot be cached
+        if os.path.isfile(temp_filename):
+            os.remove(temp_filename)
 
 
 def matrix_to_string(m: sympy.matrices.dense.MutableDenseMatrix) -> str:
-- 
2.43.0


From c72a545634780d54648ba2129ffee27ef4966710 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:26 +0000
Subject: [PATCH 22/62] fix: polynomial space of the KMV element on a
 tetrahedron

---
 symfem/elements/kmv.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/symfem/elements/kmv.py b/symfem/elements/kmv.py
index 9440421..bedef33 100644
--- a/symfem/elements/kmv.py
+++ b/symfem/elements/kmv.py
@@ -5,6 +5,7 @@ This element's definition is given in https://doi.org/10.1023/A:1004420829610
 """
 
 import typing
+from itertools import combinations
 
 import sympy
 
@@ -51,12 +52,11 @@ def kmv_tet_polyset(m: int, mf: int, mi: int) -> typing.List[FunctionInput]:
     poly: typing.List[FunctionInput] = []
     poly += polynomial_set_1d(3, m)
 
-    # TODO: check this
-    for axes in [(x[0], x[1]), (x[0], x[2]), (x[1], x[2]), (x[1] - x[0], x[2] - x[0])]:
-        b = axes[0] * axes[1] * (1 - axes[0] - axes[1])
+    for l0, l1, l2 in combinations((1 - x[0] - x[1] - x[2], x[0], x[1], x[2]), 3):
+        b = l0 * l1 * l2
         for i in range(mf - 2):
             for j in range(mf - 2 - i):
-                poly.append(x[0] ** i * x[1] ** j * x[2] ** (mf - 3 - i - j) * b)
+                poly.append(l0**i * l1**j * l2 ** (mf - 3 - i - j) * b)
 
     b = x[0] * x[1] * x[2] * (1 - x[0] - x[1] - x[2])
     for i in range(mi - 3):
@@ -250,4 +250,4 @@ class KongMulderVeldhuizen(CiarletElement):
     min_order = 1
     continuity = "C0"
     value_type = "scalar"
-    last_updated = "2023.05"
+    last_updated = "2024.10"
-- 
2.43.0


From 6c683ce36176a6c58a44ddeda4da54088399e910 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:26 +0000
Subject: [PATCH 23/62] fix: edge points and weights of the degree 3 KMV
 element on a triangle

---
 symfem/elements/kmv.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/symfem/elements/kmv.py b/symfem/elements/kmv.py
index bedef33..29d9932 100644
--- a/symfem/elements/kmv.py
+++ b/symfem/elements/kmv.py
@@ -126,7 +126,7 @@ class KongMulderVeldhuizen(CiarletElement):
                             entity=(0, v_n),
                         )
                     )
-                alpha = sympy.Rational(1, 2) - sympy.sqrt(411 - 84 * (7 - sympy.sqrt(7))) / 42
+                alpha = sympy.Rational(1, 2) - sympy.sqrt(441 - 84 * (7 - sympy.sqrt(7))) / 42
                 for e_n, e in enumerate(reference.edges):
                     dofs.append(
                         WeightedPointEvaluation(
@@ -135,7 +135,7 @@ class KongMulderVeldhuizen(CiarletElement):
                                 i + (j - i) * alpha
                                 for i, j in zip(reference.vertices[e[0]], reference.vertices[e[1]])
                             ),
-                            sympy.Rational(7, 720) - sympy.sqrt(7) / 180,
+                            sympy.Rational(7, 720) + sympy.sqrt(7) / 180,
                             entity=(1, e_n),
                         )
                     )
@@ -146,7 +146,7 @@ class KongMulderVeldhuizen(CiarletElement):
                                 j + (i - j) * alpha
                                 for i, j in zip(reference.vertices[e[0]], reference.vertices[e[1]])
                             ),
-                            sympy.Rational(7, 720) - sympy.sqrt(7) / 180,
+                            sympy.Rational(7, 720) + sympy.sqrt(7) / 180,
                             entity=(1, e_n),
                         )
                     )
-- 
2.43.0


From a6d7fb5f06d037e86b78c13e1ee130cde4775314 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:03 +0000
Subject: [PATCH 24/62] fix: integral functionals of piecewise functions

---
 symfem/elements/p1_macro.py |  2 +-
 symfem/functionals.py       | 28 ++++++++++++++++++++++------
 2 files changed, 23 insertions(+), 7 deletions(-)

diff --git a/symfem/elements/p1_macro.py b/symfem/elements/p1_macro.py
index 6c5d0d3..f13b0e0 100644
--- a/symfem/elements/p1_macro.py
+++ b/symfem/elements/p1_macro.py
@@ -82,4 +82,4 @@ class P1Macro(CiarletElement):
     max_order = 1
     continuity = "C0"
     value_type = "scalar macro"
-    last_updated = "2023.06"
+    last_updated = "2024.10"
diff --git a/symfem/functionals.py b/symfem/functionals.py
index a5d9e5c..9286ba1 100644
--- a/symfem/functionals.py
+++ b/symfem/functionals.py
@@ -81,6 +81,22 @@ def _nth(n: int) -> str:
     return f"{n}th"
 
 
+def _integrate(integrand: AnyFunction, domain: Reference) -> ScalarFunction:
+    """Integrate a function of the parametric variables t of a domain over the domain.
+
+    Args:
+        integrand: The function
+        domain: The domain
+
+    Returns:
+        The integral
+    """
+    if isinstance(integrand, PiecewiseFunction):
+        # Each piece is on a different part of the domain, so use coordinates in the cell
+        integrand = integrand.subs(t, domain.get_inverse_map_to_self())
+    return integrand.integral(domain)
+
+
 class BaseFunctional(ABC):
     """A functional."""
 
@@ -1002,7 +1018,7 @@ class IntegralAgainst(BaseFunctional):
                 point[i] += j * k
         v1 = function.subs(x, point)
         integrand = self.dot(v1)
-        return integrand.integral(self.integral_domain)
+        return _integrate(integrand, self.integral_domain)
 
     def dot(self, function: AnyFunction) -> ScalarFunction:
         """Dot a function with the moment function.
@@ -1086,7 +1102,7 @@ class IntegralOfDivergenceAgainst(BaseFunctional):
                 point[i] += j * k
         v1 = function.div().subs(x, point)
         integrand = self.dot(v1)
-        return integrand.integral(self.integral_domain)
+        return _integrate(integrand, self.integral_domain)
 
     def dot(self, function: ScalarFunction) -> ScalarFunction:
         """Dot a function with the moment function.
@@ -1171,7 +1187,7 @@ class IntegralOfDirectionalMultiderivative(BaseFunctional):
             for j, k in zip(a, t):
                 point[i] += j * k
         integrand = ScalarFunction(self.scale) * function.subs(x, point)
-        return integrand.integral(self.integral_domain)
+        return _integrate(integrand, self.integral_domain)
 
     def perform_mapping(
         self, fs: typing.List[AnyFunction], map: PointType, inverse_map: PointType
@@ -1293,7 +1309,7 @@ class IntegralMoment(BaseFunctional):
 
         v1 = function.subs(x, point)
         integrand = self.dot(v1)
-        return integrand.integral(self.integral_domain)
+        return _integrate(integrand, self.integral_domain)
 
     def dot(self, function: AnyFunction) -> ScalarFunction:
         """Dot a function with the moment function.
@@ -1447,7 +1463,7 @@ class DerivativeIntegralMoment(IntegralMoment):
             for j, k in zip(a, t):
                 point[i] += j * k
         integrand = self.dot(function.grad(self.integral_domain.gdim).subs(x, point))
-        value = integrand.integral(self.integral_domain)
+        value = _integrate(integrand, self.integral_domain)
         return value
 
     name = "Derivative integral moment"
@@ -1492,7 +1508,7 @@ class DivergenceIntegralMoment(IntegralMoment):
                 point[i] += j * k
         assert function.is_vector
         integrand = self.dot(function.div().subs(x, point))
-        return integrand.integral(self.integral_domain)
+        return _integrate(integrand, self.integral_domain)
 
     def get_tex(self) -> typing.Tuple[str, typing.List[str]]:
         """Get a representation of the functional as TeX, and list of terms involved.
-- 
2.43.0


From fa8c83824064e0de6c87bbe325726cdb8865d8ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:19 +0000
Subject: [PATCH 25/62] fix: covariant and double covariant maps onto cells of
 higher geometric dimension

---
 symfem/mappings.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/symfem/mappings.py b/symfem/mappings.py
index 3be9c39..bbd48aa 100644
--- a/symfem/mappings.py
+++ b/symfem/mappings.py
@@ -102,14 +102,14 @@ def covariant(
     Returns:
         The mapped function
     """
-    tdim = len(inverse_map)
+    gdim = len(map)
     f = parse_function_input(f_in)
     if substitute:
         f = f.subs(x, inverse_map)
 
     assert f.is_vector
 
-    j_inv = MatrixFunction([[i.diff(x[j]) for i in inverse_map] for j in range(tdim)])
+    j_inv = MatrixFunction([[i.diff(x[j]) for i in inverse_map] for j in range(gdim)])
     return j_inv @ f
 
 
@@ -156,13 +156,13 @@ def double_covariant(
     Returns:
         The mapped function
     """
-    tdim = len(inverse_map)
+    gdim = len(map)
     f = parse_function_input(f_in)
     if substitute:
         f = f.subs(x, inverse_map)
     assert f.is_matrix
 
-    j_inv = MatrixFunction([[i.diff(x[j]) for i in inverse_map] for j in range(tdim)])
+    j_inv = MatrixFunction([[i.diff(x[j]) for i in inverse_map] for j in range(gdim)])
     return j_inv @ f @ j_inv.transpose()
 
 
-- 
2.43.0


From f1ef521bc2fd7cb98b38673f049911a45574f807 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:27 +0000
Subject: [PATCH 26/62] fix: mappings of the interior DOFs of H(div), H(curl)
 and nonconforming Arnold-Winther elements

The mapped basis functions lost their declared continuity on skewed cells
---
 symfem/elements/abf.py                 |  2 +-
 symfem/elements/aw.py                  |  1 +
 symfem/elements/bdfm.py                | 16 ++++++++++++++--
 symfem/elements/bdm.py                 |  8 +++++++-
 symfem/elements/huang_zhang.py         | 20 +++++++++++++++++---
 symfem/elements/tnt.py                 | 19 +++++++++++--------
 symfem/elements/trimmed_serendipity.py | 12 +++++++-----
 7 files changed, 58 insertions(+), 20 deletions(-)

diff --git a/symfem/elements/abf.py b/symfem/elements/abf.py
index 864e7a4..6bfd375 100644
--- a/symfem/elements/abf.py
+++ b/symfem/elements/abf.py
@@ -45,7 +45,7 @@ class ArnoldBoffiFalk(CiarletElement):
         dofs: ListOfFunctionals = make_integral_moment_dofs(
             reference,
             edges=(NormalIntegralMoment, Lagrange, order, {"variant": variant}),
-            faces=(IntegralMoment, Nedelec, order, {"variant": variant}),
+            faces=(IntegralMoment, Nedelec, order, "contravariant", {"variant": variant}),
         )
 
         for i in range(order + 1):
diff --git a/symfem/elements/aw.py b/symfem/elements/aw.py
index 6477459..082188b 100644
--- a/symfem/elements/aw.py
+++ b/symfem/elements/aw.py
@@ -212,6 +212,7 @@ class NonConformingArnoldWinther(CiarletElement):
                         tuple(tuple(p * j for j in i) for i in component22),
                         dof,
                         entity=(2, 0),
+                        mapping="double_contravariant",
                     )
                 )
 
diff --git a/symfem/elements/bdfm.py b/symfem/elements/bdfm.py
index a69589e..a90fb87 100644
--- a/symfem/elements/bdfm.py
+++ b/symfem/elements/bdfm.py
@@ -91,13 +91,25 @@ class BDFM(CiarletElement):
             dofs = make_integral_moment_dofs(
                 reference,
                 facets=(NormalIntegralMoment, Lagrange, order - 1, {"variant": variant}),
-                cells=(IntegralMoment, NedelecFirstKind, order - 1, {"variant": variant}),
+                cells=(
+                    IntegralMoment,
+                    NedelecFirstKind,
+                    order - 1,
+                    "contravariant",
+                    {"variant": variant},
+                ),
             )
         else:
             dofs = make_integral_moment_dofs(
                 reference,
                 facets=(NormalIntegralMoment, DPC, order - 1, {"variant": variant}),
-                cells=(IntegralMoment, VectorDPC, order - 2, {"variant": variant}),
+                cells=(
+                    IntegralMoment,
+                    VectorDPC,
+                    order - 2,
+                    "contravariant",
+                    {"variant": variant},
+                ),
             )
         self.variant = variant
 
diff --git a/symfem/elements/bdm.py b/symfem/elements/bdm.py
index 05d0f0e..62cc758 100644
--- a/symfem/elements/bdm.py
+++ b/symfem/elements/bdm.py
@@ -38,7 +38,13 @@ class BDM(CiarletElement):
         dofs: ListOfFunctionals = make_integral_moment_dofs(
             reference,
             facets=(NormalIntegralMoment, Lagrange, order, {"variant": variant}),
-            cells=(IntegralMoment, NedelecFirstKind, order - 1, {"variant": variant}),
+            cells=(
+                IntegralMoment,
+                NedelecFirstKind,
+                order - 1,
+                "contravariant",
+                {"variant": variant},
+            ),
         )
         self.variant = variant
 
diff --git a/symfem/elements/huang_zhang.py b/symfem/elements/huang_zhang.py
index 41fdede..f19cd6e 100644
--- a/symfem/elements/huang_zhang.py
+++ b/symfem/elements/huang_zhang.py
@@ -58,13 +58,27 @@ class HuangZhang(CiarletElement):
         )
         dofs += make_integral_moment_dofs(
             reference,
-            facets=(TangentIntegralMoment, Lagrange, order - 2, {"variant": variant}),
+            facets=(
+                TangentIntegralMoment,
+                Lagrange,
+                order - 2,
+                "contravariant",
+                {"variant": variant},
+            ),
         )
 
         for i in range(order - 1):
             for j in range(order - 2):
-                dofs.append(IntegralAgainst(reference, (x[0] ** i * x[1] ** j, 0), (2, 0)))
-                dofs.append(IntegralAgainst(reference, (0, x[0] ** j * x[1] ** i), (2, 0)))
+                dofs.append(
+                    IntegralAgainst(
+                        reference, (x[0] ** i * x[1] ** j, 0), (2, 0), mapping="contravariant"
+                    )
+                )
+                dofs.append(
+                    IntegralAgainst(
+                        reference, (0, x[0] ** j * x[1] ** i), (2, 0), mapping="contravariant"
+                    )
+                )
 
         super().__init__(reference, order, poly, dofs, reference.tdim, reference.tdim)
 
diff --git a/symfem/elements/tnt.py b/symfem/elements/tnt.py
index 5fb4da2..8acc913 100644
--- a/symfem/elements/tnt.py
+++ b/symfem/elements/tnt.py
@@ -240,12 +240,12 @@ class TNTcurl(CiarletElement):
                 )
         if reference.tdim == 2:
             for f in face_moments:
-                dofs.append(IntegralAgainst(reference, f, entity=(2, 0), mapping="contravariant"))
+                dofs.append(IntegralAgainst(reference, f, entity=(2, 0), mapping="covariant"))
         elif reference.tdim == 3:
             for face_n in range(6):
                 for f in face_moments:
                     dofs.append(
-                        IntegralAgainst(reference, f, entity=(2, face_n), mapping="contravariant")
+                        IntegralAgainst(reference, f, entity=(2, face_n), mapping="covariant")
                     )
 
         # Interior Moments
@@ -293,7 +293,7 @@ class TNTcurl(CiarletElement):
                         grad_f = ScalarFunction(f).grad(3)
                         dofs.append(
                             IntegralAgainst(
-                                reference, grad_f, entity=(3, 0), mapping="contravariant"
+                                reference, grad_f, entity=(3, 0), mapping="covariant"
                             )
                         )
 
@@ -392,7 +392,7 @@ class TNTdiv(CiarletElement):
                 grad_f = ScalarFunction(f).grad(reference.tdim)
                 dofs.append(
                     IntegralAgainst(
-                        reference, grad_f, entity=(reference.tdim, 0), mapping="covariant"
+                        reference, grad_f, entity=(reference.tdim, 0), mapping="contravariant"
                     )
                 )
 
@@ -405,7 +405,7 @@ class TNTdiv(CiarletElement):
                     )
                     dofs.append(
                         IntegralAgainst(
-                            reference, f, entity=(reference.tdim, 0), mapping="covariant"
+                            reference, f, entity=(reference.tdim, 0), mapping="contravariant"
                         )
                     )
         if reference.tdim == 3:
@@ -427,7 +427,7 @@ class TNTdiv(CiarletElement):
                         )
                         dofs.append(
                             IntegralAgainst(
-                                reference, f, entity=(reference.tdim, 0), mapping="covariant"
+                                reference, f, entity=(reference.tdim, 0), mapping="contravariant"
                             )
                         )
                         f = (
@@ -445,7 +445,7 @@ class TNTdiv(CiarletElement):
                         )
                         dofs.append(
                             IntegralAgainst(
-                                reference, f, entity=(reference.tdim, 0), mapping="covariant"
+                                reference, f, entity=(reference.tdim, 0), mapping="contravariant"
                             )
                         )
                         if k in [0, 2]:
@@ -464,7 +464,10 @@ class TNTdiv(CiarletElement):
                             )
                             dofs.append(
                                 IntegralAgainst(
-                                    reference, f, entity=(reference.tdim, 0), mapping="covariant"
+                                    reference,
+                                    f,
+                                    entity=(reference.tdim, 0),
+                                    mapping="contravariant",
                                 )
                             )
 
diff --git a/symfem/elements/trimmed_serendipity.py b/symfem/elements/trimmed_serendipity.py
index 5e050d0..3540f5d 100644
--- a/symfem/elements/trimmed_serendipity.py
+++ b/symfem/elements/trimmed_serendipity.py
@@ -97,8 +97,8 @@ class TrimmedSerendipityHcurl(CiarletElement):
         dofs += make_integral_moment_dofs(
             reference,
             edges=(TangentIntegralMoment, DPC, order - 1, {"variant": variant}),
-            faces=(IntegralMoment, VectorDPC, order - 3, "contravariant", {"variant": variant}),
-            volumes=(IntegralMoment, VectorDPC, order - 5, "contravariant", {"variant": variant}),
+            faces=(IntegralMoment, VectorDPC, order - 3, "covariant", {"variant": variant}),
+            volumes=(IntegralMoment, VectorDPC, order - 5, "covariant", {"variant": variant}),
         )
         if order >= 2:
             for f_n in range(reference.sub_entity_count(2)):
@@ -106,7 +106,7 @@ class TrimmedSerendipityHcurl(CiarletElement):
                     f = ScalarFunction(x[0] ** (order - 1 - i) * x[1] ** i).grad(2)
                     f2 = VectorFunction((f[1], -f[0])).subs(x, tuple(t))
                     dofs.append(
-                        IntegralAgainst(reference, f2, entity=(2, f_n), mapping="contravariant")
+                        IntegralAgainst(reference, f2, entity=(2, f_n), mapping="covariant")
                     )
 
         super().__init__(reference, order, poly, dofs, reference.tdim, reference.tdim)
@@ -190,7 +190,7 @@ class TrimmedSerendipityHdiv(CiarletElement):
         dofs += make_integral_moment_dofs(
             reference,
             facets=(NormalIntegralMoment, DPC, order - 1, {"variant": variant}),
-            cells=(IntegralMoment, VectorDPC, order - 3, "covariant", {"variant": variant}),
+            cells=(IntegralMoment, VectorDPC, order - 3, "contravariant", {"variant": variant}),
         )
         if order >= 2:
             if reference.tdim == 2:
@@ -207,7 +207,9 @@ class TrimmedSerendipityHdiv(CiarletElement):
             for f in fs:
                 f2 = f.subs(x, tuple(t))
                 dofs.append(
-                    IntegralAgainst(reference, f2, entity=(reference.tdim, 0), mapping="covariant")
+                    IntegralAgainst(
+                        reference, f2, entity=(reference.tdim, 0), mapping="contravariant"
+                    )
                 )
 
         super().__init__(reference, order, poly, dofs, reference.tdim, reference.tdim)
-- 
2.43.0


From 31c66cee3678625e3af41c8707e2cf5342f717c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:53 +0000
Subject: [PATCH 27/62] fix: polynomial space of the Bell element on cells
 other than the reference triangle

---
 symfem/elements/bell.py | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/symfem/elements/bell.py b/symfem/elements/bell.py
index c141f1f..3688dc5 100644
--- a/symfem/elements/bell.py
+++ b/symfem/elements/bell.py
@@ -5,6 +5,8 @@ This element's definition is given in https://doi.org/10.1002/nme.1620010108 (Be
 
 import typing
 
+import sympy
+
 from symfem.finite_element import CiarletElement
 from symfem.functionals import DerivativePointEvaluation, ListOfFunctionals, PointEvaluation
 from symfem.functions import FunctionInput
@@ -40,9 +42,20 @@ class Bell(CiarletElement):
 
         poly: typing.List[FunctionInput] = []
         poly += polynomial_set_1d(reference.tdim, 4)
-        poly.append(x[0] ** 5 - x[1] ** 5)
-        poly.append(x[0] ** 3 * x[1] ** 2 - x[0] ** 2 * x[1] ** 3)
-        poly.append(5 * x[0] ** 2 * x[1] ** 3 - x[0] ** 5)
+        # Degree 5 terms whose normal derivative is a cubic polynomial on every edge
+        terms = [x[0] ** (5 - i) * x[1] ** i for i in range(6)]
+        constraints = []
+        for v0, v1 in reference.edges:
+            tangent = [b - a for a, b in zip(reference.vertices[v0], reference.vertices[v1])]
+            at_tangent = {x[0]: tangent[0], x[1]: tangent[1]}
+            constraints.append(
+                [
+                    (tangent[1] * t.diff(x[0]) - tangent[0] * t.diff(x[1])).subs(at_tangent)
+                    for t in terms
+                ]
+            )
+        for coeffs in sympy.Matrix(constraints).nullspace():
+            poly.append(sum(c * t for c, t in zip(coeffs, terms)))
 
         super().__init__(reference, order, poly, dofs, reference.tdim, 1)
 
-- 
2.43.0


From 08736bb71af30183fe95bf033d9ddf3403527de4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:44 +0000
Subject: [PATCH 28/62] fix: keep the points of the prism lattice inside the
 cell

---
 symfem/references.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/symfem/references.py b/symfem/references.py
index 949028f..5403489 100644
--- a/symfem/references.py
+++ b/symfem/references.py
@@ -1980,8 +1980,8 @@ class Prism(Reference):
                 sympy.Rational(2 * j + 1, 2 * (n + 1)),
                 sympy.Rational(2 * k + 1, 2 * (n + 1)),
             )
-            for i in range(n + 1)
-            for j in range(n + 1 - i)
+            for i in range(n)
+            for j in range(n - i)
             for k in range(n + 1)
         )
 
-- 
2.43.0


From 0f91bb6439e2613ca40a71759e15d63fca43ce94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:44 +0000
Subject: [PATCH 29/62] fix: reject sums of functions and sequences of
 different lengths

---
 symfem/functions.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/symfem/functions.py b/symfem/functions.py
index a3e5107..475f131 100644
--- a/symfem/functions.py
+++ b/symfem/functions.py
@@ -997,6 +997,7 @@ class VectorFunction(AnyFunction):
             assert len(self._vec) == len(other._vec)
             return VectorFunction(tuple(i._f + j._f for i, j in zip(self._vec, other._vec)))
         if isinstance(other, (list, tuple)):
+            assert len(self._vec) == len(other)
             return VectorFunction(tuple(i._f + j for i, j in zip(self._vec, other)))
         return NotImplemented
 
@@ -1006,6 +1007,7 @@ class VectorFunction(AnyFunction):
             assert len(self._vec) == len(other._vec)
             return VectorFunction(tuple(i._f + j._f for i, j in zip(other._vec, self._vec)))
         if isinstance(other, (list, tuple)):
+            assert len(self._vec) == len(other)
             return VectorFunction(tuple(i + j._f for i, j in zip(other, self._vec)))
         return NotImplemented
 
@@ -1015,6 +1017,7 @@ class VectorFunction(AnyFunction):
             assert len(self._vec) == len(other._vec)
             return VectorFunction(tuple(i._f - j._f for i, j in zip(self._vec, other._vec)))
         if isinstance(other, (list, tuple)):
+            assert len(self._vec) == len(other)
             return VectorFunction(tuple(i._f - j for i, j in zip(self._vec, other)))
         return NotImplemented
 
@@ -1024,6 +1027,7 @@ class VectorFunction(AnyFunction):
             assert len(self._vec) == len(other._vec)
             return VectorFunction(tuple(i._f - j._f for i, j in zip(other._vec, self._vec)))
         if isinstance(other, (list, tuple)):
+            assert len(self._vec) == len(other)
             return VectorFunction(tuple(i - j._f for i, j in zip(other, self._vec)))
         return NotImplemented
 
@@ -1424,6 +1428,7 @@ class MatrixFunction(AnyFunction):
                 )
             )
         if isinstance(other, (list, tuple)):
+            assert len(other) == self.shape[0]
             data = []
             for i, j in zip(self._mat, other):
                 assert isinstance(j, (list, tuple)) and len(j) == self.shape[1]
@@ -1451,6 +1456,7 @@ class MatrixFunction(AnyFunction):
                 )
             )
         if isinstance(other, (list, tuple)):
+            assert len(other) == self.shape[0]
             data = []
             for i, j in zip(other, self._mat):
                 assert isinstance(i, (list, tuple)) and len(i) == self.shape[1]
@@ -1478,6 +1484,7 @@ class MatrixFunction(AnyFunction):
                 )
             )
         if isinstance(other, (list, tuple)):
+            assert len(other) == self.shape[0]
             data = []
             for i, j in zip(self._mat, other):
                 assert isinstance(j, (list, tuple)) and len(j) == self.shape[1]
@@ -1505,6 +1512,7 @@ class MatrixFunction(AnyFunction):
                 )
             )
         if isinstance(other, (list, tuple)):
+            assert len(other) == self.shape[0]
             data = []
             for i, j in zip(other, self._mat):
                 assert isinstance(i, (list, tuple)) and len(i) == self.shape[1]
-- 
2.43.0


From 45cc70450c1f9b36c780003c164f9439a8af3a15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:54 +0000
Subject: [PATCH 30/62] fix: plot values at the requested scale after an
 earlier plot at another scale

---
 symfem/functions.py | 22 ++++++++++++----------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/symfem/functions.py b/symfem/functions.py
index 475f131..a8f1a46 100644
--- a/symfem/functions.py
+++ b/symfem/functions.py
@@ -543,7 +543,7 @@ class ScalarFunction(AnyFunction):
             self._f = f
         assert isinstance(self._f, sympy.core.expr.Expr)
         self._plot_beziers: typing.Dict[
-            typing.Tuple[symfem.references.Reference, int],
+            typing.Tuple[symfem.references.Reference, int, sympy.core.expr.Expr],
             typing.List[typing.Tuple[PointType, PointType, PointType, PointType]],
         ] = {}
 
@@ -851,8 +851,9 @@ class ScalarFunction(AnyFunction):
 
         assert isinstance(img, Picture)
 
-        if (reference, n) not in self._plot_beziers:
-            self._plot_beziers[(reference, n)] = []
+        key = (reference, n, value_scale)
+        if key not in self._plot_beziers:
+            self._plot_beziers[key] = []
             pts, pairs = reference.make_lattice_with_lines_float(n)
 
             value_scale *= sympy.Rational(5, 8)
@@ -876,7 +877,7 @@ class ScalarFunction(AnyFunction):
                 dj = deriv.subs(x, pj).dot(d_pj - pts[j]).as_sympy()
                 assert isinstance(di, sympy.core.expr.Expr)
                 assert isinstance(dj, sympy.core.expr.Expr)
-                self._plot_beziers[(reference, n)].append(
+                self._plot_beziers[key].append(
                     (
                         tuple(pi) + (evals[i],),
                         tuple(d_pi) + (evals[i] + di * value_scale,),
@@ -885,7 +886,7 @@ class ScalarFunction(AnyFunction):
                     )
                 )
 
-        for s, m1, m2, e in self._plot_beziers[(reference, n)]:
+        for s, m1, m2, e in self._plot_beziers[key]:
             img.add_bezier(s, m1, m2, e, colors.ORANGE)
 
     def with_floats(self) -> AnyFunction:
@@ -965,7 +966,7 @@ class VectorFunction(AnyFunction):
             assert i.is_scalar
 
         self._plot_arrows: typing.Dict[
-            typing.Tuple[symfem.references.Reference, int],
+            typing.Tuple[symfem.references.Reference, int, sympy.core.expr.Expr],
             typing.List[
                 typing.Tuple[typing.Tuple[sympy.core.expr.Expr, ...], VectorFunction, float]
             ],
@@ -1293,8 +1294,9 @@ class VectorFunction(AnyFunction):
 
         assert isinstance(img, Picture)
 
-        if (reference, n) not in self._plot_arrows:
-            self._plot_arrows[(reference, n)] = []
+        key = (reference, n, value_scale)
+        if key not in self._plot_arrows:
+            self._plot_arrows[key] = []
             pts = reference.make_lattice_float(n)
             value_scale /= 4
 
@@ -1304,8 +1306,8 @@ class VectorFunction(AnyFunction):
                 value = VectorFunction(tuple(sympy.Float(float(v)) for v in value_s))
                 value *= value_scale
                 size = float(value.norm() * 40)
-                self._plot_arrows[(reference, n)].append((p, VectorFunction(p) + value, size))
-        for p, q, size in self._plot_arrows[(reference, n)]:
+                self._plot_arrows[key].append((p, VectorFunction(p) + value, size))
+        for p, q, size in self._plot_arrows[key]:
             img.add_arrow(p, q, colors.ORANGE, size)
 
     def with_floats(self) -> AnyFunction:
-- 
2.43.0


From 0aef2e3fed39bda8f6ecc1886fc39f35f4fd290c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:17 +0000
Subject: [PATCH 31/62] fix: choose the piece of a piecewise function by
 variable when substituting a point

---
 symfem/piecewise_functions.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/symfem/piecewise_functions.py b/symfem/piecewise_functions.py
index 4193d49..9a0219a 100644
--- a/symfem/piecewise_functions.py
+++ b/symfem/piecewise_functions.py
@@ -324,7 +324,10 @@ class PiecewiseFunction(AnyFunction):
                 if not i_s.is_constant():
                     break
             else:
-                return self.get_piece(tuple(values)).subs(vars, values)
+                point = tuple(values)
+                if isinstance(vars, (tuple, list)) and set(vars) == set(x[: self.tdim]):
+                    point = tuple(values[vars.index(v)] for v in x[: self.tdim])
+                return self.get_piece(point).subs(vars, values)
 
         return PiecewiseFunction(
             {shape: f.subs(vars, values) for shape, f in self._pieces.items()}, self.tdim
-- 
2.43.0


From abe28052ad5df6b22ae025b5c2757f6b88a6cd98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:17 +0000
Subject: [PATCH 32/62] fix: compare a piecewise function with a function that
 is not piecewise piece by piece

---
 symfem/piecewise_functions.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/symfem/piecewise_functions.py b/symfem/piecewise_functions.py
index 9a0219a..ecdd55a 100644
--- a/symfem/piecewise_functions.py
+++ b/symfem/piecewise_functions.py
@@ -170,7 +170,9 @@ class PiecewiseFunction(AnyFunction):
         if isinstance(other, symfem.basis_functions.BasisFunction):
             other = other.get_function()
         if not isinstance(other, PiecewiseFunction):
-            return False
+            if not isinstance(other, AnyFunction):
+                return False
+            return all(f == other for f in self._pieces.values())
 
         if self.tdim != other.tdim:
             return False
-- 
2.43.0


From 8921da923e4ae49cf84265dac63165e884121fab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:26 +0000
Subject: [PATCH 33/62] fix: get_mapping returns only mappings, not other names
 of its module

---
 symfem/mappings.py | 27 +++++++++++++++++++++++++--
 1 file changed, 25 insertions(+), 2 deletions(-)

diff --git a/symfem/mappings.py b/symfem/mappings.py
index bbd48aa..fdfac0e 100644
--- a/symfem/mappings.py
+++ b/symfem/mappings.py
@@ -414,6 +414,29 @@ def double_contravariant_inverse(
     return double_contravariant(f_in, inverse_map, map, substitute)
 
 
+_mappings = {
+    f.__name__: f
+    for f in (
+        identity,
+        l2,
+        covariant,
+        contravariant,
+        double_covariant,
+        double_contravariant,
+        identity_inverse_transpose,
+        l2_inverse_transpose,
+        covariant_inverse_transpose,
+        contravariant_inverse_transpose,
+        identity_inverse,
+        l2_inverse,
+        covariant_inverse,
+        contravariant_inverse,
+        double_covariant_inverse,
+        double_contravariant_inverse,
+    )
+}
+
+
 def get_mapping(
     mapname: str, inverse: bool = False, transpose: bool = False
 ) -> Callable[[FunctionInput, PointType, PointType, bool], AnyFunction]:
@@ -433,7 +456,7 @@ def get_mapping(
     if transpose:
         function_name += "_transpose"
 
-    if function_name not in globals():
+    if function_name not in _mappings:
         raise ValueError(f"Invalid map name: {function_name}")
 
-    return globals()[function_name]
+    return _mappings[function_name]
-- 
2.43.0


From 154bb448cde3d9a0854764a5f4d1a0b4101d27e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:42 +0000
Subject: [PATCH 34/62] fix: the two-dimensional serendipity Hdiv and Hcurl
 sets are curls and gradients

---
 symfem/polynomials/polysets.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/symfem/polynomials/polysets.py b/symfem/polynomials/polysets.py
index decc39c..72b52b7 100644
--- a/symfem/polynomials/polysets.py
+++ b/symfem/polynomials/polysets.py
@@ -353,10 +353,10 @@ def Hdiv_serendipity(
     if domain_dim == 2:
         return [
             VectorFunction(
-                (variables[0] ** (order + 1), (order + 1) * variables[0] ** order * variables[1])
+                (variables[0] ** (order + 1), -(order + 1) * variables[0] ** order * variables[1])
             ),
             VectorFunction(
-                ((order + 1) * variables[0] * variables[1] ** order, variables[1] ** (order + 1))
+                ((order + 1) * variables[0] * variables[1] ** order, -(variables[1] ** (order + 1)))
             ),
         ]
     if domain_dim == 3:
@@ -410,7 +410,7 @@ def Hcurl_serendipity(
     if domain_dim == 2:
         return [
             VectorFunction(
-                ((order + 1) * variables[0] ** order * variables[1], -(variables[0] ** (order + 1)))
+                ((order + 1) * variables[0] ** order * variables[1], variables[0] ** (order + 1))
             ),
             VectorFunction(
                 (variables[1] ** (order + 1), (order + 1) * variables[0] * variables[1] ** order)
-- 
2.43.0


From bfc716683b5dacd7fc9d0aeb9d82f3b857bbe659 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:42 +0000
Subject: [PATCH 35/62] fix: the serendipity Hdiv and Hcurl sets use the
 variables they are given

---
 symfem/polynomials/polysets.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/symfem/polynomials/polysets.py b/symfem/polynomials/polysets.py
index 72b52b7..4b7f685 100644
--- a/symfem/polynomials/polysets.py
+++ b/symfem/polynomials/polysets.py
@@ -387,7 +387,16 @@ def Hdiv_serendipity(
                     )
                 )
 
-        return [i.curl() for i in a]
+        return [
+            VectorFunction(
+                (
+                    i[2].diff(variables[1]) - i[1].diff(variables[2]),
+                    i[0].diff(variables[2]) - i[2].diff(variables[0]),
+                    i[1].diff(variables[0]) - i[0].diff(variables[1]),
+                )
+            )
+            for i in a
+        ]
 
     raise NotImplementedError()
 
@@ -446,7 +455,7 @@ def Hcurl_serendipity(
                     )
                 )
 
-        for p in serendipity_set_1d(domain_dim, order + 1):
+        for p in serendipity_set_1d(domain_dim, order + 1, variables):
             out.append(VectorFunction(tuple(p.diff(i) for i in variables)))
         return out
 
-- 
2.43.0


From 5223b45f920d58af93dd2207f6bb68ee42eed847 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:48 +0000
Subject: [PATCH 36/62] fix: the order 0 pyramid Lagrange space is the
 polynomials of degree 0

---
 symfem/elements/lagrange_pyramid.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/symfem/elements/lagrange_pyramid.py b/symfem/elements/lagrange_pyramid.py
index 19db1a3..979a1a4 100644
--- a/symfem/elements/lagrange_pyramid.py
+++ b/symfem/elements/lagrange_pyramid.py
@@ -126,6 +126,8 @@ class Lagrange(CiarletElement):
 
     @property
     def polynomial_superdegree(self) -> typing.Optional[int]:
+        if self.order == 0:
+            return 0
         return None
 
     names = ["Lagrange", "P"]
-- 
2.43.0


From a8c432d5d01c6e08d1aaaf01b63594ea39d0537a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:54 +0000
Subject: [PATCH 37/62] fix: the Lagrange subdegree of the trimmed serendipity
 elements at high orders

---
 symfem/elements/trimmed_serendipity.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/symfem/elements/trimmed_serendipity.py b/symfem/elements/trimmed_serendipity.py
index 3540f5d..9492f71 100644
--- a/symfem/elements/trimmed_serendipity.py
+++ b/symfem/elements/trimmed_serendipity.py
@@ -122,7 +122,9 @@ class TrimmedSerendipityHcurl(CiarletElement):
 
     @property
     def lagrange_subdegree(self) -> int:
-        return (self.order + self.reference.tdim - 1) // (self.reference.tdim + 1)
+        if 2 <= self.order <= self.reference.tdim:
+            return 1
+        return (self.order - 1) // self.reference.tdim
 
     @property
     def lagrange_superdegree(self) -> typing.Optional[int]:
@@ -225,7 +227,9 @@ class TrimmedSerendipityHdiv(CiarletElement):
 
     @property
     def lagrange_subdegree(self) -> int:
-        return (self.order + 1) // (self.reference.tdim + 1)
+        if self.order == self.reference.tdim:
+            return 1
+        return (self.order - 1) // self.reference.tdim
 
     @property
     def lagrange_superdegree(self) -> typing.Optional[int]:
-- 
2.43.0


From d40ad7a736771fd59dfdf9ad875be60fe5c43a99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:22 +0000
Subject: [PATCH 38/62] fix: DOF directions are never symbolic or zero

---
 symfem/functionals.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/symfem/functionals.py b/symfem/functionals.py
index 9286ba1..8256a5e 100644
--- a/symfem/functionals.py
+++ b/symfem/functionals.py
@@ -1345,6 +1345,9 @@ class IntegralMoment(BaseFunctional):
             if self.f.is_vector:
                 p = (self.f.subs(t, self.dof_point())).as_sympy()
                 assert isinstance(p, tuple)
+                if all(i == 0 for i in p):
+                    # There is no direction at this point
+                    return None
                 return p
             return None
         vp = VectorFunction(p)
@@ -1445,8 +1448,11 @@ class DerivativeIntegralMoment(IntegralMoment):
         Returns:
             The direction
         """
-        dw = self.dot_with.as_sympy()
+        dw = self.dot_with.subs(x, self.dof_point()).as_sympy()
         assert isinstance(dw, tuple)
+        if all(i == 0 for i in dw):
+            # There is no direction at this point
+            return None
         return dw
 
     def _eval_symbolic(self, function: AnyFunction) -> AnyFunction:
-- 
2.43.0


From 2190fa30f89f1b81283bddde6d5c6ceb1d37da86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:22 +0000
Subject: [PATCH 39/62] fix: the plot positions of the DOFs of a directly
 defined element lie on their entity

---
 symfem/finite_element.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/symfem/finite_element.py b/symfem/finite_element.py
index ea4209f..262dbe9 100644
--- a/symfem/finite_element.py
+++ b/symfem/finite_element.py
@@ -934,7 +934,6 @@ class DirectElement(FiniteElement):
             dof_count = len(ed)
             sub_ref = self.reference.sub_entity(dim, e_n)
             if dim == 0:
-                assert entity_n == 0
                 positions.append(sub_ref.vertices[0])
             elif dim == 1:
                 positions.append(
@@ -966,12 +965,12 @@ class DirectElement(FiniteElement):
                     entity_n -= (ne - i) * (ne + 1 - i) // 2
                     i += 1
                 j = 0
-                while entity_n >= ne - j:
-                    entity_n -= ne - j
+                while entity_n >= ne - i - j:
+                    entity_n -= ne - i - j
                     j += 1
                 positions.append(
                     tuple(
-                        o + sympy.Rational((entity_n + 1) * a + (j + 1) * b + (i + 1) * c, n + 1)
+                        o + sympy.Rational((entity_n + 1) * a + (j + 1) * b + (i + 1) * c, ne + 2)
                         for o, a, b, c in zip(sub_ref.origin, *sub_ref.axes)
                     )
                 )
-- 
2.43.0


From 6d2033bd5171f43dd1f25e48035fcd1e3206ae57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:38 +0000
Subject: [PATCH 40/62] fix: the interior functions of the direct serendipity
 elements have degree order - 4

They were the functions of degree 4 at every order, so the elements of order 4 and above had the
wrong dimension, and at order 9 and above did not contain the polynomials of degree order.
---
 symfem/elements/direct_serendipity.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/symfem/elements/direct_serendipity.py b/symfem/elements/direct_serendipity.py
index 9694551..b24447c 100644
--- a/symfem/elements/direct_serendipity.py
+++ b/symfem/elements/direct_serendipity.py
@@ -73,7 +73,7 @@ class DirectSerendipity(DirectElement):
 
         # Functions in interior
         if order >= 4:
-            for f in DPC(reference, 4, "equispaced").get_basis_functions():
+            for f in DPC(reference, order - 4, "equispaced").get_basis_functions():
                 basis_functions.append(f * x[0] * x[1] * (1 - x[0]) * (1 - x[1]))
                 basis_entities.append((2, 0))
 
-- 
2.43.0


From 186837d93301aa07e59e287c3d923af4e5696942 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:51 +0000
Subject: [PATCH 41/62] fix: the BDFM space on a tetrahedron has normal
 components of degree order - 1

The third component of some members was not a multiple of z, so their normal components on the face
z = 0 had degree order.
---
 symfem/elements/bdfm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/symfem/elements/bdfm.py b/symfem/elements/bdfm.py
index a90fb87..3561295 100644
--- a/symfem/elements/bdfm.py
+++ b/symfem/elements/bdfm.py
@@ -65,7 +65,7 @@ def bdfm_polyset(reference: Reference, order: int) -> typing.List[FunctionInput]
             pset.append((x[0] * p, x[1] * p, x[2] * p))
         for i in range(1, order):
             p = x[0] ** i * x[1] ** (order - 1 - i)
-            pset.append((p * (x[0] + x[1]), 0, x[1] * p))
+            pset.append((p * (x[0] + x[1]), 0, x[2] * p))
 
     return pset
 
-- 
2.43.0


From 6ede9c246d910521e8fe97dac1058f5f7f44f81a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:10 +0000
Subject: [PATCH 42/62] fix: tensor factorisations of Q elements that are not
 equispaced or not on the default cell

The factors were always equispaced elements on the default interval, so the basis computed from
the factorisation was not that of the legendre and radau variants, nor of elements on other
cells. Asking for a factorised basis of an element without a factorisation now raises an error
whether or not its basis has been computed before.
---
 symfem/elements/q.py     | 6 ++++--
 symfem/finite_element.py | 4 ++++
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/symfem/elements/q.py b/symfem/elements/q.py
index 69157bb..7ee3109 100644
--- a/symfem/elements/q.py
+++ b/symfem/elements/q.py
@@ -101,11 +101,13 @@ class Q(CiarletElement):
         Returns:
             The tensor factorisation
         """
-        if self.variant == "lobatto":
+        if self.variant in ["legendre", "lobatto"]:
+            return super().get_tensor_factorisation()
+        if self.reference.vertices != self.reference.reference_vertices:
             return super().get_tensor_factorisation()
         from symfem import create_element
 
-        interval_q = create_element("interval", "Lagrange", self.order)
+        interval_q = create_element("interval", "Lagrange", self.order, variant=self.variant)
 
         if self.order == 0:
             perm = [0]
diff --git a/symfem/finite_element.py b/symfem/finite_element.py
index 262dbe9..4dce4ef 100644
--- a/symfem/finite_element.py
+++ b/symfem/finite_element.py
@@ -721,6 +721,10 @@ class CiarletElement(FiniteElement):
         Returns:
             The basis functions
         """
+        if use_tensor_factorisation:
+            # Raise an error if there is no factorisation, even if the basis is already known
+            self.get_tensor_factorisation()
+
         if self._basis_functions is None:
             if use_tensor_factorisation:
                 self._basis_functions = self._get_basis_functions_tensor()
-- 
2.43.0


From ca240b268eef8f5544a311412c51c55b9e58e771 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:53 +0000
Subject: [PATCH 43/62] fix: the basis functions of the matrix Lagrange element
 are matrices

They were vectors of tdim^2 components, although the value type and range
shape of the element say that they are tdim by tdim matrices.
---
 symfem/elements/lagrange.py | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/symfem/elements/lagrange.py b/symfem/elements/lagrange.py
index a0797b1..398edb0 100644
--- a/symfem/elements/lagrange.py
+++ b/symfem/elements/lagrange.py
@@ -202,19 +202,20 @@ class MatrixLagrange(CiarletElement):
         """
         scalar_space = Lagrange(reference, order, variant)
         dofs: ListOfFunctionals = []
-        if reference.tdim == 1:
-            directions: typing.List[typing.Tuple[int, ...]] = [(1,)]
-        else:
-            directions = [
-                tuple(1 if i == j else 0 for j in range(reference.tdim**2))
-                for i in range(reference.tdim**2)
-            ]
+        tdim = reference.tdim
+        directions = [
+            tuple(tuple(1 if n == tdim * i + j else 0 for j in range(tdim)) for i in range(tdim))
+            for n in range(tdim**2)
+        ]
         for p in scalar_space.dofs:
             for d in directions:
                 dofs.append(DotPointEvaluation(reference, p.dof_point(), d, entity=p.entity))
 
         poly: typing.List[FunctionInput] = []
-        poly += polynomial_set_vector(reference.tdim, reference.tdim**2, order)
+        poly += [
+            tuple(tuple(a[tdim * i : tdim * (i + 1)]) for i in range(tdim))
+            for a in polynomial_set_vector(tdim, tdim**2, order)
+        ]
 
         super().__init__(
             reference,
-- 
2.43.0


From 4bc8974b9822e3c029e0fe1f350df90cdcccd143 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:50 +0000
Subject: [PATCH 44/62] fix: functionals can be applied to basis function
 objects

---
 symfem/functionals.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/symfem/functionals.py b/symfem/functionals.py
index 8256a5e..1a7f060 100644
--- a/symfem/functionals.py
+++ b/symfem/functionals.py
@@ -6,6 +6,7 @@ from abc import ABC, abstractmethod
 import sympy
 
 from symfem import mappings
+from symfem.basis_functions import BasisFunction
 from symfem.functions import (
     AnyFunction,
     FunctionInput,
@@ -227,6 +228,8 @@ class BaseFunctional(ABC):
         Returns:
             The value of the functional for the function
         """
+        if isinstance(function, BasisFunction):
+            function = function.get_function()
         e = self._eval_symbolic(function)
         assert isinstance(e, ScalarFunction)
         es = e.as_sympy()
-- 
2.43.0


From 0c7f46dfab9633a61f9b7e47c99bf3cde194bae9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:50 +0000
Subject: [PATCH 45/62] fix: functions can be divided by, multiplied by, ...
 basis function objects

The reflected operators of basis functions refused functions of other value
types, and operations between piecewise functions and basis functions gave
piecewise functions whose pieces are piecewise functions.
---
 symfem/basis_functions.py     | 10 +++++-----
 symfem/piecewise_functions.py | 12 ++++++++++++
 2 files changed, 17 insertions(+), 5 deletions(-)

diff --git a/symfem/basis_functions.py b/symfem/basis_functions.py
index 5c1a191..3dad619 100644
--- a/symfem/basis_functions.py
+++ b/symfem/basis_functions.py
@@ -69,7 +69,7 @@ class BasisFunction(AnyFunction):
         Returns:
             The sum of two functions
         """
-        return self.get_function().__radd__(other)
+        return other + self.get_function()
 
     def __sub__(self, other: typing.Any) -> AnyFunction:
         """Subtract.
@@ -91,7 +91,7 @@ class BasisFunction(AnyFunction):
         Returns:
             The difference of two functions
         """
-        return self.get_function().__rsub__(other)
+        return other - self.get_function()
 
     def __neg__(self) -> AnyFunction:
         """Negate.
@@ -121,7 +121,7 @@ class BasisFunction(AnyFunction):
         Returns:
             The ratio of two functions
         """
-        return self.get_function().__rtruediv__(other)
+        return other / self.get_function()
 
     def __mul__(self, other: typing.Any) -> AnyFunction:
         """Multiply.
@@ -143,7 +143,7 @@ class BasisFunction(AnyFunction):
         Returns:
             The product of two functions
         """
-        return self.get_function().__rmul__(other)
+        return other * self.get_function()
 
     def __matmul__(self, other: typing.Any) -> AnyFunction:
         """Multiply.
@@ -165,7 +165,7 @@ class BasisFunction(AnyFunction):
         Returns:
             The product of two matrix functions
         """
-        return self.get_function().__rmatmul__(other)
+        return other @ self.get_function()
 
     def __pow__(self, other: typing.Any) -> AnyFunction:
         """Raise to a power.
diff --git a/symfem/piecewise_functions.py b/symfem/piecewise_functions.py
index ecdd55a..92a0c8d 100644
--- a/symfem/piecewise_functions.py
+++ b/symfem/piecewise_functions.py
@@ -194,6 +194,8 @@ class PiecewiseFunction(AnyFunction):
 
     def __add__(self, other: typing.Any) -> PiecewiseFunction:
         """Add."""
+        if isinstance(other, symfem.basis_functions.BasisFunction):
+            other = other.get_function()
         if isinstance(other, PiecewiseFunction):
             new_pieces: typing.Dict[SetOfPointsInput, FunctionInput] = {}
             for (shape0, f0), (shape1, f1) in zip(self._pieces.items(), other._pieces.items()):
@@ -214,6 +216,8 @@ class PiecewiseFunction(AnyFunction):
 
     def __sub__(self, other: typing.Any) -> PiecewiseFunction:
         """Subtract."""
+        if isinstance(other, symfem.basis_functions.BasisFunction):
+            other = other.get_function()
         if isinstance(other, PiecewiseFunction):
             new_pieces: typing.Dict[SetOfPointsInput, FunctionInput] = {}
             for (shape0, f0), (shape1, f1) in zip(self._pieces.items(), other._pieces.items()):
@@ -234,6 +238,8 @@ class PiecewiseFunction(AnyFunction):
 
     def __truediv__(self, other: typing.Any) -> PiecewiseFunction:
         """Divide."""
+        if isinstance(other, symfem.basis_functions.BasisFunction):
+            other = other.get_function()
         if isinstance(other, PiecewiseFunction):
             new_pieces: typing.Dict[SetOfPointsInput, FunctionInput] = {}
             for (shape0, f0), (shape1, f1) in zip(self._pieces.items(), other._pieces.items()):
@@ -254,6 +260,8 @@ class PiecewiseFunction(AnyFunction):
 
     def __mul__(self, other: typing.Any) -> PiecewiseFunction:
         """Multiply."""
+        if isinstance(other, symfem.basis_functions.BasisFunction):
+            other = other.get_function()
         if isinstance(other, PiecewiseFunction):
             new_pieces: typing.Dict[SetOfPointsInput, FunctionInput] = {}
             for (shape0, f0), (shape1, f1) in zip(self._pieces.items(), other._pieces.items()):
@@ -274,6 +282,8 @@ class PiecewiseFunction(AnyFunction):
 
     def __matmul__(self, other: typing.Any) -> PiecewiseFunction:
         """Multiply."""
+        if isinstance(other, symfem.basis_functions.BasisFunction):
+            other = other.get_function()
         if isinstance(other, PiecewiseFunction):
             new_pieces: typing.Dict[SetOfPointsInput, FunctionInput] = {}
             for (shape0, f0), (shape1, f1) in zip(self._pieces.items(), other._pieces.items()):
@@ -294,6 +304,8 @@ class PiecewiseFunction(AnyFunction):
 
     def __pow__(self, other: typing.Any) -> PiecewiseFunction:
         """Raise to a power."""
+        if isinstance(other, symfem.basis_functions.BasisFunction):
+            other = other.get_function()
         if isinstance(other, PiecewiseFunction):
             new_pieces: typing.Dict[SetOfPointsInput, FunctionInput] = {}
             for (shape0, f0), (shape1, f1) in zip(self._pieces.items(), other._pieces.items()):
-- 
2.43.0


From 0e10c17de6fd1b02d91c2c239a6e4ee387f71f46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:50 +0000
Subject: [PATCH 46/62] fix: a substitution into a basis function keeps its
 values

The lists passed to subs were kept and used later, so the substituted function
changed when the caller changed the lists.
---
 symfem/basis_functions.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/symfem/basis_functions.py b/symfem/basis_functions.py
index 3dad619..0295603 100644
--- a/symfem/basis_functions.py
+++ b/symfem/basis_functions.py
@@ -445,8 +445,8 @@ class SubbedBasisFunction(BasisFunction):
         """
         super().__init__(scalar=f.is_scalar, vector=f.is_vector, matrix=f.is_matrix)
         self.f = f
-        self._vars = vars
-        self._values = values
+        self._vars = tuple(vars) if isinstance(vars, list) else vars
+        self._values = tuple(values) if isinstance(values, list) else values
 
     def get_function(self) -> AnyFunction:
         """Return the symbolic function.
-- 
2.43.0


From d4c736dac204c50ef5e724874a9e0b99f5240b81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:52 +0000
Subject: [PATCH 47/62] fix: the Buffa-Christiansen functions have continuous
 normal components

The coefficients of the edges that meet at the centre were given to the wrong
one of the two edges of each fine triangle, and those of the rotated functions
had the wrong sign relative to the coefficients of the outer edges, so the
functions were not in H(div) and H(curl).
---
 symfem/elements/dual.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/symfem/elements/dual.py b/symfem/elements/dual.py
index ecb5be9..03b9141 100644
--- a/symfem/elements/dual.py
+++ b/symfem/elements/dual.py
@@ -302,8 +302,8 @@ class BuffaChristiansen(DualCiarletElement):
             dual_coefficients[j][2 * j - 1][0] = sympy.Rational(-1, 2)
             N = 2 * reference.number_of_triangles
             for i in range(N - 1):
-                dual_coefficients[j][(2 * j + i) % N][2] = sympy.Rational(i + 1 - N // 2, N)
-                dual_coefficients[j][(2 * j + i + 1) % N][1] = sympy.Rational(i + 1 - N // 2, N)
+                dual_coefficients[j][(2 * j + i) % N][1] = sympy.Rational(i + 1 - N // 2, N)
+                dual_coefficients[j][(2 * j + i + 1) % N][2] = sympy.Rational(i + 1 - N // 2, N)
 
         dof_entities = [(0, i) for i in range(0, len(reference.vertices), 2)]
         dof_directions: typing.List[PointType] = []
@@ -371,8 +371,8 @@ class RotatedBuffaChristiansen(DualCiarletElement):
             dual_coefficients[j][2 * j - 1][0] = sympy.Rational(-1, 2)
             N = 2 * reference.number_of_triangles
             for i in range(N - 1):
-                dual_coefficients[j][(2 * j + i) % N][2] = sympy.Rational(N // 2 - 1 - i, N)
-                dual_coefficients[j][(2 * j + i + 1) % N][1] = sympy.Rational(N // 2 - 1 - i, N)
+                dual_coefficients[j][(2 * j + i) % N][1] = sympy.Rational(i + 1 - N // 2, N)
+                dual_coefficients[j][(2 * j + i + 1) % N][2] = sympy.Rational(i + 1 - N // 2, N)
 
         dof_entities = [(0, i) for i in range(0, len(reference.vertices), 2)]
         dof_directions: typing.List[PointType] = []
-- 
2.43.0


From fd0e15b7fa996d206525727ee333e36e86049204 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:07 +0000
Subject: [PATCH 48/62] fix: the TeX of derivative and divergence point
 evaluations names the derivative

---
 symfem/functionals.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/symfem/functionals.py b/symfem/functionals.py
index 1a7f060..42e8c69 100644
--- a/symfem/functionals.py
+++ b/symfem/functionals.py
@@ -473,10 +473,15 @@ class DerivativePointEvaluation(BaseFunctional):
         """
         assert isinstance(self.point, VectorFunction)
         if len(self.point) == 1:
-            desc = "v\\mapsto "
-            desc += f"v'({','.join([_to_tex(i, True) for i in self.point])})"
+            order = self.derivative[0]
+            desc = "v\\mapsto v"
+            desc += "'" * order if order < 4 else f"^{{({order})}}"
+            desc += f"({','.join([_to_tex(i, True) for i in self.point])})"
             return desc, []
         desc = "v\\mapsto"
+        if sum(self.derivative) == 0:
+            desc += f" v({','.join([_to_tex(i, True) for i in self.point])})"
+            return desc, []
         desc += "\\frac{\\partial"
         if sum(self.derivative) > 1:
             desc += f"^{{{sum(self.derivative)}}}"
@@ -569,6 +574,8 @@ class PointDirectionalDerivativeEvaluation(BaseFunctional):
         assert isinstance(self.dir, VectorFunction)
         if len(self.point) == 1:
             desc = "v\\mapsto "
+            if self.dir[0] != 1:
+                desc += f"({_to_tex(self.dir[0])})"
             desc += f"v'({','.join([_to_tex(i, True) for i in self.point])})"
             return desc, []
         desc = "v\\mapsto"
@@ -947,7 +954,7 @@ class PointDivergenceEvaluation(BaseFunctional):
             Representation of the functional as TeX, and list of terms involved
         """
         desc = "\\boldsymbol{v}\\mapsto"
-        desc += "\\nabla a\\cdot\\boldsymbol{v}"
+        desc += "\\nabla\\cdot\\boldsymbol{v}"
         desc += "(" + ",".join([_to_tex(i, True) for i in self.dof_point()]) + ")"
         return desc, []
 
-- 
2.43.0


From 38ab34a96900b98077bcd413e755a863bf971e1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:07 +0000
Subject: [PATCH 49/62] fix: the TeX of an integral moment of a derivative
 contains the derivative

---
 symfem/functionals.py | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/symfem/functionals.py b/symfem/functionals.py
index 42e8c69..31079eb 100644
--- a/symfem/functionals.py
+++ b/symfem/functionals.py
@@ -1482,6 +1482,22 @@ class DerivativeIntegralMoment(IntegralMoment):
         value = _integrate(integrand, self.integral_domain)
         return value
 
+    def get_tex(self) -> typing.Tuple[str, typing.List[str]]:
+        """Get a representation of the functional as TeX, and list of terms involved.
+
+        Returns:
+            Representation of the functional as TeX, and list of terms involved
+        """
+        assert isinstance(self.dot_with, VectorFunction)
+        desc = "v\\mapsto"
+        desc += f"\\displaystyle\\int_{{{self.entity_tex()}}}"
+        if self.f != 1:
+            desc += "(" + _to_tex(self.f, True) + ")"
+        desc += "\\nabla {v}\\cdot\\left(\\begin{array}{c}"
+        desc += "\\\\".join([_to_tex(i) for i in self.dot_with])
+        desc += "\\end{array}\\right)"
+        return desc, [self.entity_definition()]
+
     name = "Derivative integral moment"
 
 
-- 
2.43.0


From d1796e63a9da18340344f01a8dc5daf00573c0f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:07 +0000
Subject: [PATCH 50/62] fix: the TeX of inner product integral moments contains
 the size they are scaled by

---
 symfem/functionals.py | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/symfem/functionals.py b/symfem/functionals.py
index 31079eb..6906a83 100644
--- a/symfem/functionals.py
+++ b/symfem/functionals.py
@@ -1799,6 +1799,18 @@ class InnerProductIntegralMoment(IntegralMoment):
         assert isinstance(il, tuple)
         return il
 
+    def _size_tex(self) -> str:
+        """Get the size of the axes of the entity that the moment is multiplied by in TeX format.
+
+        Returns:
+            TeX representation of the size
+        """
+        size = sympy.S(self.integral_domain.jacobian())
+        if size == 1:
+            return ""
+        scale = sympy.S(size / self.integral_domain.volume())
+        return ("" if scale == 1 else _to_tex(scale)) + f"|{{{self.entity_tex()}}}|"
+
     def get_tex(self) -> typing.Tuple[str, typing.List[str]]:
         """Get a representation of the functional as TeX, and list of terms involved.
 
@@ -1811,6 +1823,7 @@ class InnerProductIntegralMoment(IntegralMoment):
         desc += f"\\displaystyle\\int_{{{entity}}}"
         if self.f != 1:
             desc += "(" + _to_tex(self.f, True) + ")"
+        desc += self._size_tex()
         desc += _to_tex(self.inner_with_left) + "^{\\text{t}}"
         desc += "\\boldsymbol{V}"
         desc += _to_tex(self.inner_with_right)
@@ -1865,7 +1878,7 @@ class NormalInnerProductIntegralMoment(InnerProductIntegralMoment):
         desc += f"\\displaystyle\\int_{{{entity}}}"
         if self.f != 1:
             desc += "(" + _to_tex(self.f, True) + ")"
-        desc += f"|{{{entity}}}|"
+        desc += self._size_tex()
         desc += "\\hat{\\boldsymbol{n}}^{\\text{t}}" + f"_{{{entity_n}}}"
         desc += "\\mathbf{V}"
         desc += "\\hat{\\boldsymbol{n}}" + f"_{{{entity_n}}}"
-- 
2.43.0


From 2253306705e4c6bf1b80df12c3345a4476cce05f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:25 +0000
Subject: [PATCH 51/62] fix: the DOF is drawn once in the plot of a function

---
 symfem/functions.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/symfem/functions.py b/symfem/functions.py
index a8f1a46..b887603 100644
--- a/symfem/functions.py
+++ b/symfem/functions.py
@@ -444,7 +444,11 @@ class AnyFunction(ABC):
                 if dim == reference.tdim:
                     self.plot_values(reference, img, value_scale)
 
-            if (dim, entity) in ze:
+            if dof_entity is None:
+                draw_dof = ze == zentities[-1]
+            else:
+                draw_dof = dof_entity in ze
+            if draw_dof:
                 if dof_direction is not None:
                     assert dof_point is not None and dof_n is not None
                     img.add_dof_arrow(
-- 
2.43.0


From da321b08140c0fea0a44ec2d615ce35e9475b848 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:25 +0000
Subject: [PATCH 52/62] fix: only arrows that share their point with another
 DOF are shifted in DOF diagrams

---
 symfem/finite_element.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/symfem/finite_element.py b/symfem/finite_element.py
index 4dce4ef..4b25462 100644
--- a/symfem/finite_element.py
+++ b/symfem/finite_element.py
@@ -189,7 +189,7 @@ class FiniteElement(ABC):
                     if direction is not None:
                         shifted = False
                         for d2, p in enumerate(dof_positions):
-                            if d != d2 and d[0] == p:
+                            if d[3] != d2 and d[0] == p:
                                 shifted = True
                                 break
                         img.add_dof_arrow(d[0], direction, d[3], colors.entity(d[2][0]), shifted)
-- 
2.43.0


From 12be0ef97b250f29fb4c71e2013b88f9a9ddc7ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:25 +0000
Subject: [PATCH 53/62] fix: titles, descriptions and mathematics are escaped
 in SVGs

---
 symfem/plotting.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/symfem/plotting.py b/symfem/plotting.py
index b86ad20..e895b0a 100644
--- a/symfem/plotting.py
+++ b/symfem/plotting.py
@@ -2,6 +2,7 @@
 
 import typing
 from abc import ABC, abstractmethod
+from xml.sax.saxutils import escape
 
 import sympy
 
@@ -634,7 +635,7 @@ class Math(PictureElement):
         return (
             f"<text x='{c[0]}' y='{c[1]}' fill='{self.color}' font-size='{self.font_size}'"
             f" style=\"{anchor};font-family:'CMU Serif',serif;font-style:italic\">"
-            f"{self.math}</text>\n"
+            f"{escape(self.math)}</text>\n"
         )
 
     def as_tikz(self, map_pt: typing.Callable[[PointType], typing.Tuple[float, float]]) -> str:
@@ -1051,9 +1052,9 @@ class Picture:
             " xmlns='http://www.w3.org/2000/svg' xmlns:xlink='http://www.w3.org/1999/xlink'>\n"
         )
         if self.title is not None:
-            img += f"<title>{self.title}</title>\n"
+            img += f"<title>{escape(self.title)}</title>\n"
         if self.desc is not None:
-            img += f"<desc>{self.desc}</desc>\n"
+            img += f"<desc>{escape(self.desc)}</desc>\n"
         if self.svg_metadata is not None:
             img += self.svg_metadata + "\n"
 
-- 
2.43.0


From 457b8d5c0ecaccad51038426dd13831d95367b28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:25 +0000
Subject: [PATCH 54/62] fix: an arrow of length 0 can be written as an SVG

---
 symfem/plotting.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/symfem/plotting.py b/symfem/plotting.py
index e895b0a..38d3e81 100644
--- a/symfem/plotting.py
+++ b/symfem/plotting.py
@@ -384,6 +384,8 @@ class Arrow(PictureElement):
         ve = VectorFunction(self.end)
         vs = VectorFunction(self.start)
         vdirection = ve - vs
+        if vdirection.norm() == 0:
+            return out
         vdirection /= vdirection.norm()
         vdirection /= 30
         perp = VectorFunction((-vdirection[1], vdirection[0]))
-- 
2.43.0


From b2a915e485226a60b81504ac9ffa2666e426f249 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:25 +0000
Subject: [PATCH 55/62] fix: the anchors of mathematics in SVGs are valid

---
 symfem/plotting.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/symfem/plotting.py b/symfem/plotting.py
index 38d3e81..a02cc49 100644
--- a/symfem/plotting.py
+++ b/symfem/plotting.py
@@ -619,16 +619,16 @@ class Math(PictureElement):
         else:
             anchor = ""
             if self.anchor.startswith("north"):
-                anchor += "dominant-baseline:top"
+                anchor += "dominant-baseline:text-before-edge"
             elif self.anchor.startswith("south"):
-                anchor += "dominant-baseline:bottom"
+                anchor += "dominant-baseline:text-after-edge"
             else:
                 anchor += "dominant-baseline:middle"
             anchor += ";"
             if self.anchor.endswith("east"):
-                anchor += "text-anchor:right"
+                anchor += "text-anchor:end"
             elif self.anchor.endswith("west"):
-                anchor += "text-anchor:left"
+                anchor += "text-anchor:start"
             else:
                 anchor += "text-anchor:middle"
 
-- 
2.43.0


From 76e234766b3b286c0adfd7f81662e0e866177294 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:13 +0000
Subject: [PATCH 56/62] fix: the TikZ of a picture does not depend on the
 pictures written before it

---
 symfem/plotting.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/symfem/plotting.py b/symfem/plotting.py
index a02cc49..a514d2c 100644
--- a/symfem/plotting.py
+++ b/symfem/plotting.py
@@ -117,6 +117,10 @@ class Colors:
             return self._tikz[name]
         return name
 
+    def reset_tikz(self):
+        """Forget the colours that have been used in Tikz."""
+        self._tikz = {}
+
     def get_tikz_definitions(self) -> str:
         """Get the definitions of colours used in Tikz.
 
@@ -1119,6 +1123,7 @@ class Picture:
         tikz = self.tex_comment
         tikz += "\\begin{tikzpicture}[x=1cm,y=1cm]\n"
 
+        colors.reset_tikz()
         inner_tikz = ""
         for e in self.elements:
             inner_tikz += e.as_tikz(map_pt)
-- 
2.43.0


From 7554b4aac30b4c32a7c8f9efd70ba54af6441236 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:32 +0000
Subject: [PATCH 57/62] fix: the continuity test compares the faces of
 hexahedra and the edges of prisms that are shared

---
 symfem/finite_element.py | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/symfem/finite_element.py b/symfem/finite_element.py
index 4b25462..d967a2e 100644
--- a/symfem/finite_element.py
+++ b/symfem/finite_element.py
@@ -391,24 +391,24 @@ class FiniteElement(ABC):
         elif self.reference.name == "hexahedron":
             vertices = (
                 (0, 0, 0),
-                (0, 0, 1),
                 (0, 1, 0),
+                (0, 0, 1),
                 (0, 1, 1),
                 (-1, 0, 0),
-                (-1, 0, 1),
                 (-1, 1, 0),
+                (-1, 0, 1),
                 (-1, 1, 1),
             )
             entity_pairs = [
                 [0, (0, 0)],
-                [0, (2, 2)],
-                [0, (4, 1)],
+                [0, (2, 1)],
+                [0, (4, 2)],
                 [0, (6, 3)],
-                [1, (1, 1)],
-                [1, (2, 0)],
-                [1, (6, 5)],
-                [1, (9, 3)],
-                [2, (0, 2)],
+                [1, (1, 0)],
+                [1, (2, 1)],
+                [1, (6, 3)],
+                [1, (9, 5)],
+                [2, (2, 0)],
             ]
         elif self.reference.name == "prism":
             vertices = ((-1, 0, 0), (0, 0, 0), (0, 1, 0), (-1, 0, 1), (0, 0, 1), (0, 1, 1))
@@ -419,7 +419,7 @@ class FiniteElement(ABC):
                 [0, (5, 5)],
                 [1, (1, 3)],
                 [1, (2, 4)],
-                [1, (6, 6)],
+                [1, (5, 5)],
                 [1, (7, 8)],
                 [2, (2, 3)],
             ]
-- 
2.43.0


From d1e5f0a10e378fc2d8adb42e21c35693c39b84da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:41 +0000
Subject: [PATCH 58/62] fix: the continuity test of inner H(curl) elements
 compares every tangential component

---
 symfem/finite_element.py | 27 +++------------------------
 1 file changed, 3 insertions(+), 24 deletions(-)

diff --git a/symfem/finite_element.py b/symfem/finite_element.py
index d967a2e..cff36fe 100644
--- a/symfem/finite_element.py
+++ b/symfem/finite_element.py
@@ -16,7 +16,6 @@ from symfem.functions import (
     AnyFunction,
     FunctionInput,
     ScalarFunction,
-    VectorFunction,
     parse_function_input,
 )
 from symfem.geometry import PointType, SetOfPointsInput, parse_set_of_points_input
@@ -499,29 +498,9 @@ class FiniteElement(ABC):
                     f = f[1:]
                     g = g[1:]
                 elif continuity == "inner H(curl)":
-                    if len(vertices[0]) == 2:
-                        f = f[1, 1]
-                        g = g[1, 1]
-                    if len(vertices[0]) == 3:
-                        if dim == 1:
-                            vs = self.reference.sub_entities(1)[entities[0]]
-                            v0 = self.reference.vertices[vs[0]]
-                            v1 = self.reference.vertices[vs[1]]
-                            tangent = VectorFunction(v1) - VectorFunction(v0)
-                            f = sum(
-                                i * f[ni, nj] * j
-                                for ni, i in enumerate(tangent)
-                                for nj, j in enumerate(tangent)
-                            )
-                            g = sum(
-                                i * g[ni, nj] * j
-                                for ni, i in enumerate(tangent)
-                                for nj, j in enumerate(tangent)
-                            )
-                        else:
-                            assert dim == 2
-                            f = [f[1, 1], f[2, 2]]
-                            g = [g[1, 1], g[2, 2]]
+                    tdim = self.reference.tdim
+                    f = [f[i, j] for i in range(1, tdim) for j in range(1, tdim)]
+                    g = [g[i, j] for i in range(1, tdim) for j in range(1, tdim)]
                 elif continuity == "integral inner H(div)":
                     f = f[0, 0].integrate((x[1], 0, 1))
                     g = g[0, 0].integrate((x[1], 0, 1))
-- 
2.43.0


From 4990c6be411ac07ca1e2e237119ad248fe1748a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:56 +0000
Subject: [PATCH 59/62] fix: the independence test of directly defined elements
 recognises equal functions written differently

---
 symfem/finite_element.py | 48 ++++++++++++----------------------------
 1 file changed, 14 insertions(+), 34 deletions(-)

diff --git a/symfem/finite_element.py b/symfem/finite_element.py
index cff36fe..6ab3ef3 100644
--- a/symfem/finite_element.py
+++ b/symfem/finite_element.py
@@ -1037,40 +1037,20 @@ class DirectElement(FiniteElement):
 
     def test_independence(self):
         """Test that the basis functions of this element are linearly independent."""
-        basis = self.get_basis_functions()
-        all_terms = set()
-
-        scalar = basis[0].is_scalar
-
-        if scalar:
-            for f in basis:
-                f_s = f.as_sympy()
-                assert isinstance(f_s, sympy.core.expr.Expr)
-                for term in f_s.as_coefficients_dict():
-                    all_terms.add(term)
-            mat = [[0 for i in all_terms] for j in basis]
-            for i, t in enumerate(all_terms):
-                for j, f in enumerate(basis):
-                    f_s = f.as_sympy()
-                    assert isinstance(f_s, sympy.core.expr.Expr)
-                    fd = f_s.as_coefficients_dict()
-                    if t in fd:
-                        mat[j][i] = fd[t]
-        else:
-            for f in basis:
-                for fi, fpart in enumerate(f):
-                    fpart_s = fpart.as_sympy()
-                    assert isinstance(fpart_s, sympy.core.expr.Expr)
-                    for term in fpart_s.as_coefficients_dict():
-                        all_terms.add((fi, term))
-            mat = [[0 for i in all_terms] for j in basis]
-            for i, (fi, t) in enumerate(all_terms):
-                for j, f in enumerate(basis):
-                    ffi_s = f[fi].as_sympy()
-                    assert isinstance(ffi_s, sympy.core.expr.Expr)
-                    fd = ffi_s.as_coefficients_dict()
-                    if t in fd:
-                        mat[j][i] = fd[t]
+        coefficients = []
+        for f in self.get_basis_functions():
+            components = f.as_sympy()
+            if f.is_scalar:
+                components = [components]
+            coefficients.append(
+                {
+                    (fi, term): c
+                    for fi, fpart in enumerate(components)
+                    for term, c in sympy.expand(fpart).as_coefficients_dict(*x).items()
+                }
+            )
+        all_terms = set(term for fd in coefficients for term in fd)
+        mat = [[fd.get(t, 0) for t in all_terms] for fd in coefficients]
         mat = sympy.Matrix(mat)
 
         assert mat.rank() == mat.rows
-- 
2.43.0


From 580e6353a9a0fa5f4e4b2670b017aada0deccab1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:39 +0000
Subject: [PATCH 60/62] fix: the self-test accepted negative entity numbers

---
 symfem/finite_element.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/symfem/finite_element.py b/symfem/finite_element.py
index 6ab3ef3..d87cd52 100644
--- a/symfem/finite_element.py
+++ b/symfem/finite_element.py
@@ -847,7 +847,7 @@ class CiarletElement(FiniteElement):
         """Test that the dof entities are valid and match the references of integrals."""
         for dof in self.dofs:
             dim, entity = dof.entity
-            assert entity < self.reference.sub_entity_count(dim)
+            assert 0 <= entity < self.reference.sub_entity_count(dim)
             if hasattr(dof, "integral_domain"):
                 assert dim == dof.integral_domain.tdim
 
-- 
2.43.0


From dd117b0f38cbf82cafac1bdab9c922de4d473c2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:54 +0000
Subject: [PATCH 61/62] fix: the interior functions of the BDDF element are
 mapped by the contravariant Piola map

---
 symfem/elements/bddf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/symfem/elements/bddf.py b/symfem/elements/bddf.py
index 7d0cdd5..1421bdf 100644
--- a/symfem/elements/bddf.py
+++ b/symfem/elements/bddf.py
@@ -63,7 +63,7 @@ class BDDF(CiarletElement):
         dofs: ListOfFunctionals = make_integral_moment_dofs(
             reference,
             facets=(NormalIntegralMoment, DPC, order, {"variant": variant}),
-            cells=(IntegralMoment, VectorDPC, order - 2, {"variant": variant}),
+            cells=(IntegralMoment, VectorDPC, order - 2, "contravariant", {"variant": variant}),
         )
 
         self.variant = variant
-- 
2.43.0


From b871e4c8a21cf8697c0d2d2df5e11eb6ec8de958 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:32:04 +0000
Subject: [PATCH 62/62] fix: the maximum degree of a function is that of the
 smallest Lagrange space containing it

---
 symfem/functions.py | 15 ++++-----------
 1 file changed, 4 insertions(+), 11 deletions(-)

diff --git a/symfem/functions.py b/symfem/functions.py
index b887603..7f26200 100644
--- a/symfem/functions.py
+++ b/symfem/functions.py
@@ -918,20 +918,13 @@ class ScalarFunction(AnyFunction):
         """
         if cell.name == "pyramid":
             raise NotImplementedError()
-        degrees = []
-        for v in x:
-            f = 1 * self._f
-            d = 0
-            while f != 0:
-                d += 1
-                f = f.diff(v)
-            degrees.append(d - 1)
+        degrees = sympy.Poly(self._f, *x).monoms()
         if cell.name in ["interval", "triangle", "tetrahedron"]:
-            return sum(degrees)
+            return max(sum(d) for d in degrees)
         elif cell.name in ["quadrilateral", "hexahedron"]:
-            return max(degrees)
+            return max(max(d) for d in degrees)
         elif cell.name == "prism":
-            return max(degrees[0] + degrees[1], degrees[2])
+            return max(max(d[0] + d[1], d[2]) for d in degrees)
         else:
             raise ValueError(f"Unrecognised cell: {cell.name}")
 
-- 
2.43.0

