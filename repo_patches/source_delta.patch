From 615d98c617a3b8f4001bec9af0ed9434fedd6db2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:01 +0000
Subject: [PATCH 01/59] fix: Polyline.partition_by_length: use int; np.int is
 gone from numpy

Every subdivision that needed more than one piece raised AttributeError.
---
 blmath/geometry/primitives/polyline.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/blmath/geometry/primitives/polyline.py b/blmath/geometry/primitives/polyline.py
index d5799f2..3cde8fa 100644
--- a/blmath/geometry/primitives/polyline.py
+++ b/blmath/geometry/primitives/polyline.py
@@ -205,7 +205,7 @@ class Polyline(object):
             if num_segments <= 1:
                 new_v = np.vstack((new_v, start_point.reshape(-1, 3)))
             else:
-                new_v = np.vstack((new_v, partition_segment(start_point, end_point, np.int(num_segments), endpoint=False)))
+                new_v = np.vstack((new_v, partition_segment(start_point, end_point, int(num_segments), endpoint=False)))
 
         if not self.closed:
             indices_of_orig_vertices.append(len(new_v))
-- 
2.43.0


From 6044b7b7f2646aa340d55159f1f1c07b2443975a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:01 +0000
Subject: [PATCH 02/59] fix: find_rigid_transform: coplanar points are not an
 unrecoverable reflection

The smallest singular value of a coplanar set (any three points) is zero
only up to rounding, so about half of such inputs raised ValueError.
---
 blmath/geometry/transform/rigid_transform.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/blmath/geometry/transform/rigid_transform.py b/blmath/geometry/transform/rigid_transform.py
index 0335b4d..8190e74 100644
--- a/blmath/geometry/transform/rigid_transform.py
+++ b/blmath/geometry/transform/rigid_transform.py
@@ -33,7 +33,9 @@ def find_rigid_transform(a, b, visualize=False):
     R = v.dot(u.T)
 
     if scipy.linalg.det(R) < 0:
-        if np.any(s == 0): # This is only valid in the noiseless case; see the paper
+        # This is only valid in the noiseless case; see the paper. The smallest
+        # singular value of coplanar points is zero only up to rounding.
+        if s[-1] <= np.sqrt(np.finfo(np.float64).eps) * s[0]:
             v[:, 2] = -v[:, 2]
             R = v.dot(u.T)
         else:
-- 
2.43.0


From f3986bb3de8fb759c21a6ce33b675521242a6dca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:01 +0000
Subject: [PATCH 03/59] fix: find_rigid_rotation: scale by the ratio of the
 sizes of the inputs

With a single vector the ratio was taken after the cross product had been
appended to both sets, so R.dot(a) did not have the length of b.
---
 blmath/geometry/transform/rigid_transform.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/blmath/geometry/transform/rigid_transform.py b/blmath/geometry/transform/rigid_transform.py
index 8190e74..cba3ce6 100644
--- a/blmath/geometry/transform/rigid_transform.py
+++ b/blmath/geometry/transform/rigid_transform.py
@@ -73,6 +73,8 @@ def find_rigid_rotation(a, b, allow_scaling=False):
     assert a.shape[0] == 3
     assert b.shape[0] == 3
 
+    scalefactor = scipy.linalg.norm(b) / scipy.linalg.norm(a) if allow_scaling else 1.
+
     if a.size == 3:
         cx = np.cross(a.ravel(), b.ravel())
         a = np.hstack((col(a), col(cx)))
@@ -88,7 +90,6 @@ def find_rigid_rotation(a, b, allow_scaling=False):
         R = v.dot(u.T)
 
     if allow_scaling:
-        scalefactor = scipy.linalg.norm(b) / scipy.linalg.norm(a)
         R = R * scalefactor
 
     return R
-- 
2.43.0


From 6890210a238ad102449fdff60b60f46e7252b5c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:01 +0000
Subject: [PATCH 04/59] fix: line_intersect3: do not compare unit vectors for
 exact equality

h and k are parallel only up to rounding, so most intersections were
reported on the wrong side of p0.
---
 blmath/geometry/segment.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/blmath/geometry/segment.py b/blmath/geometry/segment.py
index de1968e..604b4de 100644
--- a/blmath/geometry/segment.py
+++ b/blmath/geometry/segment.py
@@ -149,5 +149,5 @@ def line_intersect3(p0, q0, p1, q1):
         # there is no intesection; either parallel (k=0) or colinear (both=0) lines
         return None
     l = h_ / k_ * e
-    sign = -1 if np.all(h / h_ == k / k_) else +1
+    sign = -1 if np.dot(h, k) > 0 else +1
     return p0 + sign * l
-- 
2.43.0


From ec0260f39b57b6b7f884d45785a87af586249324 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:01 +0000
Subject: [PATCH 05/59] fix: line_intersect3: find the intersection when it is
 p0

When p0 lies on the other line (h=0) but the lines are not parallel, None
was returned.
---
 blmath/geometry/segment.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/blmath/geometry/segment.py b/blmath/geometry/segment.py
index 604b4de..ee1d3ee 100644
--- a/blmath/geometry/segment.py
+++ b/blmath/geometry/segment.py
@@ -145,9 +145,10 @@ def line_intersect3(p0, q0, p1, q1):
     k = np.cross(f, e)
     h_ = np.linalg.norm(h)
     k_ = np.linalg.norm(k)
-    if h_ == 0 or k_ == 0:
+    if k_ == 0:
         # there is no intesection; either parallel (k=0) or colinear (both=0) lines
         return None
+    # When h=0, p0 lies on line 1, and is the intersection.
     l = h_ / k_ * e
     sign = -1 if np.dot(h, k) > 0 else +1
     return p0 + sign * l
-- 
2.43.0


From 93bdeec4b509d622f1b19526061233b654abf8f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:01 +0000
Subject: [PATCH 06/59] fix: inflection_points: pass coordinates, not spacing,
 to np.gradient

numpy takes an array argument as coordinates; with the (constant) spacing
of a uniformly sampled curve every derivative came out as NaN or inf.
---
 blmath/geometry/apex.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/blmath/geometry/apex.py b/blmath/geometry/apex.py
index 0a90c84..02e14c5 100644
--- a/blmath/geometry/apex.py
+++ b/blmath/geometry/apex.py
@@ -24,12 +24,11 @@ def inflection_points(points, axis, span):
     '''
 
     coords_on_span = points.dot(span)
-    dx = np.gradient(coords_on_span)
     coords_on_axis = points.dot(axis)
 
     # Take the second order finite difference of the curve with respect to the
     # defined coordinate system
-    finite_difference_2 = np.gradient(np.gradient(coords_on_axis, dx), dx)
+    finite_difference_2 = np.gradient(np.gradient(coords_on_axis, coords_on_span), coords_on_span)
 
     # Compare the product of all neighboring pairs of points in the second derivative
     # If a pair of points has a negative product, then the second derivative changes sign
-- 
2.43.0


From ae80411da6ee107016c2546bf2559241f45d5490 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:01 +0000
Subject: [PATCH 07/59] fix: Value.round and Value.prettified work on Python 3

round() of a Value without a number of places raised TypeError there. On
Python 2 prettify saw a float; pass one.
---
 blmath/value.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/blmath/value.py b/blmath/value.py
index 818453b..b46558f 100644
--- a/blmath/value.py
+++ b/blmath/value.py
@@ -54,7 +54,7 @@ class Value(object):
         return self.value
     def __int__(self):
         return int(self.value)
-    def __round__(self, places):
+    def __round__(self, places=0):
         return Value(round(self.value, places), self.units)
 
     def __getattr__(self, name):
@@ -170,7 +170,7 @@ class Value(object):
     @cached_property
     def prettified(self):
         from blmath import units as unit_conversions
-        return unit_conversions.prettify(self, self.units)
+        return unit_conversions.prettify(self.value, self.units)
 
     def for_json(self):
         '''
-- 
2.43.0


From 8d2cd7c1f3a2795cb12b2d25432803710d081af6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:01 +0000
Subject: [PATCH 08/59] fix: the truth of a Value is that of its number on
 Python 3 too

Python 3 looks for __bool__; every Value was true.
---
 blmath/value.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/blmath/value.py b/blmath/value.py
index b46558f..9b8f00e 100644
--- a/blmath/value.py
+++ b/blmath/value.py
@@ -145,6 +145,7 @@ class Value(object):
 
     def __nonzero__(self):
         return bool(self.value)
+    __bool__ = __nonzero__
 
     def _comparable(self, other):
         '''Make other into something that is sensible to compare to self'''
-- 
2.43.0


From 84cdbadef5133d49cfc63c20cd6bb05c285c276b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:01 +0000
Subject: [PATCH 09/59] fix: units.factor: check the units even when they are
 the same

factor("kg", "kg", "length") and factor("foo", "foo") returned 1.
---
 blmath/units.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/blmath/units.py b/blmath/units.py
index 352f7a4..12ba829 100644
--- a/blmath/units.py
+++ b/blmath/units.py
@@ -141,12 +141,12 @@ class Units(object):
         '''
         if (from_units is None or not len(from_units)) and (to_units is None or not len(to_units)): # pylint: disable=len-as-condition
             return 1.0
-        if from_units == to_units:
-            return 1.0
         if self._units[from_units][0] != self._units[to_units][0]:
             raise ValueError("Can't convert between apples and oranges (%s and %s)" % (from_units, to_units))
         if units_class and self._units[from_units][0] != units_class:
             raise ValueError("Units class must be %s, but got %s" % (units_class, self._units[from_units][0]))
+        if from_units == to_units:
+            return 1.0
         return self._units[from_units][1] / self._units[to_units][1]
 
     def convert(self, value, from_units, to_units, units_class=None): # FIXME pylint: disable=redefined-outer-name
-- 
2.43.0


From 7f80759a5f26f15d47a9f04189266c08386a4e96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:01 +0000
Subject: [PATCH 10/59] fix: CoordinateManager: raise the intended KeyError for
 an unknown tag

Exceptions have no .message on Python 3, so AttributeError was raised.
---
 blmath/geometry/transform/coordinate_manager.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/blmath/geometry/transform/coordinate_manager.py b/blmath/geometry/transform/coordinate_manager.py
index f3f1d36..787584e 100644
--- a/blmath/geometry/transform/coordinate_manager.py
+++ b/blmath/geometry/transform/coordinate_manager.py
@@ -75,7 +75,7 @@ class CoordinateManager(object):
             from_index = self.tags_to_indices[from_tag]
             to_index = self.tags_to_indices[to_tag]
         except KeyError as e:
-            raise KeyError("No such tag: %s" % e.message)
+            raise KeyError("No such tag: %s" % e.args[0])
 
         if from_index == to_index:
             result_points = points
-- 
2.43.0


From 20b0fed887949aaf0066506404f4cac432674afc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:01 +0000
Subject: [PATCH 11/59] fix: convexify_and_flatten_planar_curve: np.mat is gone
 from numpy

---
 blmath/geometry/convexify.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/blmath/geometry/convexify.py b/blmath/geometry/convexify.py
index 84518ee..3ce77f5 100644
--- a/blmath/geometry/convexify.py
+++ b/blmath/geometry/convexify.py
@@ -69,7 +69,7 @@ def convexify_and_flatten_planar_curve(polyline, want_vertices=False, normal=Non
     hull_vertices = ConvexHull(projected).vertices
     rotated_hull = rotated[hull_vertices]
 
-    R_inv = np.array(np.mat(R.T).I)
+    R_inv = np.linalg.inv(R.T)
     inv_rotated = np.dot(rotated_hull, R_inv)
 
     if p0 is not None:
-- 
2.43.0


From 43ea0979f76280691b890e46bad09159e033965e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:01 +0000
Subject: [PATCH 12/59] fix: rotate_to_xz_plane: accept a normal

The truth of an array is ambiguous, so every given normal raised ValueError.
---
 blmath/geometry/transform/rotation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/blmath/geometry/transform/rotation.py b/blmath/geometry/transform/rotation.py
index 18b6e07..d785019 100644
--- a/blmath/geometry/transform/rotation.py
+++ b/blmath/geometry/transform/rotation.py
@@ -34,7 +34,7 @@ def rotate_to_xz_plane(points, normal=None):
     else:
         translated, p0 = points, None
 
-    if not normal:
+    if normal is None:
         normal = estimate_normal(points)
 
     e_2 = np.array([0., 1., 0.])
-- 
2.43.0


From cf2263a698db643890b769884a427cf0efe9c2d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:01 +0000
Subject: [PATCH 13/59] fix: bsxfun: misplaced parenthesis made a column with a
 row fail

---
 blmath/numerics/matlab.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/blmath/numerics/matlab.py b/blmath/numerics/matlab.py
index 0c90921..e1b2b3c 100644
--- a/blmath/numerics/matlab.py
+++ b/blmath/numerics/matlab.py
@@ -6,7 +6,7 @@ def bsxfun(oper, a, b):
         if a.shape[0] == 1:
             return oper(np.tile(a, (b.shape[0], 1)), b)
         else:
-            return oper(np.tile(a, (1, b.shape[1], b)))
+            return oper(np.tile(a, (1, b.shape[1])), b)
     else:
         raise Exception('_bsxfun failure')
 
-- 
2.43.0


From 8d911607651ea11e46d4708665e505ecae33ea3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:44 +0000
Subject: [PATCH 14/59] fix: StaticBlockSparseMatrix.matvec: give the dense
 blocks their stated shape

The sparse-row dense-column block kept all rows, and the dense blocks were
matrices, so products with a vector failed to broadcast.
---
 blmath/numerics/linalg/static_block_sparse_matrix.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/blmath/numerics/linalg/static_block_sparse_matrix.py b/blmath/numerics/linalg/static_block_sparse_matrix.py
index 68d5a34..22c7303 100644
--- a/blmath/numerics/linalg/static_block_sparse_matrix.py
+++ b/blmath/numerics/linalg/static_block_sparse_matrix.py
@@ -61,12 +61,12 @@ class StaticBlockSparseMatrix(object):
         self.block_s = mask_sparse_matrix_by_rows(M_coo, self.row_sparsity)
         self.block_ss = mask_sparse_matrix_by_columns(self.block_s, self.column_sparsity).tocsr()
         self.block_ss_csc = self.block_ss.tocsc()
-        self.block_sd = mask_sparse_matrix_by_columns(self.block_s, self.column_density).tocsr()[:, self.dense_column_indices].todense() if self.num_dense_columns else np.zeros((self.num_sparse_rows, self.num_dense_columns))
+        self.block_sd = mask_sparse_matrix_by_columns(self.block_s, self.column_density).tocsr()[self.sparse_row_indices, :][:, self.dense_column_indices].toarray()
         self.block_s = self.block_s.tocsr()
         self.block_s_csc = self.block_s.tocsc()
 
         self.block_d_sparse = mask_sparse_matrix_by_rows(M_coo, self.row_density).tocsr()
-        self.block_d = self.block_d_sparse[self.dense_row_indices, :].todense()
+        self.block_d = self.block_d_sparse[self.dense_row_indices, :].toarray()
         self.block_ds = self.block_d[:, self.sparse_column_indices]
         self.block_dd = self.block_d[:, self.dense_column_indices]
 
-- 
2.43.0


From 831c20ba5faf9478cec7f450428bd820f4c489ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:44 +0000
Subject: [PATCH 15/59] fix: StaticBlockSparseMatrix.linOp: pass the shape once

---
 blmath/numerics/linalg/static_block_sparse_matrix.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/blmath/numerics/linalg/static_block_sparse_matrix.py b/blmath/numerics/linalg/static_block_sparse_matrix.py
index 22c7303..cf747be 100644
--- a/blmath/numerics/linalg/static_block_sparse_matrix.py
+++ b/blmath/numerics/linalg/static_block_sparse_matrix.py
@@ -146,7 +146,7 @@ class StaticBlockSparseMatrix(object):
 
     @property
     def linOp(self):
-        return sp.sparse.linalg.LinearOperator(self, shape=self.shape, matvec=self.matvec, matmat=self.matmat) # FIXME pylint: disable=redundant-keyword-arg
+        return sp.sparse.linalg.LinearOperator(self.shape, matvec=self.matvec, matmat=self.matmat)
 
     def conjGradSolve(self, b, x0=None, tol=1.0e-9, maxiter=None):
         n = len(b)
-- 
2.43.0


From d5ed1240c0149f6a04848e168bed1847ebbcf408 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:44 +0000
Subject: [PATCH 16/59] fix: StaticBlockSparseMatrix.conjGradSolve: initial
 guess

The default guess was made from the values of b instead of its length, an
array guess raised ValueError, and a guess that already solves the system
(b=0, say) gave NaN.
---
 blmath/numerics/linalg/static_block_sparse_matrix.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/blmath/numerics/linalg/static_block_sparse_matrix.py b/blmath/numerics/linalg/static_block_sparse_matrix.py
index cf747be..09cd341 100644
--- a/blmath/numerics/linalg/static_block_sparse_matrix.py
+++ b/blmath/numerics/linalg/static_block_sparse_matrix.py
@@ -150,13 +150,15 @@ class StaticBlockSparseMatrix(object):
 
     def conjGradSolve(self, b, x0=None, tol=1.0e-9, maxiter=None):
         n = len(b)
-        x = x0 if x0 else np.zeros(b)
+        x = np.zeros(n) if x0 is None else x0
 
         r = b - self.matvec(x)
         s = r.copy()
 
         num_iterations = maxiter if maxiter else n
         i = None  # For pylint.
+        if np.sqrt(np.dot(r, r)) < tol:
+            return x, 0
         for i in range(num_iterations):
             u = self.matvec(s)
             alpha = np.dot(s, r)/np.dot(s, u)
-- 
2.43.0


From 83423fe59a20f12e3e9a238dd45082bdaf340c6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:44 +0000
Subject: [PATCH 17/59] fix: block_sparse_cg_solve: scipy calls the relative
 tolerance rtol

---
 blmath/numerics/linalg/sparse_cg.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/blmath/numerics/linalg/sparse_cg.py b/blmath/numerics/linalg/sparse_cg.py
index e228111..c7f2e4d 100644
--- a/blmath/numerics/linalg/sparse_cg.py
+++ b/blmath/numerics/linalg/sparse_cg.py
@@ -29,4 +29,4 @@ def block_sparse_cg_solve(A, x):
         return ans
 
     precon = scipy.sparse.linalg.LinearOperator(A.shape, matvec=A_inv_mult)
-    return scipy.sparse.linalg.cg(A, x, M=precon, tol=1e-5)[0]
+    return scipy.sparse.linalg.cg(A, x, M=precon, rtol=1e-5)[0]
-- 
2.43.0


From f7e75eb1e22ba84381536aed3ea6e2a2688de519 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:36 +0000
Subject: [PATCH 18/59] fix: lchol: report matrices that are not positive
 definite

cholmod_l_factor_to_sparse resets L->minor, so failure was reported as
success. With a positive step, L has fewer columns than A.
---
 blmath/numerics/linalg/cholmod.c | 3 ++-
 blmath/numerics/linalg/lchol.py  | 2 +-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/blmath/numerics/linalg/cholmod.c b/blmath/numerics/linalg/cholmod.c
index 747c5bd..96d35fa 100644
--- a/blmath/numerics/linalg/cholmod.c
+++ b/blmath/numerics/linalg/cholmod.c
@@ -213,9 +213,10 @@ cholmod_lchol_c(PyObject *self, PyObject *args)
 
     L = cholmod_l_analyze(&A, &Common);
     cholmod_l_factorize(&A, L, &Common);
+    /* cholmod_l_factor_to_sparse resets L->minor */
+    minor = L->minor;
     Lsparse = cholmod_l_factor_to_sparse(L, &Common);
 
-    minor = L->minor;
     if (minor < ncol)
     {
         /* remove columns minor to n-1 from Lsparse */
diff --git a/blmath/numerics/linalg/lchol.py b/blmath/numerics/linalg/lchol.py
index d4d83e8..613a471 100644
--- a/blmath/numerics/linalg/lchol.py
+++ b/blmath/numerics/linalg/lchol.py
@@ -11,7 +11,7 @@ def lchol(A):
 
     [L_ind, L_iptr, L_data, L_nonpsd, q] = cholmod.lchol_c(A64)
 
-    L = sp.csc_matrix((L_data, L_ind, L_iptr), shape=A64.shape)
+    L = sp.csc_matrix((L_data, L_ind, L_iptr), shape=(A64.shape[0], len(L_iptr) - 1))
     S = sp.csc_matrix((np.ones(len(q)), (q, range(len(q)))), shape=(max(q)+1, len(q)))
 
     return L, L_nonpsd, S
-- 
2.43.0


From 34d883a3842e881bb0a668f7a9595c4168469e17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:36 +0000
Subject: [PATCH 19/59] fix: lchol: convert the data to contiguous doubles

The C code reads the buffer of A.data as doubles, whatever its type: other
types gave garbage and reads past the end of the buffer.
---
 blmath/numerics/linalg/lchol.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/blmath/numerics/linalg/lchol.py b/blmath/numerics/linalg/lchol.py
index 613a471..2698699 100644
--- a/blmath/numerics/linalg/lchol.py
+++ b/blmath/numerics/linalg/lchol.py
@@ -8,6 +8,8 @@ def lchol(A):
     A64 = copy.copy(A)
     A64.indices = A.indices.astype(np.int64)
     A64.indptr = A.indptr.astype(np.int64)
+    # and contiguous doubles
+    A64.data = np.ascontiguousarray(A.data, dtype=np.float64)
 
     [L_ind, L_iptr, L_data, L_nonpsd, q] = cholmod.lchol_c(A64)
 
-- 
2.43.0


From 08a76c5d61bd93f445b1233a939c9f1aeed76ced Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:03 +0000
Subject: [PATCH 20/59] fix: lchol: sum duplicate entries

A matrix holding several entries for one position, which scipy sums,
corrupted the heap in the native code and crashed the interpreter.
---
 blmath/numerics/linalg/lchol.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/blmath/numerics/linalg/lchol.py b/blmath/numerics/linalg/lchol.py
index 2698699..2b66362 100644
--- a/blmath/numerics/linalg/lchol.py
+++ b/blmath/numerics/linalg/lchol.py
@@ -4,6 +4,11 @@ def lchol(A):
     import scipy.sparse as sp
     from blmath.numerics.linalg import cholmod # pylint: disable=no-name-in-module
 
+    # cholmod overruns its buffers when entries are duplicated
+    if not A.has_canonical_format:
+        A = A.copy()
+        A.sum_duplicates()
+
     # the cholmod port needs 64b data, while scipy sparse is 32b
     A64 = copy.copy(A)
     A64.indices = A.indices.astype(np.int64)
-- 
2.43.0


From 0629a42d4d2e56b617ad3b716fbfa7b5eaf61768 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:27 +0000
Subject: [PATCH 21/59] fix: lchol: raise ValueError when CHOLMOD refuses the
 matrix

The factor is NULL when, say, the matrix is not square; using it crashed
the interpreter.
---
 blmath/numerics/linalg/cholmod.c | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/blmath/numerics/linalg/cholmod.c b/blmath/numerics/linalg/cholmod.c
index 96d35fa..a14ed1a 100644
--- a/blmath/numerics/linalg/cholmod.c
+++ b/blmath/numerics/linalg/cholmod.c
@@ -212,6 +212,17 @@ cholmod_lchol_c(PyObject *self, PyObject *args)
     A.xtype = CHOLMOD_REAL;
 
     L = cholmod_l_analyze(&A, &Common);
+    if (L == NULL)
+    {
+        /* A is not square, say */
+        Py_DECREF(Jc);
+        Py_DECREF(Ir);
+        Py_DECREF(Adata);
+        Py_DECREF(nnz);
+        cholmod_l_finish(&Common);
+        PyErr_SetString(PyExc_ValueError, "CHOLMOD could not analyze the matrix");
+        return NULL;
+    }
     cholmod_l_factorize(&A, L, &Common);
     /* cholmod_l_factor_to_sparse resets L->minor */
     minor = L->minor;
-- 
2.43.0


From cc6f257b73a06b69f79fec9fedc8f690aae15c80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:27 +0000
Subject: [PATCH 22/59] fix: Plane.mesh_xsections: an open component stays open
 with a neighborhood

---
 blmath/geometry/primitives/plane.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/blmath/geometry/primitives/plane.py b/blmath/geometry/primitives/plane.py
index 1d4339c..0cf16c0 100644
--- a/blmath/geometry/primitives/plane.py
+++ b/blmath/geometry/primitives/plane.py
@@ -419,7 +419,8 @@ class Plane(object):
 
         # number of components will not be large in practice, so this loop won't hurt
         means = [np.mean(kdtree.query(component)[0]) for component in components]
-        return [Polyline(components[np.argmin(means)], closed=True)]
+        nearest = np.argmin(means)
+        return [Polyline(components[nearest], closed=components_closed[nearest])]
 
 
 def main():
-- 
2.43.0


From 842764eb2eee6610fde071ea5d99e20422428e00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:39 +0000
Subject: [PATCH 23/59] fix: CompositeTransform.convert_units: return the
 index, as scale does

It is documented as equivalent to a call of scale.
---
 blmath/geometry/transform/composite.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/blmath/geometry/transform/composite.py b/blmath/geometry/transform/composite.py
index 5e280d2..7e99fd4 100644
--- a/blmath/geometry/transform/composite.py
+++ b/blmath/geometry/transform/composite.py
@@ -191,7 +191,7 @@ class CompositeTransform(object):
             to_units=to_units,
             units_class='length'
         )
-        self.scale(factor)
+        return self.scale(factor)
 
     def translate(self, vector):
         '''
-- 
2.43.0


From 09d60573b0f589b9ec3a7e8495af231b045bf900 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:06 +0000
Subject: [PATCH 24/59] fix: CompositeTransform.matrix_for: do not hand out the
 stored matrix

With a single transform, changing the returned matrix changed the stack.
---
 blmath/geometry/transform/composite.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/blmath/geometry/transform/composite.py b/blmath/geometry/transform/composite.py
index 7e99fd4..47817ae 100644
--- a/blmath/geometry/transform/composite.py
+++ b/blmath/geometry/transform/composite.py
@@ -117,7 +117,8 @@ class CompositeTransform(object):
         if not len(matrices): # pylint: disable=len-as-condition
             return np.eye(4)
 
-        matrix = six.moves.reduce(np.dot, matrices)
+        # Copy, since the product of a single matrix is the stored matrix itself.
+        matrix = np.array(six.moves.reduce(np.dot, matrices))
         return matrix if reverse else matrix.T
 
     def append_transform4(self, forward, reverse=None):
-- 
2.43.0


From fc1e56a5b6ea64dec61d12bf57dd2927c9971e12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:06 +0000
Subject: [PATCH 25/59] fix: rotation_from_up_and_look: refuse colinear vectors
 in any direction

Unless up was along a coordinate axis, rounding kept z from being exactly
zero, and its normalized rounding error became the look direction.
---
 blmath/geometry/transform/rotation.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/blmath/geometry/transform/rotation.py b/blmath/geometry/transform/rotation.py
index d785019..db02c57 100644
--- a/blmath/geometry/transform/rotation.py
+++ b/blmath/geometry/transform/rotation.py
@@ -74,7 +74,8 @@ def rotation_from_up_and_look(up, look):
         raise ValueError("Singular look")
     y = up / np.linalg.norm(up)
     z = look - np.dot(look, y)*y
-    if np.linalg.norm(z) == 0:
+    # For colinear vectors, z is zero only up to rounding.
+    if np.linalg.norm(z) <= 1e-14 * np.linalg.norm(look):
         raise ValueError("up and look are colinear")
     z = z / np.linalg.norm(z)
     x = np.cross(y, z)
-- 
2.43.0


From 9d8c649e199d73518ef4895ba51b13850ff1fa2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:28 +0000
Subject: [PATCH 26/59] fix: rodrigues: near 180 degrees, take the signs of the
 axis from the symmetric part

Off the diagonal the matrix also holds the small antisymmetric part, which
gave small components of the axis the wrong sign for angles within 1e-5 of pi.
---
 blmath/geometry/transform/rodrigues.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/blmath/geometry/transform/rodrigues.py b/blmath/geometry/transform/rodrigues.py
index d7850fb..c14e84e 100644
--- a/blmath/geometry/transform/rodrigues.py
+++ b/blmath/geometry/transform/rodrigues.py
@@ -76,11 +76,11 @@ def rodrigues(r, calculate_jacobian=False):
                 r_out = np.zeros((3, 1))
             else:
                 rx, ry, rz = np.clip(np.sqrt((np.diag(r) + 1) * 0.5), 0, np.inf)
-                if r[0, 1] < 0:
+                if r[0, 1] + r[1, 0] < 0:
                     ry = -ry
-                if r[0, 2] < 0:
+                if r[0, 2] + r[2, 0] < 0:
                     rz = -rz
-                if np.abs(rx) < np.abs(ry) and np.abs(rx) < np.abs(rz) and ((r[1, 2] > 0) != (ry*rz > 0)):
+                if np.abs(rx) < np.abs(ry) and np.abs(rx) < np.abs(rz) and ((r[1, 2] + r[2, 1] > 0) != (ry*rz > 0)):
                     rz = -rz
 
                 r_out = np.array([[rx, ry, rz]]).T
-- 
2.43.0


From 739031805dd52343e046e6a9ea29505d2c515d01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:30 +0000
Subject: [PATCH 27/59] fix: rodrigues: clip before taking the square root

At 180 degrees a diagonal entry may round to just below -1; the square root
was NaN, which the clip after it left alone.
---
 blmath/geometry/transform/rodrigues.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/blmath/geometry/transform/rodrigues.py b/blmath/geometry/transform/rodrigues.py
index c14e84e..f19cc26 100644
--- a/blmath/geometry/transform/rodrigues.py
+++ b/blmath/geometry/transform/rodrigues.py
@@ -75,7 +75,7 @@ def rodrigues(r, calculate_jacobian=False):
             if c > 0:
                 r_out = np.zeros((3, 1))
             else:
-                rx, ry, rz = np.clip(np.sqrt((np.diag(r) + 1) * 0.5), 0, np.inf)
+                rx, ry, rz = np.sqrt(np.clip((np.diag(r) + 1) * 0.5, 0, np.inf))
                 if r[0, 1] + r[1, 0] < 0:
                     ry = -ry
                 if r[0, 2] + r[2, 0] < 0:
-- 
2.43.0


From ec73b22a4eac39a00ba91c2ee94638098ca5fb70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:53 +0000
Subject: [PATCH 28/59] fix: line_intersect: recognize parallel lines before
 solving

solve() only raises when a pivot is exactly zero. For many parallel lines, such
as (-3, 7), (-21, -35) and (-2, 6), (-35, -71), it was off by a rounding error
and the result was a point around 1e16.
---
 blmath/geometry/segment.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/blmath/geometry/segment.py b/blmath/geometry/segment.py
index ee1d3ee..0179fdf 100644
--- a/blmath/geometry/segment.py
+++ b/blmath/geometry/segment.py
@@ -120,6 +120,11 @@ def line_intersect(p0, q0, p1, q1):
     b = np.array([rhs0,
                   rhs1])
 
+    # The pivot of a singular matrix may be rounded to a nonzero number, so
+    # recognize parallel lines here.
+    if lhs0[0] * lhs1[1] == lhs0[1] * lhs1[0]:
+        return np.array([np.nan, np.nan])
+
     try:
         return np.linalg.solve(a, b)
     except np.linalg.LinAlgError:
-- 
2.43.0


From 4a9cb43b2911242374194bd30638f14e43da3203 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:08 +0000
Subject: [PATCH 29/59] fix: scale_to_range does not overflow on integer data

---
 blmath/numerics/operations.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/blmath/numerics/operations.py b/blmath/numerics/operations.py
index 4c7b579..5e8c74b 100644
--- a/blmath/numerics/operations.py
+++ b/blmath/numerics/operations.py
@@ -1,5 +1,6 @@
 def scale_to_range(a, r_min, r_max):
     import numpy as np
+    a = np.multiply(a, 1.) # integer types could overflow below
     a = a - np.min(a)
     return (r_max - r_min)*a/np.max(a) + r_min
 
-- 
2.43.0


From b3d2216a3341171865c72de6c536e5e4f254bff1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:30 +0000
Subject: [PATCH 30/59] fix: isnumeric recognizes a decimal zero

---
 blmath/numerics/predicates.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/blmath/numerics/predicates.py b/blmath/numerics/predicates.py
index a76735b..0d16eb9 100644
--- a/blmath/numerics/predicates.py
+++ b/blmath/numerics/predicates.py
@@ -18,9 +18,12 @@ def isnumeric(x):
         import warnings
         with warnings.catch_warnings():
             warnings.simplefilter("ignore")
-            x+x, x-x, x*x, x/x # pylint: disable=pointless-statement
-    except ZeroDivisionError:
-        return True
+            x+x, x-x, x*x # pylint: disable=pointless-statement
+            try:
+                x/x # pylint: disable=pointless-statement
+            except ArithmeticError:
+                # A zero: for Decimal, this is not a ZeroDivisionError
+                pass
     except (TypeError, Exception): # FIXME pylint: disable=broad-except
         return False
     else:
-- 
2.43.0


From 78b1719e6b6fa5ce8fecc2d6c327c0bd5387193e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:42 +0000
Subject: [PATCH 31/59] fix: lchol converts other sparse formats, rather than
 reading blocks out of bounds

---
 blmath/numerics/linalg/lchol.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/blmath/numerics/linalg/lchol.py b/blmath/numerics/linalg/lchol.py
index 2b66362..bc8c204 100644
--- a/blmath/numerics/linalg/lchol.py
+++ b/blmath/numerics/linalg/lchol.py
@@ -4,6 +4,10 @@ def lchol(A):
     import scipy.sparse as sp
     from blmath.numerics.linalg import cholmod # pylint: disable=no-name-in-module
 
+    # cholmod reads compressed columns (or, the matrix being symmetric, rows)
+    if A.format not in ('csc', 'csr'):
+        A = A.tocsc()
+
     # cholmod overruns its buffers when entries are duplicated
     if not A.has_canonical_format:
         A = A.copy()
-- 
2.43.0


From 758c2a0baa9ffa96df8439a362638bd7b25e3b47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:37 +0000
Subject: [PATCH 32/59] fix: lchol_c returns only the entries in use, not
 uninitialized memory

---
 blmath/numerics/linalg/cholmod.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/blmath/numerics/linalg/cholmod.c b/blmath/numerics/linalg/cholmod.c
index a14ed1a..301ec48 100644
--- a/blmath/numerics/linalg/cholmod.c
+++ b/blmath/numerics/linalg/cholmod.c
@@ -239,9 +239,10 @@ cholmod_lchol_c(PyObject *self, PyObject *args)
     cholmod_l_drop(1.0e-6, Lsparse, &Common);
 #endif
 
-    dims_output[0] = Lsparse->nzmax;
+    /* there may be room for more than is in use, which is not initialized */
+    dims_output[0] = cholmod_l_nnz(Lsparse, &Common);
     dims_output[1] = Lsparse->ncol + 1;
-    dims_output[2] = Lsparse->nzmax;
+    dims_output[2] = dims_output[0];
     indices = (PyArrayObject*)PyArray_SimpleNew(1, &(dims_output[0]), NPY_INT64);
     indptr = (PyArrayObject*)PyArray_SimpleNew(1, &(dims_output[1]), NPY_INT64);
     Ldata = (PyArrayObject*)PyArray_SimpleNew(1, &(dims_output[2]), NPY_DOUBLE);
-- 
2.43.0


From d13621c17d38922762b4e86b659fa0dfd7d09c30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:45:13 +0000
Subject: [PATCH 33/59] fix: orthonormalize accepts a single integer row

---
 blmath/numerics/linalg/gram_schmidt.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/blmath/numerics/linalg/gram_schmidt.py b/blmath/numerics/linalg/gram_schmidt.py
index 8fa2fd8..141d26a 100644
--- a/blmath/numerics/linalg/gram_schmidt.py
+++ b/blmath/numerics/linalg/gram_schmidt.py
@@ -28,7 +28,7 @@ def orthogonalize(v):
     o = []
 
     for vec in v:
-        w = vec.copy()
+        w = np.multiply(vec, 1.) # an integer row could not be normalized
 
         proj_cmp = sum(np.array([proj(u, w) for u in o]))
         w = w - proj_cmp
-- 
2.43.0


From 05b7213c03337b01b6831be0ad90802d3a7c311f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:45:45 +0000
Subject: [PATCH 34/59] fix: isomorphism names a dependent basis given as a
 tuple

---
 blmath/numerics/linalg/isomorphism.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/blmath/numerics/linalg/isomorphism.py b/blmath/numerics/linalg/isomorphism.py
index f7bd94f..3a5dfb4 100644
--- a/blmath/numerics/linalg/isomorphism.py
+++ b/blmath/numerics/linalg/isomorphism.py
@@ -39,9 +39,9 @@ def isomorphism(frame1, frame2):
         elif L_frame1_e.shape[1] != L_frame2_e.shape[1]:
             raise DimensionalityError('Basis vectors must all have the same dimension.')
         elif np.linalg.det(L_frame1_e) == 0:
-            raise LinearDependenceError('%s is linearly dependent.' % frame1)
+            raise LinearDependenceError('%s is linearly dependent.' % (frame1,))
         elif np.linalg.det(L_frame2_e) == 0:
-            raise LinearDependenceError('%s is linearly dependent.' % frame2)
+            raise LinearDependenceError('%s is linearly dependent.' % (frame2,))
 
     _validate_frames(frame1, frame2)
 
-- 
2.43.0


From ec78ed334d3c5770c69d41815c13707f608d0959 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:25:26 +0000
Subject: [PATCH 35/59] fix: line_intersect3 overflowed on integer coordinates
 of a few ten thousand

---
 blmath/geometry/segment.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/blmath/geometry/segment.py b/blmath/geometry/segment.py
index 0179fdf..deafde3 100644
--- a/blmath/geometry/segment.py
+++ b/blmath/geometry/segment.py
@@ -136,8 +136,9 @@ def line_intersect3(p0, q0, p1, q1):
     point.
     See this for a diagram: http://math.stackexchange.com/questions/270767/find-intersection-of-two-3d-lines
     '''
-    e = p0 - q0 # direction of line 0
-    f = p1 - q1 # direction of line 1
+    # in floating point: products of integer coordinates would overflow
+    e = np.asarray(p0 - q0, dtype=np.float64) # direction of line 0
+    f = np.asarray(p1 - q1, dtype=np.float64) # direction of line 1
     # Check for special case where we're given the intersection
     # Note that we must check for these, because if p0 == p1 then
     # g would be zero length and we can't continue
-- 
2.43.0


From 636414f4aa27eec15b5af0354bf89e2840d0a426 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:07 +0000
Subject: [PATCH 36/59] fix: matrix conversions report the wrong shape as
 ValueError, not a formatting TypeError

---
 blmath/geometry/transform/composite.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/blmath/geometry/transform/composite.py b/blmath/geometry/transform/composite.py
index 47817ae..4c86efd 100644
--- a/blmath/geometry/transform/composite.py
+++ b/blmath/geometry/transform/composite.py
@@ -15,7 +15,7 @@ def convert_33_to_44(matrix):
 
     '''
     if matrix.shape != (3, 3):
-        raise ValueError("Expected 3x3 matrix, got: %s" % matrix.shape)
+        raise ValueError("Expected 3x3 matrix, got: %s" % (matrix.shape,))
     result = np.pad(matrix, ((0, 1), (0, 1)), mode='constant')
     result[3][3] = 1
     return result
@@ -34,7 +34,7 @@ def convert_44_to_33(matrix):
 
     '''
     if matrix.shape != (4, 4):
-        raise ValueError("Expected 4x4 matrix, got: %s" % matrix.shape)
+        raise ValueError("Expected 4x4 matrix, got: %s" % (matrix.shape,))
     return matrix[:3, :3]
 
 
-- 
2.43.0


From 1a004a0ed7cc80802c4cd7e3cc6475f4c3fc1be8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:57 +0000
Subject: [PATCH 37/59] fix: derivatives and vertex normals of meshes with
 narrow face index types (3*index overflowed)

---
 blmath/optimization/objectives/normals.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/blmath/optimization/objectives/normals.py b/blmath/optimization/objectives/normals.py
index f4bc269..d8763dd 100644
--- a/blmath/optimization/objectives/normals.py
+++ b/blmath/optimization/objectives/normals.py
@@ -63,7 +63,7 @@ class VertNormals(ch.Ch):
             else: # change in f or in size of v. shouldn't happen often.
                 f = self.f
 
-                IS = f.ravel()
+                IS = f.ravel().astype(np.int64)
                 JS = np.array([range(f.shape[0])]*3).T.ravel()
                 data = np.ones(len(JS))
 
@@ -120,8 +120,8 @@ class TriEdges(ch.Ch):
 
         cplus = self.cplus
         cminus = self.cminus
-        vplus = self.f[:, cplus]
-        vminus = self.f[:, cminus]
+        vplus = self.f[:, cplus].astype(np.int64)
+        vminus = self.f[:, cminus].astype(np.int64)
         vplus3 = row(np.hstack([col(vplus*3), col(vplus*3+1), col(vplus*3+2)]))
         vminus3 = row(np.hstack([col(vminus*3), col(vminus*3+1), col(vminus*3+2)]))
 
-- 
2.43.0


From 2e21c3a592e14afa2074461ae6a8af81ab840372 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:00 +0000
Subject: [PATCH 38/59] fix: filling a chain or segment gave NaN points for
 repeated vertices

---
 blmath/geometry/segment.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/blmath/geometry/segment.py b/blmath/geometry/segment.py
index deafde3..dabe679 100644
--- a/blmath/geometry/segment.py
+++ b/blmath/geometry/segment.py
@@ -23,7 +23,8 @@ def partition(v, partition_size=5):
     sqdis = np.square(diffs)
     dists = np.sqrt(np.sum(sqdis, axis=1))
 
-    unitds = diffs / dists[:, np.newaxis]
+    # Repeated points have no direction, and need none.
+    unitds = diffs / np.where(dists == 0, 1., dists)[:, np.newaxis]
     widths = dists / partition_size
 
     domain = widths[:, np.newaxis] * np.arange(0, partition_size)
@@ -89,7 +90,8 @@ def partition_segment_old(p1, p2, partition_size=5):
 
     dist = np.linalg.norm(p1 - p2)
 
-    unit_direction = (p2 - p1) / dist
+    # Repeated points have no direction, and need none.
+    unit_direction = (p2 - p1) / (dist if dist > 0 else 1.)
     partition_width = dist / partition_size
 
     domain = partition_width * np.arange(1, partition_size)
-- 
2.43.0


From 51d035b1e213c2a79fd4c5b1b5b78593e10cd843 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:10 +0000
Subject: [PATCH 39/59] fix: translating by a vector of unsigned integers had a
 wrong inverse (the negative wrapped)

---
 blmath/geometry/transform/composite.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/blmath/geometry/transform/composite.py b/blmath/geometry/transform/composite.py
index 4c86efd..7bedd8b 100644
--- a/blmath/geometry/transform/composite.py
+++ b/blmath/geometry/transform/composite.py
@@ -213,7 +213,7 @@ class CompositeTransform(object):
          [  0,  0,  0,  1    ]]
 
         '''
-        vector = np.asarray(vector)
+        vector = np.asarray(vector, dtype=np.float64) # unsigned integers could not be negated
 
         forward = np.eye(4)
         forward[:, -1][:-1] = vector
-- 
2.43.0


From e98f6ae64b6b84e8415e5dedd7606a7feac73cf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:50 +0000
Subject: [PATCH 40/59] fix: barycentric coordinates in degenerate triangles
 given in integers

---
 blmath/geometry/barycentric.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/blmath/geometry/barycentric.py b/blmath/geometry/barycentric.py
index a840ea6..96d070d 100644
--- a/blmath/geometry/barycentric.py
+++ b/blmath/geometry/barycentric.py
@@ -23,7 +23,7 @@ def barycentric_coordinates_of_projection(p, q, u, v):
     v = v.T
 
     n = np.cross(u, v, axis=0)
-    s = np.sum(n*n, axis=0)
+    s = np.sum(n*n, axis=0, dtype=np.float64) # integers could not hold epsv
 
     # If the triangle edges are collinear, cross-product is zero,
     # which makes "s" 0, which gives us divide by zero. So we
-- 
2.43.0


From ae90b16cb03795b872e38f24b87d9c40c5797489 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:54 +0000
Subject: [PATCH 41/59] fix: numbers in object arrays, and Decimals, were taken
 for finite real ones whatever they were

---
 blmath/numerics/predicates.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/blmath/numerics/predicates.py b/blmath/numerics/predicates.py
index 0d16eb9..341b02e 100644
--- a/blmath/numerics/predicates.py
+++ b/blmath/numerics/predicates.py
@@ -12,13 +12,17 @@ def isnumeric(x):
         if np.any(np.isnan(x)) or np.any(np.isinf(x)):
             return False
     except TypeError: # isnan is not supported on some builtin numeric types like Decimal
-        pass
+        if isinstance(x, np.ndarray) and x.dtype == object:
+            return all(isnumericscalar(item) for item in x.ravel())
     try:
         # See if it supports mathiness
         import warnings
         with warnings.catch_warnings():
             warnings.simplefilter("ignore")
             x+x, x-x, x*x # pylint: disable=pointless-statement
+            if not hasattr(x, '__iter__') and x != x:
+                # Decimal has a NaN too, which isnan does not support
+                return False
             try:
                 x/x # pylint: disable=pointless-statement
             except ArithmeticError:
-- 
2.43.0


From fe38e63950c27302df4b0e10cc754f0f1b54e9bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:05 +0000
Subject: [PATCH 42/59] fix: Plane.fit_from_points gave some symmetric clouds,
 like regular polygons, an imaginary normal

---
 blmath/geometry/primitives/plane.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/blmath/geometry/primitives/plane.py b/blmath/geometry/primitives/plane.py
index 0cf16c0..c1b4d27 100644
--- a/blmath/geometry/primitives/plane.py
+++ b/blmath/geometry/primitives/plane.py
@@ -76,7 +76,8 @@ class Plane(object):
         Fits a plane whose normal is orthgonal to the first two principal axes
         of variation in the data and centered on the points' centroid.
         '''
-        eigval, eigvec = np.linalg.eig(np.cov(points.T))
+        # eigh, since a covariance is symmetric: eig can give complex eigenvectors
+        eigval, eigvec = np.linalg.eigh(np.cov(points.T))
         ordering = np.argsort(eigval)[::-1]
         normal = np.cross(eigvec[:, ordering[0]], eigvec[:, ordering[1]])
         return cls(points.mean(axis=0), normal)
-- 
2.43.0


From 7ddba2024d8e41acbf24e5908881773b628816c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:44 +0000
Subject: [PATCH 43/59] fix: composing transforms given in integers overflowed

---
 blmath/geometry/transform/composite.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/blmath/geometry/transform/composite.py b/blmath/geometry/transform/composite.py
index 7bedd8b..b98c0cd 100644
--- a/blmath/geometry/transform/composite.py
+++ b/blmath/geometry/transform/composite.py
@@ -117,8 +117,9 @@ class CompositeTransform(object):
         if not len(matrices): # pylint: disable=len-as-condition
             return np.eye(4)
 
-        # Copy, since the product of a single matrix is the stored matrix itself.
-        matrix = np.array(six.moves.reduce(np.dot, matrices))
+        # Start from the identity, so the product of a single matrix is not the
+        # stored matrix itself, and a product of integer matrices does not overflow.
+        matrix = six.moves.reduce(np.dot, matrices, np.eye(4))
         return matrix if reverse else matrix.T
 
     def append_transform4(self, forward, reverse=None):
-- 
2.43.0


From 64303013d0b9d0c5b58089d96f77039bb9d7e807 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:57 +0000
Subject: [PATCH 44/59] fix: mesh cross sections failed, or fell apart, when a
 vertex was within rounding of the plane

---
 blmath/geometry/primitives/plane.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/blmath/geometry/primitives/plane.py b/blmath/geometry/primitives/plane.py
index c1b4d27..0577e1e 100644
--- a/blmath/geometry/primitives/plane.py
+++ b/blmath/geometry/primitives/plane.py
@@ -317,9 +317,14 @@ class Plane(object):
 
         intersection_map = EdgeMap()
 
-        pts, pt_is_valid = self.line_segment_xsections(m.v[es[:, 0]], m.v[es[:, 1]])
-        valid_pts = pts[pt_is_valid]
-        valid_es = es[pt_is_valid]
+        # Those are the edges whose ends are on different sides, by the same distances which
+        # selected the faces. Interpolate these: the crossing of a vertex almost on the
+        # plane might otherwise be rounded to beyond the end of its edge, and be lost.
+        sgn_dists = self.signed_distance(m.v)
+        valid_es = es[np.not_equal(*np.sign(sgn_dists[es]).T)]
+        start, end = m.v[valid_es[:, 0]], m.v[valid_es[:, 1]]
+        start_dist, end_dist = sgn_dists[valid_es].T
+        valid_pts = start + (start_dist / (start_dist - end_dist))[:, np.newaxis] * (end - start)
         for val, e in zip(valid_pts, valid_es):
             if not intersection_map.contains(e[0], e[1]):
                 intersection_map.add(e[0], e[1], val)
-- 
2.43.0


From 15310bc8d98bcc162f5d2bfba2fa2050eb4f3d62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:09 +0000
Subject: [PATCH 45/59] fix: cutting a closed polyline lost an edge when its
 back vertex was within rounding of the plane

---
 blmath/geometry/primitives/polyline.py | 25 ++++++++++++++-----------
 1 file changed, 14 insertions(+), 11 deletions(-)

diff --git a/blmath/geometry/primitives/polyline.py b/blmath/geometry/primitives/polyline.py
index 3cde8fa..61723cb 100644
--- a/blmath/geometry/primitives/polyline.py
+++ b/blmath/geometry/primitives/polyline.py
@@ -266,10 +266,14 @@ class Polyline(object):
             )
         return Polyline(v=new_v, closed=False)
 
-    def _cut_by_plane_closed(self, plane):
+    def _cut_by_plane_closed(self, plane, intersection_points, intersecting_edge_indices):
         '''
         Precondition: there are exactly two points of intersection.
         '''
+        # Rely on these rather than intersecting the edges again: for a vertex
+        # almost on the plane, rounding might give another result.
+        point_on_edge = dict(zip(intersecting_edge_indices, intersection_points))
+
         # Reindex the polyline so it starts with a contiguous subchain that
         # lies in front of or on the plane.
         v_sign = plane.sign(self.v)
@@ -277,11 +281,12 @@ class Polyline(object):
         if first_point_is_in_back:
             # e.g. v_sign = np.array([-1, 1, 1, 1, -1, -1, -1])
             points_on_or_in_front, = np.where(v_sign >= 0)
-            working = self.reindexed(index=points_on_or_in_front[0])
+            start_index = points_on_or_in_front[0]
         else:
             # e.g. v_sign = np.array([1, -1, -1, -1, 1, 1, 1])
             points_in_back, = np.where(v_sign < 0)
-            working = self.reindexed(index=points_in_back[-1] + 1)
+            start_index = points_in_back[-1] + 1
+        working = self.reindexed(index=start_index)
 
         # The part of the polyline we want to keep starts somewhere between
         # the first vertex, which lies on the front, and the previous vertex,
@@ -289,13 +294,11 @@ class Polyline(object):
         # point of intersection. The exception is if `working.v[0]` happens to
         # lie on the plane, in which case we don't need to synthesize a
         # starting point.
-        v_sign = plane.sign(working.v)
+        v_sign = np.roll(v_sign, -start_index)
         if v_sign[0] == 0:
             synthesized_start_point = None
         else:
-            synthesized_start_point = plane.line_segment_xsection(
-                *working.segments[-1]
-            )
+            synthesized_start_point = point_on_edge[start_index - 1]
 
         # Repeat for the endpoint of the part we want to keep.
         points_on_or_in_front, = np.where(v_sign >= 0)
@@ -303,9 +306,9 @@ class Polyline(object):
         if v_sign[end_index] == 0:
             synthesized_end_point = None
         else:
-            synthesized_end_point = plane.line_segment_xsection(
-                *working.segments[end_index]
-            )
+            synthesized_end_point = point_on_edge[
+                (start_index + end_index) % len(self.v)
+            ]
 
         points_to_keep = working.v[0:end_index + 1]
 
@@ -347,7 +350,7 @@ class Polyline(object):
                         num_edge_indices
                     )
                 )
-            return self._cut_by_plane_closed(plane)
+            return self._cut_by_plane_closed(plane, intersection_points, edge_indices)
         else:
             if num_edge_indices > 1:
                 raise ValueError(
-- 
2.43.0


From ddc06784812cb1f7371eb15ba15bb2cc923b5443 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:01 +0000
Subject: [PATCH 46/59] fix: block_sparse_cg_solve failed when an all-zero
 column had stored zeros

---
 blmath/numerics/linalg/sparse_cg.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/blmath/numerics/linalg/sparse_cg.py b/blmath/numerics/linalg/sparse_cg.py
index c7f2e4d..79524f8 100644
--- a/blmath/numerics/linalg/sparse_cg.py
+++ b/blmath/numerics/linalg/sparse_cg.py
@@ -14,7 +14,7 @@ def block_sparse_cg_solve(A, x):
     from blmath.numerics.linalg.static_block_sparse_matrix import StaticBlockSparseMatrix
 
     B = A.copy()
-    B.data = (0.*B.data + 1.0)
+    B.data = 1.0*(B.data != 0) # a column of stored zeros is all zero too
     A_sparsity = np.array(np.bitwise_and((B.sum(axis=0) < 1000), (B.sum(axis=0) > 0))).flatten()
     A_block_sparse = StaticBlockSparseMatrix(A, A_sparsity, A_sparsity)
     non_zero_columns = np.array(((A_block_sparse.block_dd != 0).sum(axis=0) > 0)).flatten()
-- 
2.43.0


From 519ba80cfda7a3dd0877f71f26014aea97d9d1b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:01 +0000
Subject: [PATCH 47/59] fix: sparse refused data given as a row or a column

---
 blmath/numerics/matlab.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/blmath/numerics/matlab.py b/blmath/numerics/matlab.py
index e1b2b3c..7ff29f5 100644
--- a/blmath/numerics/matlab.py
+++ b/blmath/numerics/matlab.py
@@ -20,6 +20,7 @@ def sparse(i, j, data, m=None, n=None):
     import numpy as np
     from scipy.sparse import csc_matrix
     ij = np.vstack((i.flatten().reshape(1, -1), j.flatten().reshape(1, -1)))
+    data = np.ravel(data)
 
     if m is None:
         return csc_matrix((data, ij))
-- 
2.43.0


From 383c5da1222333a9ecf38732c5dfde559ab8ef48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:21 +0000
Subject: [PATCH 48/59] fix: flattening a curve perpendicular to y gave NaNs
 for a normal longer than 1 by rounding, and tilted it for one within 1e-5 of
 y

---
 blmath/geometry/transform/rotation.py | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/blmath/geometry/transform/rotation.py b/blmath/geometry/transform/rotation.py
index db02c57..e36db1d 100644
--- a/blmath/geometry/transform/rotation.py
+++ b/blmath/geometry/transform/rotation.py
@@ -38,14 +38,15 @@ def rotate_to_xz_plane(points, normal=None):
         normal = estimate_normal(points)
 
     e_2 = np.array([0., 1., 0.])
-    theta = np.arccos(np.dot(e_2, normal))
-
-    if min(abs(theta - np.pi), abs(theta)) < 1e-5:
-        # cross product will degenerate
-        # to zero vector in this case
+    r_axis = np.cross(normal, e_2)
+    # unlike arccos, accurate for small angles, and defined when the normal is
+    # longer than 1 by rounding
+    theta = np.arctan2(np.linalg.norm(r_axis), np.dot(e_2, normal))
+
+    if np.linalg.norm(r_axis) < np.finfo(np.float64).eps:
+        # cross product degenerates to
+        # zero vector in this case
         r_axis = np.array([1., 0., 0.])
-    else:
-        r_axis = np.cross(normal, e_2)
 
     r_axis /= np.linalg.norm(r_axis)
 
-- 
2.43.0


From 3e077849944ee495f17ab24a7fc270c6f28f4ee4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:56 +0000
Subject: [PATCH 49/59] fix: rodrigues took rotations by less than 1e-5 radians
 for none

---
 blmath/geometry/transform/rodrigues.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/blmath/geometry/transform/rodrigues.py b/blmath/geometry/transform/rodrigues.py
index f19cc26..6b812a5 100644
--- a/blmath/geometry/transform/rodrigues.py
+++ b/blmath/geometry/transform/rodrigues.py
@@ -70,10 +70,11 @@ def rodrigues(r, calculate_jacobian=False):
         rz = r[1, 0] - r[0, 1]
         s = np.linalg.norm(np.array([rx, ry, rz])) * np.sqrt(0.25)
         c = np.clip((np.sum(np.diag(r)) - 1) * 0.5, -1, 1)
-        theta = np.arccos(c)
+        theta = np.arctan2(s, c) # unlike arccos, accurate near 0 and pi
         if s < 1e-5:
             if c > 0:
-                r_out = np.zeros((3, 1))
+                # theta and sin(theta) are the same here
+                r_out = 0.5 * np.array([[rx, ry, rz]]).T
             else:
                 rx, ry, rz = np.sqrt(np.clip((np.diag(r) + 1) * 0.5, 0, np.inf))
                 if r[0, 1] + r[1, 0] < 0:
-- 
2.43.0


From 373ec2021ed8b95cc0801db2360ef41d5be9f91f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:58 +0000
Subject: [PATCH 50/59] fix: rodrigues was off by up to 1e-5 radians close to
 180 degrees

---
 blmath/geometry/transform/rodrigues.py | 19 ++++++++-----------
 1 file changed, 8 insertions(+), 11 deletions(-)

diff --git a/blmath/geometry/transform/rodrigues.py b/blmath/geometry/transform/rodrigues.py
index 6b812a5..84bb5f5 100644
--- a/blmath/geometry/transform/rodrigues.py
+++ b/blmath/geometry/transform/rodrigues.py
@@ -76,17 +76,14 @@ def rodrigues(r, calculate_jacobian=False):
                 # theta and sin(theta) are the same here
                 r_out = 0.5 * np.array([[rx, ry, rz]]).T
             else:
-                rx, ry, rz = np.sqrt(np.clip((np.diag(r) + 1) * 0.5, 0, np.inf))
-                if r[0, 1] + r[1, 0] < 0:
-                    ry = -ry
-                if r[0, 2] + r[2, 0] < 0:
-                    rz = -rz
-                if np.abs(rx) < np.abs(ry) and np.abs(rx) < np.abs(rz) and ((r[1, 2] + r[2, 1] > 0) != (ry*rz > 0)):
-                    rz = -rz
-
-                r_out = np.array([[rx, ry, rz]]).T
-                theta /= np.linalg.norm(r_out)
-                r_out *= theta
+                # The symmetric part is c*I + (1 - c)*axis*axis.T. Every column of
+                # the second term is along the axis; use the longest.
+                outer = 0.5 * (r + r.T) - c * np.eye(3)
+                axis = outer[np.argmax(np.diag(outer))]
+                axis /= np.linalg.norm(axis)
+                # For half a turn, both directions are right.
+                direction = np.dot(axis, [rx, ry, rz]) if s > 1e-14 else axis[np.abs(axis) > 1e-7][0]
+                r_out = np.sign(direction) * theta * axis[:, np.newaxis]
             if calculate_jacobian:
                 jac = np.zeros((9, 3))
                 if c > 0:
-- 
2.43.0


From 5ae32aaf339c1029e1665b31b07b4e8e1d5bbf47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:06 +0000
Subject: [PATCH 51/59] fix: a closed polyline could not have zero vertices

---
 blmath/geometry/primitives/polyline.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/blmath/geometry/primitives/polyline.py b/blmath/geometry/primitives/polyline.py
index 61723cb..083a498 100644
--- a/blmath/geometry/primitives/polyline.py
+++ b/blmath/geometry/primitives/polyline.py
@@ -75,7 +75,7 @@ class Polyline(object):
 
         edges = np.vstack([np.arange(num_edges), np.arange(num_edges) + 1]).T
 
-        if self.closed:
+        if self.closed and num_vertices > 0:
             edges[-1][1] = 0
 
         edges.flags.writeable = False
-- 
2.43.0


From 064b2a57db9b618b2d7df5a3de23b0591240a5c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:20 +0000
Subject: [PATCH 52/59] fix: polylines without vertices raised from len,
 segments, flip, to_dict, partition_by_length and intersect_plane

---
 blmath/geometry/primitives/polyline.py | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/blmath/geometry/primitives/polyline.py b/blmath/geometry/primitives/polyline.py
index 083a498..9f4101d 100644
--- a/blmath/geometry/primitives/polyline.py
+++ b/blmath/geometry/primitives/polyline.py
@@ -41,7 +41,7 @@ class Polyline(object):
             return "<Polyline with no verts>"
 
     def __len__(self):
-        return len(self.v)
+        return 0 if self.v is None else len(self.v)
 
     def copy(self):
         '''
@@ -61,8 +61,8 @@ class Polyline(object):
 
     def to_dict(self, decimals=3):
         return {
-            'vertices': [np.around(v, decimals=decimals).tolist() for v in self.v],
-            'edges': self.e,
+            'vertices': [np.around(v, decimals=decimals).tolist() for v in self.v] if self.v is not None else [],
+            'edges': self.e if self.e is not None else [],
         }
 
     def _update_edges(self):
@@ -116,6 +116,9 @@ class Polyline(object):
         '''
         Coordinate pairs for each segment.
         '''
+        if self.e is None:
+            return np.empty((0, 2, 3))
+
         return self.v[self.e]
 
     @property
@@ -149,7 +152,8 @@ class Polyline(object):
         '''
         Flip the polyline from end to end.
         '''
-        self.v = np.flipud(self.v)
+        if self.v is not None:
+            self.v = np.flipud(self.v)
 
     def reindexed(self, index, ret_edge_mapping=False):
         '''
@@ -207,13 +211,13 @@ class Polyline(object):
             else:
                 new_v = np.vstack((new_v, partition_segment(start_point, end_point, int(num_segments), endpoint=False)))
 
-        if not self.closed:
+        if not self.closed and len(self) > 0:
             indices_of_orig_vertices.append(len(new_v))
             new_v = np.vstack((new_v, self.v[-1].reshape(-1, 3)))
 
         self.v = new_v
 
-        return np.array(indices_of_orig_vertices) if ret_indices else self
+        return np.array(indices_of_orig_vertices, dtype=int) if ret_indices else self
 
     def apex(self, axis):
         '''
@@ -230,6 +234,9 @@ class Polyline(object):
         Returns the points of intersection between the plane and any of the
         edges of `polyline`, which should be an instance of Polyline.
         '''
+        if self.v is None:
+            return (np.empty((0, 3)), np.empty((0,), dtype=int)) if ret_edge_indices else np.empty((0, 3))
+
         # Identify edges with endpoints that are not on the same side of the plane
         sgn_dists = plane.signed_distance(self.v)
         which_es = np.abs(np.sign(sgn_dists)[self.e].sum(axis=1)) != 2
-- 
2.43.0


From ece890a087b61739e45a5b016c094e7dd1bdede0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:22 +0000
Subject: [PATCH 53/59] fix: convexify_planar_curve raised on a polyline
 without vertices

---
 blmath/geometry/convexify.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/blmath/geometry/convexify.py b/blmath/geometry/convexify.py
index 3ce77f5..8906ec3 100644
--- a/blmath/geometry/convexify.py
+++ b/blmath/geometry/convexify.py
@@ -22,7 +22,7 @@ def convexify_planar_curve(polyline, flatten=False, want_vertices=False, normal=
         return convexify_and_flatten_planar_curve(polyline, want_vertices, normal)
 
     v = polyline.v
-    if len(v) <= 1:
+    if len(polyline) <= 1:
         return polyline
 
     if normal is None:
@@ -57,7 +57,7 @@ def convexify_and_flatten_planar_curve(polyline, want_vertices=False, normal=Non
         - want_vertices:
             Boolean; do you want the indices to the convex hull vertices?
     '''
-    if len(polyline.v) <= 1:
+    if len(polyline) <= 1:
         return polyline
 
     rotated, R, p0 = rotate_to_xz_plane(polyline.v, normal=normal)
-- 
2.43.0


From f35dccbb6f825e3ec9c0f0cc6f15e6b157408f81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:32 +0000
Subject: [PATCH 54/59] fix: reverse scales and default reverse matrices had
 the precision of the type given

---
 blmath/geometry/transform/composite.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/blmath/geometry/transform/composite.py b/blmath/geometry/transform/composite.py
index b98c0cd..46529c7 100644
--- a/blmath/geometry/transform/composite.py
+++ b/blmath/geometry/transform/composite.py
@@ -131,7 +131,8 @@ class CompositeTransform(object):
 
         '''
         if reverse is None:
-            reverse = np.linalg.inv(forward)
+            # in double precision, whatever the type of the matrix
+            reverse = np.linalg.inv(np.asarray(forward, dtype=np.float64))
 
         new_index = len(self.transforms)
 
@@ -173,7 +174,7 @@ class CompositeTransform(object):
             raise ValueError('Scale factor should be greater than zero')
 
         forward3 = np.diag(np.repeat(factor, 3))
-        reverse3 = np.diag(np.repeat(1./factor, 3))
+        reverse3 = np.diag(np.repeat(1./np.float64(factor), 3))
 
         return self.append_transform3(forward3, reverse3)
 
-- 
2.43.0


From eadcab7a7064062a377039d07a030c549ef7532f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:39 +0000
Subject: [PATCH 55/59] fix: find_rigid_rotation misaligned long single vectors

---
 blmath/geometry/transform/rigid_transform.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/blmath/geometry/transform/rigid_transform.py b/blmath/geometry/transform/rigid_transform.py
index cba3ce6..cc83353 100644
--- a/blmath/geometry/transform/rigid_transform.py
+++ b/blmath/geometry/transform/rigid_transform.py
@@ -76,6 +76,9 @@ def find_rigid_rotation(a, b, allow_scaling=False):
     scalefactor = scipy.linalg.norm(b) / scipy.linalg.norm(a) if allow_scaling else 1.
 
     if a.size == 3:
+        # Only the directions matter. The lengths would weigh the two pairs differently.
+        a = a / (scipy.linalg.norm(a) or 1.)
+        b = b / (scipy.linalg.norm(b) or 1.)
         cx = np.cross(a.ravel(), b.ravel())
         a = np.hstack((col(a), col(cx)))
         b = np.hstack((col(b), col(cx)))
-- 
2.43.0


From cf11dfc5c524c17f9cdf6776c87d209fa55e2313 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:41 +0000
Subject: [PATCH 56/59] fix: prettify refused a negative precision that is a
 numpy integer

---
 blmath/units.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/blmath/units.py b/blmath/units.py
index 12ba829..4a43167 100644
--- a/blmath/units.py
+++ b/blmath/units.py
@@ -241,7 +241,7 @@ class Units(object):
                 nearest = {'cm': 0.5, 'in': 0.25, 'kg': 0.5, 'lb': 1.0, 'yr': 1.0}.get(units, 0.1)
             else:
                 # Work around weird floating point rounding issues
-                nearest = 1.0 / 10 ** precision
+                nearest = 1.0 / 10.0 ** precision
             return round_to(value, nearest), units
 
         return round_value(*self.convert_to_system_default(value, units)) + round_value(*self.convert_to_system_default(value, units, 'united_states'))
-- 
2.43.0


From 9431bbfadb44de7ffb66ea3c7d2b931c35726ab6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:23:57 +0000
Subject: [PATCH 57/59] fix: Value.prettified kept the form of the number it
 had when first read

---
 blmath/value.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/blmath/value.py b/blmath/value.py
index 9b8f00e..ac8feb0 100644
--- a/blmath/value.py
+++ b/blmath/value.py
@@ -1,5 +1,3 @@
-from cached_property import cached_property
-
 class Value(object):
     '''
     Simple value class to encapsulate (value, units) and various conversions
@@ -168,7 +166,7 @@ class Value(object):
     def __ge__(self, other):
         return self.value >= float(self._comparable(other))
 
-    @cached_property
+    @property
     def prettified(self):
         from blmath import units as unit_conversions
         return unit_conversions.prettify(self.value, self.units)
-- 
2.43.0


From a4ff6b6f1f2493eaa73a9dc1ceeaa4e75803ed0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:11 +0000
Subject: [PATCH 58/59] fix: isnumeric could leave warnings silenced when used
 in several threads

---
 blmath/numerics/predicates.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/blmath/numerics/predicates.py b/blmath/numerics/predicates.py
index 341b02e..8a8fcb4 100644
--- a/blmath/numerics/predicates.py
+++ b/blmath/numerics/predicates.py
@@ -16,9 +16,8 @@ def isnumeric(x):
             return all(isnumericscalar(item) for item in x.ravel())
     try:
         # See if it supports mathiness
-        import warnings
-        with warnings.catch_warnings():
-            warnings.simplefilter("ignore")
+        # Unlike warnings.catch_warnings, errstate is safe to use in several threads
+        with np.errstate(all='ignore'):
             x+x, x-x, x*x # pylint: disable=pointless-statement
             if not hasattr(x, '__iter__') and x != x:
                 # Decimal has a NaN too, which isnan does not support
-- 
2.43.0


From 6aa14e5da0c1e665701de3619601582b077988c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:54:22 +0000
Subject: [PATCH 59/59] fix: CoordinateManager could not be copied or pickled

---
 blmath/geometry/transform/coordinate_manager.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/blmath/geometry/transform/coordinate_manager.py b/blmath/geometry/transform/coordinate_manager.py
index 787584e..86578d1 100644
--- a/blmath/geometry/transform/coordinate_manager.py
+++ b/blmath/geometry/transform/coordinate_manager.py
@@ -108,6 +108,9 @@ class CoordinateManager(object):
         self.__dict__['points_or_mesh'] = value
 
     def __getattr__(self, name):
+        if name.startswith('__') and name not in self.__dict__.get('tags_to_indices', ()):
+            # Not a tag but one of Python's own names, asked for by e.g. copy and pickle
+            raise AttributeError(name)
         if self.points_tag is None:
             raise ValueError('Must set a value before trying to read one')
 
-- 
2.43.0

