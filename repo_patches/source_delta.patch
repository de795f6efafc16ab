From 864f2d00b10a09dfb5f7ce1c1b5fbf9a7df40f20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:30 +0000
Subject: [PATCH 01/22] fix: box surface samples applied the pose twice and
 failed for one point

---
 src/rigeo/shape/box.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/rigeo/shape/box.py b/src/rigeo/shape/box.py
index bef5745..8d38a21 100644
--- a/src/rigeo/shape/box.py
+++ b/src/rigeo/shape/box.py
@@ -142,11 +142,12 @@ class Box(ConvexPolyhedron):
             shape = (shape,)
         n = np.prod(shape)
 
-        # generate some random points inside the box
+        # generate some random points inside the centered, axis-aligned box (the
+        # box's pose is applied below)
         # TODO would probably be nicer to sample the number per face first,
         # like in the edges function below
         rng = np.random.default_rng(rng)
-        points = self.random_points(n, rng=rng)
+        points = rng.uniform(low=-1, high=1, size=(n, 3)) * self.half_extents
 
         x, y, z = self.half_extents
         Ax = 4 * y * z
-- 
2.43.0


From c19d4f32ef007c7ea8a04230f0724aa051149755 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:30 +0000
Subject: [PATCH 02/22] fix: ellipsoid surface samples were rotated by the
 inverse rotation

---
 src/rigeo/shape/ellipsoid.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rigeo/shape/ellipsoid.py b/src/rigeo/shape/ellipsoid.py
index 3e2695c..e23210d 100644
--- a/src/rigeo/shape/ellipsoid.py
+++ b/src/rigeo/shape/ellipsoid.py
@@ -502,7 +502,7 @@ class Ellipsoid(Shape):
             count += n_acc
 
         # rotate and translate points as needed
-        points = points @ self.rotation + self.center
+        points = points @ self.rotation.T + self.center
 
         # reshape to desired shape
         if shape == (1,):
-- 
2.43.0


From 3bb8f80bbc31c185a64961ae7c99948e3f4bbb83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:30 +0000
Subject: [PATCH 03/22] fix: sampling one-dimensional balls and ellipsoids
 failed

---
 src/rigeo/random.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/rigeo/random.py b/src/rigeo/random.py
index ff590fc..929fc5f 100644
--- a/src/rigeo/random.py
+++ b/src/rigeo/random.py
@@ -52,7 +52,7 @@ def random_points_on_hypersphere(shape=1, dim=2, rng=None):
 
     See https://compneuro.uwaterloo.ca/files/publications/voelker.2017.pdf
     """
-    assert dim >= 1
+    assert dim >= 0
     if np.isscalar(shape):
         shape = (shape,)
     full_shape = tuple(shape) + (dim + 1,)
@@ -67,7 +67,7 @@ def random_points_on_hypersphere(shape=1, dim=2, rng=None):
 
     # squeeze out extra dimension if shape = 1
     if shape == (1,):
-        return np.squeeze(points)
+        return points.reshape(dim + 1)
     return points
 
 
@@ -85,7 +85,7 @@ def random_points_in_ball(shape=1, dim=3, rng=None):
 
     # squeeze out extra dimension if shape = 1
     if shape == 1:
-        return np.squeeze(points)
+        return points.reshape(dim)
     return points
 
 
-- 
2.43.0


From 58a5de1ec2bc1acba2b338042531633a96d23b48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:53 +0000
Subject: [PATCH 04/22] fix: capsules could not be compared (Cylinder.is_same
 had no tolerance)

---
 src/rigeo/shape/cylinder.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/rigeo/shape/cylinder.py b/src/rigeo/shape/cylinder.py
index 8138615..9a4af2d 100644
--- a/src/rigeo/shape/cylinder.py
+++ b/src/rigeo/shape/cylinder.py
@@ -109,14 +109,14 @@ class Cylinder(Shape):
         """The volume of the cylinder."""
         return np.pi * self.radius**2 * self.length
 
-    def is_same(self, other):
+    def is_same(self, other, tol=1e-8):
         if not isinstance(other, self.__class__):
             return False
         return (
-            np.isclose(self.length, other.length)
-            and np.isclose(self.radius, other.radius)
-            and np.allclose(self.center, other.center)
-            and np.allclose(self.rotation, other.rotation)
+            np.isclose(self.length, other.length, atol=tol)
+            and np.isclose(self.radius, other.radius, atol=tol)
+            and np.allclose(self.center, other.center, atol=tol)
+            and np.allclose(self.rotation, other.rotation, atol=tol)
         )
 
     def contains(self, points, tol=1e-8):
-- 
2.43.0


From bf6c97bae176ef124776e0c7339c40ecb4b6bf4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:09 +0000
Subject: [PATCH 05/22] fix: FaceForm kept the caller's arrays instead of
 copies

---
 src/rigeo/polydd.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/rigeo/polydd.py b/src/rigeo/polydd.py
index 4b3f240..d28d554 100644
--- a/src/rigeo/polydd.py
+++ b/src/rigeo/polydd.py
@@ -181,8 +181,8 @@ class FaceForm:
             self.A = np.vstack((A_ineq, A_eq, -A_eq))
             self.b = np.concatenate((b_ineq, b_eq, -b_eq))
         else:
-            self.A = A_ineq
-            self.b = b_ineq
+            self.A = np.array(A_ineq)
+            self.b = np.array(b_ineq)
 
     def __repr__(self):
         return f"FaceForm(A={self.A}, b={self.b})"
-- 
2.43.0


From 8e5323de878905dd0e188c1216de0348435f9d5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:09 +0000
Subject: [PATCH 06/22] fix: InertialParameters kept the caller's arrays
 instead of copies

---
 src/rigeo/inertial.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/rigeo/inertial.py b/src/rigeo/inertial.py
index e3f4bab..70c13c6 100644
--- a/src/rigeo/inertial.py
+++ b/src/rigeo/inertial.py
@@ -51,7 +51,7 @@ class InertialParameters:
                 com = np.zeros(3)
             else:
                 com = h / mass
-        self.com = com
+        self.com = np.array(com)
 
         if H is not None and I is not None:
             raise ValueError("Cannot specify both H and I.")
@@ -69,7 +69,7 @@ class InertialParameters:
         if translate_from_com:
             H = H + mass * np.outer(com, com)
 
-        self.H = H
+        self.H = np.array(H)
 
     def __repr__(self):
         return f"InertialParameters(mass={self.mass}, com={self.com}, H={self.H})"
-- 
2.43.0


From ef4715c7ea80a8bad8deb83beab7fddaa5025ed7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:09 +0000
Subject: [PATCH 07/22] fix: RigidBody kept the caller's list of shapes

---
 src/rigeo/rigidbody.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rigeo/rigidbody.py b/src/rigeo/rigidbody.py
index d71b1ce..ed5eaef 100644
--- a/src/rigeo/rigidbody.py
+++ b/src/rigeo/rigidbody.py
@@ -31,7 +31,7 @@ class RigidBody:
         if params is None:
             params = InertialParameters.zero()
 
-        self.shapes = shapes
+        self.shapes = list(shapes)
         self.params = params
 
     def __add__(self, other):
-- 
2.43.0


From bf77acc33bb9670954414e20df4790e022ea2a59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:15 +0000
Subject: [PATCH 08/22] fix: merging massless inertial parameters gave NaN

---
 src/rigeo/inertial.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/rigeo/inertial.py b/src/rigeo/inertial.py
index 70c13c6..f3404d7 100644
--- a/src/rigeo/inertial.py
+++ b/src/rigeo/inertial.py
@@ -49,6 +49,9 @@ class InertialParameters:
         if com is None:
             if h is None:
                 com = np.zeros(3)
+            elif mass == 0 and not np.any(h):
+                # massless: the center of mass is arbitrary
+                com = np.zeros(3)
             else:
                 com = h / mass
         self.com = np.array(com)
-- 
2.43.0


From 30767ad90b44c0415122ae3ea688f95b14b640ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:29 +0000
Subject: [PATCH 09/22] fix: Ellipsoid.mbe did not accept a solver, so
 RigidBody.mbes failed

---
 src/rigeo/shape/ellipsoid.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rigeo/shape/ellipsoid.py b/src/rigeo/shape/ellipsoid.py
index e23210d..929301a 100644
--- a/src/rigeo/shape/ellipsoid.py
+++ b/src/rigeo/shape/ellipsoid.py
@@ -415,7 +415,7 @@ class Ellipsoid(Shape):
             Qr, V = self._QV_degenerate()
             return psd_constraints + [cp.trace(Qr @ Jr) >= 0, J == V @ Jr @ V.T]
 
-    def mbe(self, rcond=None, sphere=False):
+    def mbe(self, rcond=None, sphere=False, solver=None):
         if not sphere:
             return self
         radius = np.max(self.half_extents)
-- 
2.43.0


From 3fd719ba582bbcaa1255a3cc21c5ebb38e431407 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:29 +0000
Subject: [PATCH 10/22] fix: contains_ellipsoid did not use the other
 ellipsoid's shape and center

---
 src/rigeo/shape/ellipsoid.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/rigeo/shape/ellipsoid.py b/src/rigeo/shape/ellipsoid.py
index 929301a..eacb5ad 100644
--- a/src/rigeo/shape/ellipsoid.py
+++ b/src/rigeo/shape/ellipsoid.py
@@ -548,8 +548,8 @@ class Ellipsoid(Shape):
         constraints = [
             t >= 0,
             schur(
-                self.S - t * other.A,
-                self.A @ self.b - t * self.b,
+                self.S - t * other.S,
+                self.A @ self.b - t * (other.A @ other.b),
                 self.b @ self.b - 1 - t * (other.b @ other.b - 1),
             )
             << 0,
-- 
2.43.0


From 720d5cc900b9640d8939c522546ebc2025d83a14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:29 +0000
Subject: [PATCH 11/22] fix: mbe_of_ellipsoids did not bound ellipsoids other
 than centered unit balls

---
 src/rigeo/shape/ellipsoid.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/rigeo/shape/ellipsoid.py b/src/rigeo/shape/ellipsoid.py
index eacb5ad..9bba35f 100644
--- a/src/rigeo/shape/ellipsoid.py
+++ b/src/rigeo/shape/ellipsoid.py
@@ -610,10 +610,13 @@ class Ellipsoid(Shape):
         )
 
 
-def _mbee_con_mat(S, d, Ai, bi, ti):
+def _mbee_con_mat(S, d, E, ti):
     """Constraint matrix for minimum bounding ellipsoid of ellipsoids problem."""
     dim = S.shape[0]
-    ci = bi @ bi - 1
+    # E = {x | x @ Ai @ x + 2 * bi @ x + ci <= 0}
+    Ai = E.S
+    bi = E.A @ E.b
+    ci = E.b @ E.b - 1
     Z = np.zeros((dim, dim))
     f = cp.reshape(-1 - ti * ci, (1, 1), order="C")
     e = cp.reshape(d - ti * bi, (dim, 1), order="C")
@@ -654,7 +657,7 @@ def mbe_of_ellipsoids(ellipsoids, sphere=False, solver=None):
 
     objective = cp.Minimize(-cp.log_det(S))
     constraints = [ts >= 0] + [
-        _mbee_con_mat(S, d, E.A, E.b, ti) << 0 for E, ti in zip(ellipsoids, ts)
+        _mbee_con_mat(S, d, E, ti) << 0 for E, ti in zip(ellipsoids, ts)
     ]
     if sphere:
         # if we want a sphere, then S is a multiple of the identity matrix
-- 
2.43.0


From af82e8fff714402e2d32ca9f4e02891d72f0a583 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:29 +0000
Subject: [PATCH 12/22] fix: mbe_of_points(sphere=True) lost the reference
 point

---
 src/rigeo/shape/ellipsoid.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/rigeo/shape/ellipsoid.py b/src/rigeo/shape/ellipsoid.py
index 9bba35f..b52a2d5 100644
--- a/src/rigeo/shape/ellipsoid.py
+++ b/src/rigeo/shape/ellipsoid.py
@@ -709,8 +709,8 @@ def mbe_of_points(points, rcond=None, sphere=False, solver=None):
     constraints = [cp.norm2(A @ x + b) <= 1 for x in P]
     if sphere:
         # if we want a sphere, then A is a multiple of the identity matrix
-        r = cp.Variable(1)
-        constraints.append(A == r * np.eye(rank))
+        a = cp.Variable(1)
+        constraints.append(A == a * np.eye(rank))
     problem = cp.Problem(objective, constraints)
     problem.solve(solver=solver)
 
-- 
2.43.0


From 239a7c2e840aaf65484d4a1de1e633bea9c51e29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:20 +0000
Subject: [PATCH 13/22] fix: geometry queries returned answers the solver had
 not found

---
 src/rigeo/closest.py         |  4 +++-
 src/rigeo/constraint.py      | 22 ++++++++++++++++++++++
 src/rigeo/shape/ellipsoid.py | 16 +++++++++++-----
 3 files changed, 36 insertions(+), 6 deletions(-)

diff --git a/src/rigeo/closest.py b/src/rigeo/closest.py
index 47b7045..5ae0551 100644
--- a/src/rigeo/closest.py
+++ b/src/rigeo/closest.py
@@ -4,6 +4,8 @@ from dataclasses import dataclass
 import numpy as np
 import cvxpy as cp
 
+from .constraint import solve_or_raise
+
 
 @dataclass
 class ClosestPointInfo:
@@ -54,6 +56,6 @@ def closest_points(shape1, shape2, solver=None):
     objective = cp.Minimize(cp.norm2(p2 - p1))
     constraints = shape1.must_contain(p1) + shape2.must_contain(p2)
     problem = cp.Problem(objective, constraints)
-    problem.solve(solver=solver)
+    solve_or_raise(problem, solver=solver)
 
     return ClosestPointInfo(p1=p1.value, p2=p2.value, dist=objective.value)
diff --git a/src/rigeo/constraint.py b/src/rigeo/constraint.py
index 0b44f93..1ebb875 100644
--- a/src/rigeo/constraint.py
+++ b/src/rigeo/constraint.py
@@ -152,3 +152,25 @@ def pim_psd(J, eps=0):
     assert J.shape == (4, 4)
     assert eps >= 0
     return [J == J.T, J >> eps * np.eye(4)]
+
+
+def solve_or_raise(problem, solver=None):
+    """Solve a problem, raising an error if no solution was found.
+
+    Parameters
+    ----------
+    problem : cp.Problem
+        The problem to solve.
+    solver : str or None
+        The solver for cvxpy to use.
+
+    Raises
+    ------
+    cp.error.SolverError
+        If the solver did not find a solution.
+    """
+    problem.solve(solver=solver)
+    if problem.status not in (cp.OPTIMAL, cp.OPTIMAL_INACCURATE):
+        raise cp.error.SolverError(
+            f"Problem could not be solved: status is {problem.status}."
+        )
diff --git a/src/rigeo/shape/ellipsoid.py b/src/rigeo/shape/ellipsoid.py
index b52a2d5..8490165 100644
--- a/src/rigeo/shape/ellipsoid.py
+++ b/src/rigeo/shape/ellipsoid.py
@@ -5,7 +5,7 @@ from scipy.linalg import orth, null_space
 from ..util import clean_transform
 from ..random import random_points_in_ball, random_points_on_hypersphere
 from ..inertial import InertialParameters
-from ..constraint import schur, pim_must_equal_param_var
+from ..constraint import schur, pim_must_equal_param_var, solve_or_raise
 
 from .base import Shape
 
@@ -556,7 +556,13 @@ class Ellipsoid(Shape):
         ]
         problem = cp.Problem(objective, constraints)
         problem.solve(solver=solver)
-        return problem.status == "optimal"
+        if problem.status == cp.OPTIMAL:
+            return True
+        if problem.status == cp.INFEASIBLE:
+            return False
+        raise cp.error.SolverError(
+            f"Containment could not be determined: status is {problem.status}."
+        )
 
     def uniform_density_params(self, mass):
         """Generate the inertial parameters corresponding to a uniform mass density.
@@ -664,7 +670,7 @@ def mbe_of_ellipsoids(ellipsoids, sphere=False, solver=None):
         a = cp.Variable(1)
         constraints.append(S == a * np.eye(dim))
     problem = cp.Problem(objective, constraints)
-    problem.solve(solver=solver)
+    solve_or_raise(problem, solver=solver)
 
     center = np.linalg.solve(S.value, -d.value)
     return Ellipsoid.from_shape_matrix(S.value, center=center)
@@ -712,7 +718,7 @@ def mbe_of_points(points, rcond=None, sphere=False, solver=None):
         a = cp.Variable(1)
         constraints.append(A == a * np.eye(rank))
     problem = cp.Problem(objective, constraints)
-    problem.solve(solver=solver)
+    solve_or_raise(problem, solver=solver)
 
     # unproject
     eigs, V = np.linalg.eigh(A.value)
@@ -755,7 +761,7 @@ def mie_inequality_form(A, b, sphere=False, solver=None):
         r = cp.Variable(1)
         constraints.append(B == r * np.eye(dim))
     problem = cp.Problem(objective, constraints)
-    problem.solve(solver=solver)
+    solve_or_raise(problem, solver=solver)
 
     E = B.value @ B.value
     return Ellipsoid.from_shape_matrix(S=np.linalg.inv(E), center=c.value)
-- 
2.43.0


From 4af8ed07b24a0aee438d28cd9358dffdc626411d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:06 +0000
Subject: [PATCH 14/22] fix: moment_sdp_constraints ignored eps

---
 src/rigeo/shape/cylinder.py | 3 ++-
 src/rigeo/shape/poly.py     | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/rigeo/shape/cylinder.py b/src/rigeo/shape/cylinder.py
index 9a4af2d..2e02357 100644
--- a/src/rigeo/shape/cylinder.py
+++ b/src/rigeo/shape/cylinder.py
@@ -157,7 +157,8 @@ class Cylinder(Shape):
         M = cp.Variable(moment.shape, PSD=True)
 
         return (
-            moment.moment_constraints(M)
+            psd_constraints
+            + moment.moment_constraints(M)
             + moment.localizing_constraints(M, polys=self._poly0s)
             + [m == M[0, 0], h == M[0, 1:4], H == M[1:4, 1:4]]
         )
diff --git a/src/rigeo/shape/poly.py b/src/rigeo/shape/poly.py
index e7fe25d..92dfa58 100644
--- a/src/rigeo/shape/poly.py
+++ b/src/rigeo/shape/poly.py
@@ -280,7 +280,8 @@ class ConvexPolyhedron(Shape):
         M = cp.Variable(moment.shape, PSD=True)
 
         return (
-            moment.moment_constraints(M)
+            psd_constraints
+            + moment.moment_constraints(M)
             + moment.localizing_constraints(M, polys=self._polys)
             + [m == M[0, 0], h == M[0, 1:4], H == M[1:4, 1:4]]
         )
-- 
2.43.0


From 483d8464d9fa3b9a9e33c92494318322138808a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:02 +0000
Subject: [PATCH 15/22] fix: cylinder vertex constraints with eps > 0 excluded
 everything

---
 src/rigeo/shape/cylinder.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rigeo/shape/cylinder.py b/src/rigeo/shape/cylinder.py
index 2e02357..5307af2 100644
--- a/src/rigeo/shape/cylinder.py
+++ b/src/rigeo/shape/cylinder.py
@@ -180,7 +180,7 @@ class Cylinder(Shape):
         disk_constraints = [
             c
             for J, disk in zip(Js, self.disk0s)
-            for c in disk.moment_constraints(J, eps=eps)
+            for c in disk.moment_constraints(J)
         ]
 
         return (
-- 
2.43.0


From fb4cab43317c2b716b01f3947c025cd615e9e7c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:14 +0000
Subject: [PATCH 16/22] fix: polyhedra with badly scaled face normals did not
 contain themselves

---
 src/rigeo/polydd.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/rigeo/polydd.py b/src/rigeo/polydd.py
index d28d554..10bf0ce 100644
--- a/src/rigeo/polydd.py
+++ b/src/rigeo/polydd.py
@@ -151,7 +151,13 @@ class SpanForm:
         Smat = self.to_cdd_matrix()
         poly = cdd.Polyhedron(Smat)
         Fmat = poly.get_inequalities()
-        return FaceForm.from_cdd_matrix(Fmat)
+        form = FaceForm.from_cdd_matrix(Fmat)
+
+        # the scale of the rows returned by cdd is arbitrary (and can be very
+        # large); use unit normals so that residuals are distances
+        norms = np.linalg.norm(form.A, axis=1)
+        norms[norms == 0] = 1.0
+        return FaceForm(A_ineq=form.A / norms[:, None], b_ineq=form.b / norms)
 
     def transform(self, rotation=None, translation=None):
         if rotation is None:
-- 
2.43.0


From 0a629b17ba5e66b38ad4df1858e070bf2f6bdd46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:19 +0000
Subject: [PATCH 17/22] fix: intersections of polyhedra recovered the known
 faces from the vertices

The faces of an intersection were thrown away and recomputed from its
vertices in floating point, which occasionally lost facets or failed with
'Numerical inconsistency'. Keep the combined faces. An intersection that is
a single point has equality rows only, which from_cdd_matrix could not index.
---
 src/rigeo/polydd.py     |  5 +++--
 src/rigeo/shape/poly.py | 10 ++++++++--
 2 files changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/rigeo/polydd.py b/src/rigeo/polydd.py
index 10bf0ce..d1f1962 100644
--- a/src/rigeo/polydd.py
+++ b/src/rigeo/polydd.py
@@ -207,9 +207,10 @@ class FaceForm:
         A = -M[:, 1:]
 
         ineq_idx = np.array(
-            [idx for idx in range(mat.row_size) if idx not in mat.lin_set]
+            [idx for idx in range(mat.row_size) if idx not in mat.lin_set],
+            dtype=int,
         )
-        eq_idx = np.array([idx for idx in mat.lin_set])
+        eq_idx = np.array([idx for idx in mat.lin_set], dtype=int)
 
         return cls(
             A_ineq=A[ineq_idx, :],
diff --git a/src/rigeo/shape/poly.py b/src/rigeo/shape/poly.py
index 92dfa58..bf3af68 100644
--- a/src/rigeo/shape/poly.py
+++ b/src/rigeo/shape/poly.py
@@ -256,10 +256,16 @@ class ConvexPolyhedron(Shape):
         """
         assert isinstance(other, ConvexPolyhedron)
 
-        span_form = self.face_form.stack(other.face_form).to_span_form()
+        face_form = self.face_form.stack(other.face_form)
+        span_form = face_form.to_span_form()
         if span_form is None:
             return None
-        return ConvexPolyhedron(span_form=span_form)
+
+        # the faces are already known; recovering them from the vertices would
+        # be numerically fragile
+        return ConvexPolyhedron(
+            face_form=face_form.canonical(), span_form=span_form
+        )
 
     def moment_sdp_feasibility_problem(self, param_var, eps=0, d=2):
         objective = cp.Minimize([0])
-- 
2.43.0


From 07e2376a11fe5d0758e5f0cdbb26e46fca5e4232 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:15 +0000
Subject: [PATCH 18/22] fix: generated data could overwrite earlier data and
 hold negative times

Two runs that ended within the same second (or around a clock change) wrote
to the same file, and the durations were differences of the wall clock.
---
 scripts/experiments/generate_drip_data.py | 33 ++++++++++++++++-------
 1 file changed, 24 insertions(+), 9 deletions(-)

diff --git a/scripts/experiments/generate_drip_data.py b/scripts/experiments/generate_drip_data.py
index 1d33f21..a0b506c 100755
--- a/scripts/experiments/generate_drip_data.py
+++ b/scripts/experiments/generate_drip_data.py
@@ -2,6 +2,7 @@
 """Compare the moment SDP constraints with specialized custom constraints."""
 import argparse
 import datetime
+import itertools
 import time
 
 import numpy as np
@@ -53,23 +54,23 @@ def random_optimal_values(shape, n, verbose=False):
         D_moment_d3.value = D
         D_custom.value = D
 
-        t0 = time.time()
+        t0 = time.perf_counter()
         problem_moment_d2.solve(solver=cp.MOSEK)
-        t1 = time.time()
+        t1 = time.perf_counter()
         assert problem_moment_d2.status == "optimal"
         moment_d2_times.append(t1 - t0)
         moment_d2_values.append(problem_moment_d2.value)
 
-        t0 = time.time()
+        t0 = time.perf_counter()
         problem_moment_d3.solve(solver=cp.MOSEK)
-        t1 = time.time()
+        t1 = time.perf_counter()
         assert problem_moment_d3.status == "optimal"
         moment_d3_times.append(t1 - t0)
         moment_d3_values.append(problem_moment_d3.value)
 
-        t0 = time.time()
+        t0 = time.perf_counter()
         problem_custom.solve(solver=cp.MOSEK)
-        t1 = time.time()
+        t1 = time.perf_counter()
         assert problem_custom.status == "optimal"
         custom_times.append(t1 - t0)
         custom_values.append(problem_custom.value)
@@ -84,6 +85,19 @@ def random_optimal_values(shape, n, verbose=False):
     }
 
 
+def open_new_file(name, ext):
+    """Open a new file, appending a number if the name is already taken.
+
+    Another run may have saved its data within the same second, or before the
+    clock was set back."""
+    for i in itertools.count():
+        suffix = f"_{i}" if i > 0 else ""
+        try:
+            return open(f"{name}{suffix}{ext}", "xb")
+        except FileExistsError:
+            pass
+
+
 def main():
     parser = argparse.ArgumentParser()
     parser.add_argument(
@@ -110,9 +124,10 @@ def main():
     data = random_optimal_values(shape, n=args.n)
 
     timestamp = datetime.datetime.now().strftime("%Y-%m-%d_%H-%M-%S")
-    outfile = f"{args.shape}_drip_data_{timestamp}.npz"
-    np.savez(outfile, **data)
-    print(f"Saved data to {outfile}")
+    f = open_new_file(f"{args.shape}_drip_data_{timestamp}", ".npz")
+    with f:
+        np.savez(f, **data)
+    print(f"Saved data to {f.name}")
 
 
 if __name__ == "__main__":
-- 
2.43.0


From e520d210928076c1acc224fae3d2d6053441d722 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:27 +0000
Subject: [PATCH 19/22] fix: moving a polyhedron could lose some of its faces

---
 src/rigeo/shape/poly.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/rigeo/shape/poly.py b/src/rigeo/shape/poly.py
index bf3af68..af54112 100644
--- a/src/rigeo/shape/poly.py
+++ b/src/rigeo/shape/poly.py
@@ -320,8 +320,16 @@ class ConvexPolyhedron(Shape):
         rotation, translation = clean_transform(
             rotation=rotation, translation=translation, dim=self.dim
         )
-        new_vertices = self.vertices @ rotation.T + translation
-        return self.from_vertices(new_vertices)
+        # move both forms: recovering the faces from the moved vertices can lose
+        # some of them
+        return ConvexPolyhedron(
+            face_form=self.face_form.transform(
+                rotation=rotation, translation=translation
+            ),
+            span_form=self.span_form.transform(
+                rotation=rotation, translation=translation
+            ),
+        )
 
     def vertex_point_mass_params(self, mass):
         """Compute the inertial parameters corresponding to a system of point
-- 
2.43.0


From 85972458dc0c25c28950e33fa8fda3a2bbc0f1d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:10 +0000
Subject: [PATCH 20/22] fix: degenerate ellipsoids compare as the same, thin
 ones count as degenerate

The Q matrix of a degenerate ellipsoid is not finite, so that it never
compared as the same as another one (or itself). Half extents within 1e-8 of
zero are treated as zero everywhere except in the rank, which made the
realizability constraints of such ellipsoids NaN.
---
 src/rigeo/shape/ellipsoid.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/rigeo/shape/ellipsoid.py b/src/rigeo/shape/ellipsoid.py
index 8490165..fab3419 100644
--- a/src/rigeo/shape/ellipsoid.py
+++ b/src/rigeo/shape/ellipsoid.py
@@ -101,9 +101,13 @@ class Ellipsoid(Shape):
         """Inverse of the shape matrix."""
         return self.rotation @ np.diag(self.half_extents**2) @ self.rotation.T
 
+    def _sqrt_E(self):
+        """Matrix of the affine map from the unit ball to the ellipsoid."""
+        return self.rotation @ np.diag(self.half_extents) @ self.rotation.T
+
     @property
     def rank(self):
-        return np.count_nonzero(self.half_extents)
+        return np.count_nonzero(~self._z())
 
     @property
     def volume(self):
@@ -245,7 +249,13 @@ class Ellipsoid(Shape):
         """Check if this ellipsoid is the same as another."""
         if not isinstance(other, self.__class__):
             return False
-        return np.allclose(self.Q, other.Q, atol=tol)
+        if self.dim != other.dim:
+            return False
+        # compare the affine maps of the unit ball, which (unlike the shape
+        # matrices) are finite for degenerate ellipsoids, too
+        return np.allclose(self.center, other.center, atol=tol) and np.allclose(
+            self._sqrt_E(), other._sqrt_E(), atol=tol
+        )
 
     def contains(self, points, tol=1e-8):
         """Check if points are contained in the ellipsoid.
-- 
2.43.0


From c995e2967dfc316b8c92762a54d00287a00456f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:10 +0000
Subject: [PATCH 21/22] fix: bounding spheres of boxes are the smallest ones

---
 src/rigeo/shape/box.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rigeo/shape/box.py b/src/rigeo/shape/box.py
index 8d38a21..66ba88d 100644
--- a/src/rigeo/shape/box.py
+++ b/src/rigeo/shape/box.py
@@ -335,7 +335,7 @@ class Box(ConvexPolyhedron):
 
         half_extents = self.half_extents * np.sqrt(3)  # TODO check this
         if sphere:
-            radius = np.max(half_extents)
+            radius = np.linalg.norm(self.half_extents)
             return Ellipsoid.sphere(radius=radius, center=self.center)
         return Ellipsoid(
             half_extents=half_extents,
-- 
2.43.0


From 8cb676800bb7edbd557da0de8749285a3d7b4f86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:11:58 +0000
Subject: [PATCH 22/22] fix: the hull of a single point does not alias the
 caller's array

---
 src/rigeo/polydd.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rigeo/polydd.py b/src/rigeo/polydd.py
index d1f1962..9ab5927 100644
--- a/src/rigeo/polydd.py
+++ b/src/rigeo/polydd.py
@@ -317,7 +317,7 @@ def convex_hull(points, rcond=None):
     """
     assert points.ndim == 2
     if points.shape[0] <= 1:
-        return points
+        return np.array(points)
 
     # qhull does not handle degenerate sets of points but cdd does, which is
     # nice
-- 
2.43.0

