From 8443235f3b91cae83a68a4cab42805c4feb5310a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:37 +0000
Subject: [PATCH 01/47] fix: grid gradient must use local cell coordinates
 scaled by the spacing, not by the grid's minimum corner

---
 rainbow/geometry/grid3.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/rainbow/geometry/grid3.py b/rainbow/geometry/grid3.py
index 2f052c2..d7cea98 100644
--- a/rainbow/geometry/grid3.py
+++ b/rainbow/geometry/grid3.py
@@ -206,9 +206,9 @@ def get_gradient(grid, p):
     d101 = grid.get_node_value(i + 1, j, k + 1)
     d110 = grid.get_node_value(i + 1, j + 1, k)
     d111 = grid.get_node_value(i + 1, j + 1, k + 1)
-    s = (p[0] - (i * grid.spacing[0] + grid.min_coord[0])) / grid.min_coord[0]
-    t = (p[1] - (j * grid.spacing[1] + grid.min_coord[1])) / grid.min_coord[1]
-    u = (p[2] - (k * grid.spacing[2] + grid.min_coord[2])) / grid.min_coord[2]
+    s = (p[0] - (i * grid.spacing[0] + grid.min_coord[0])) / grid.spacing[0]
+    t = (p[1] - (j * grid.spacing[1] + grid.min_coord[1])) / grid.spacing[1]
+    u = (p[2] - (k * grid.spacing[2] + grid.min_coord[2])) / grid.spacing[2]
 
     #
     #             011
-- 
2.43.0


From 62127764d77ff7196595a8677ec809f1dac024f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:37 +0000
Subject: [PATCH 02/47] fix: rigid contact generation must not discard points
 within 0.5 length units of the SDF grid boundary

---
 rainbow/simulators/prox_rigid_bodies/collision_detection.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rainbow/simulators/prox_rigid_bodies/collision_detection.py b/rainbow/simulators/prox_rigid_bodies/collision_detection.py
index 5ec9c91..db4f09a 100644
--- a/rainbow/simulators/prox_rigid_bodies/collision_detection.py
+++ b/rainbow/simulators/prox_rigid_bodies/collision_detection.py
@@ -169,7 +169,7 @@ def _compute_contacts(engine: Engine, bodyA: RigidBody, bodyB: RigidBody, triang
         # We have now optimized for the deepest penetrating point on the triangle, and now we can use this
         # point and the SDF from body B to generate a contact point between body A and body B. First we test
         # if our triangle point is even inside axis aligned bounding box (AABB) around the SDF of body B.
-        if GRID.is_inside(bodyB.shape.grid, x_i):
+        if GRID.is_inside(bodyB.shape.grid, x_i, boundary=0.0):
             # If we are inside the AABB then we look up the actual SDF value at the point. If the SDF value
             # is non-positive then we know we have a "true" contact point.
             phi = GRID.get_value(bodyB.shape.grid, x_i)
-- 
2.43.0


From 9ce991322f72e8525150779fbb1175a1bdfa4d8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:04 +0000
Subject: [PATCH 03/47] fix: hinge pre-stabilization must reduce drift, its
 error terms had the opposite sign of the Jacobian

---
 rainbow/simulators/prox_rigid_bodies/constraints/hinges.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rainbow/simulators/prox_rigid_bodies/constraints/hinges.py b/rainbow/simulators/prox_rigid_bodies/constraints/hinges.py
index e8e4491..afe1a30 100644
--- a/rainbow/simulators/prox_rigid_bodies/constraints/hinges.py
+++ b/rainbow/simulators/prox_rigid_bodies/constraints/hinges.py
@@ -208,9 +208,9 @@ class Hinges(Problem):
 
             n_c = Q.rotate(hinge.child.q, hinge.axis_c)
 
-            u = V3.cross(n_p, n_c)
+            u = V3.cross(n_c, n_p)
 
-            g[offset:offset + 3] = (r_c - r_p)
+            g[offset:offset + 3] = (r_p - r_c)
             g[offset + 3] = t_p.dot(u)
             g[offset + 4] = b_p.dot(u)
         rate = engine.params.gap_reduction / dt
-- 
2.43.0


From 181780ab9c92d8320ac217d956920127c0d42159 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:12 +0000
Subject: [PATCH 04/47] fix: simulate must not end with a vanishing round-off
 time step

---
 rainbow/simulators/prox_rigid_bodies/api.py | 6 ++++--
 rainbow/simulators/prox_soft_bodies/api.py  | 6 ++++--
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/rainbow/simulators/prox_rigid_bodies/api.py b/rainbow/simulators/prox_rigid_bodies/api.py
index 53c3bfb..3606d67 100644
--- a/rainbow/simulators/prox_rigid_bodies/api.py
+++ b/rainbow/simulators/prox_rigid_bodies/api.py
@@ -687,8 +687,10 @@ def simulate(engine: Engine, T: float, profiling_on: bool = False) -> None:
     if engine.stepper is None:
         raise ValueError("A time-stepper must be initialized")
     T_left = T
-    while T_left:
-        dt = min(T_left, engine.params.time_step)
+    while T_left > 0:
+        # A remainder that differs from the time step by round-off only is one step, not a step and then a
+        # vanishing one (stabilization divides by the step size).
+        dt = T_left if T_left <= engine.params.time_step * (1 + 1e-6) else engine.params.time_step
         engine.stepper.step(dt, engine, profiling_on)
         T_left -= dt
 
diff --git a/rainbow/simulators/prox_soft_bodies/api.py b/rainbow/simulators/prox_soft_bodies/api.py
index 9585287..704f4ed 100644
--- a/rainbow/simulators/prox_soft_bodies/api.py
+++ b/rainbow/simulators/prox_soft_bodies/api.py
@@ -398,8 +398,10 @@ def simulate(engine, T: float, debug_on: bool = False) -> None:
     if engine.stepper is None:
         engine.stepper = SOLVER.SemiImplicitStepper(engine, debug_on)
     T_left = T
-    while T_left:
-        dt = min(T_left, engine.params.time_step)
+    while T_left > 0:
+        # A remainder that differs from the time step by round-off only is one step, not a step and then a
+        # vanishing one (stabilization divides by the step size).
+        dt = T_left if T_left <= engine.params.time_step * (1 + 1e-6) else engine.params.time_step
         engine.stepper.step(dt, engine, debug_on)
         T_left -= dt
 
-- 
2.43.0


From ad0d3fb6803c2918aaab5cfc13a576ef5561064a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:09 +0000
Subject: [PATCH 05/47] fix: corotational model must decompose the single
 deformation gradient it is given, not an array of them

---
 rainbow/simulators/prox_soft_bodies/mechanics.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rainbow/simulators/prox_soft_bodies/mechanics.py b/rainbow/simulators/prox_soft_bodies/mechanics.py
index 62d695b..15229b7 100644
--- a/rainbow/simulators/prox_soft_bodies/mechanics.py
+++ b/rainbow/simulators/prox_soft_bodies/mechanics.py
@@ -211,7 +211,7 @@ class COR:
         :param mu_in:       The second Lame parameter
         :return:            The first Piola-Kirchhoff stress tensor
         """
-        R, S = M3.polar_decomposition_array(F)
+        R, S = M3.polar_decomposition(F)
         return (lambda_in * np.trace(S - np.eye(3))) * R + (2 * mu_in) * (F - R)
 
     @staticmethod
@@ -222,7 +222,7 @@ class COR:
         :param mu_in:       The second Lame parameter
         :return:            The energy density.
         """
-        R, S = M3.polar_decomposition_array(F)
+        R, S = M3.polar_decomposition(F)
         #  mu ||F - R||_F^2 + (lambda/2) tr^2 (R^T F - I)
         return mu_in * np.square(np.linalg.norm(F - R, ord="fro")) + (
             lambda_in / 2
-- 
2.43.0


From c57c4de55d635661eec7e9fb3298d49ff94d0aeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:09 +0000
Subject: [PATCH 06/47] fix: stable Neo-Hookean energy must use the natural
 logarithm, its stress is the gradient of that energy

---
 rainbow/simulators/prox_soft_bodies/mechanics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rainbow/simulators/prox_soft_bodies/mechanics.py b/rainbow/simulators/prox_soft_bodies/mechanics.py
index 15229b7..309e3a8 100644
--- a/rainbow/simulators/prox_soft_bodies/mechanics.py
+++ b/rainbow/simulators/prox_soft_bodies/mechanics.py
@@ -159,7 +159,7 @@ class SNH:
         return (
             0.5 * mu_ * (I_C - 3)
             + 0.5 * lambda_ * np.square(J - alpha)
-            - 0.5 * mu_ * np.log2(I_C + 1)
+            - 0.5 * mu_ * np.log(I_C + 1)
         )
 
 
-- 
2.43.0


From 382901854c8d4b70a41d89a11161ae4dac8955ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:52 +0000
Subject: [PATCH 07/47] fix: potential energy must not be NaN when gravity
 forces cancel

---
 rainbow/simulators/prox_rigid_bodies/state_storage.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/rainbow/simulators/prox_rigid_bodies/state_storage.py b/rainbow/simulators/prox_rigid_bodies/state_storage.py
index 493f32e..674ec9c 100644
--- a/rainbow/simulators/prox_rigid_bodies/state_storage.py
+++ b/rainbow/simulators/prox_rigid_bodies/state_storage.py
@@ -226,10 +226,9 @@ class StateStorage:
                     G += gravity_force.up * gravity_force.g
                     has_gravity = True
             if has_gravity:
-                up = V3.unit(G)
-                g = V3.norm(G)
-                h = up.dot(r)
-                potential += m * g * h
+                # Equal to m g h with respect to the direction of the total gravity, which does not exist when the
+                # gravity forces cancel each other.
+                potential += m * G.dot(r)
 
             wIw = np.dot(w, np.dot(I_wcs, w))
             kinetic += 0.5 * (m * (v.dot(v)) + wIw)
-- 
2.43.0


From f06ec26564e86ed32037f75dea4dd4b7ffdd6b45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:16 +0000
Subject: [PATCH 08/47] fix: contact optimization must not stop after one step,
 its break test used the vertex position instead of the descent

---
 .../simulators/prox_rigid_bodies/collision_detection.py  | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/rainbow/simulators/prox_rigid_bodies/collision_detection.py b/rainbow/simulators/prox_rigid_bodies/collision_detection.py
index db4f09a..5c29bc5 100644
--- a/rainbow/simulators/prox_rigid_bodies/collision_detection.py
+++ b/rainbow/simulators/prox_rigid_bodies/collision_detection.py
@@ -156,12 +156,13 @@ def _compute_contacts(engine: Engine, bodyA: RigidBody, bodyB: RigidBody, triang
             # in the direction of 's_i'. The step-size that we update 'x_i' with is given by alpha.
             # We decrease the value of alpha as we iterate to ensure we do not overstep our minimizer.
             alpha = 2 / (i + 2)
+            slope = np.dot(s_i - x_i, GRID.get_gradient(bodyB.shape.grid, x_i))
             x_i = x_i + alpha * (s_i - x_i)
             # Before continuing to the next iterate we check for convergence to see if we can make
-            # an early exit. We use a simple tolerance test. Note that our "objective" is more like the directional
-            # derivative. Hence, if the smallest directional derivative gets slightly positive then it means we will
-            # move away from the "minimizer" and we can not find any other corner point with a better descent direction.
-            if objectives[vertex] > engine.params.contact_optimization_tolerance:
+            # an early exit. We use a simple tolerance test. The directional derivative from the old 'x_i' towards
+            # 's_i' tells how much the linear model can decrease. Hence, if it is not sufficiently negative then there
+            # is no other corner point with a better descent direction.
+            if slope > -engine.params.contact_optimization_tolerance:
                 break
         if profiling_on:
             contact_optimization_timer.end()
-- 
2.43.0


From b99bef2e70660647797e447bef2e2dc11346d6aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:46 +0000
Subject: [PATCH 09/47] fix: parallel Gauss-Seidel sweep must account for all
 blocks updated by the previous colors

---
 rainbow/simulators/proximal_contact/gauss_seidel_solver.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/rainbow/simulators/proximal_contact/gauss_seidel_solver.py b/rainbow/simulators/proximal_contact/gauss_seidel_solver.py
index 8d16276..9b929e9 100644
--- a/rainbow/simulators/proximal_contact/gauss_seidel_solver.py
+++ b/rainbow/simulators/proximal_contact/gauss_seidel_solver.py
@@ -106,9 +106,9 @@ class ParallelGaussSeidelSolver(SolverInterface):
         delta_ws = np.zeros((self.WJT.shape[1]//4, w0.shape[0]), dtype=np.float64)
         for color_group in color_groups.values():
             w = w0.copy()
-            block_start, _ = color_group[0]
-            for i in range(block_start // 4):
-                w += delta_ws[i]
+            # All blocks of the previous color groups have been updated (blocks not updated yet have a zero delta)
+            for delta_w in delta_ws:
+                w += delta_w
 
             self.x, delta_ws = sweep_worker(np.array(color_group), 
                                             self.J.toarray(), 
-- 
2.43.0


From dc794fbe9e3946a6dd96cfda549ef6eb08b2f146 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:30 +0000
Subject: [PATCH 10/47] fix: parallel Gauss-Seidel solver must not request zero
 threads on a single core machine

---
 rainbow/simulators/proximal_contact/gauss_seidel_solver.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rainbow/simulators/proximal_contact/gauss_seidel_solver.py b/rainbow/simulators/proximal_contact/gauss_seidel_solver.py
index 9b929e9..0c32c76 100644
--- a/rainbow/simulators/proximal_contact/gauss_seidel_solver.py
+++ b/rainbow/simulators/proximal_contact/gauss_seidel_solver.py
@@ -99,7 +99,7 @@ class ParallelGaussSeidelSolver(SolverInterface):
         color_groups = BLOCKING.greedy_graph_coloring(G)
 
         # Set the number of threads
-        nb.set_num_threads(4 if (nb.config.NUMBA_NUM_THREADS // 2) >= 4 else nb.config.NUMBA_NUM_THREADS // 2)
+        nb.set_num_threads(max(1, min(4, nb.config.NUMBA_NUM_THREADS // 2)))
 
         # Compute the new contact force
         w0 = self.WJT.dot(self.x)
-- 
2.43.0


From 669d80a69be86d8935c23c1d4eebb1629cd33072 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:54:00 +0000
Subject: [PATCH 11/47] fix: prox_ellipsoid takes the engine object and can not
 be compiled by numba, every call raised a TypingError

---
 rainbow/simulators/proximal_contact/proximal_operators.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/rainbow/simulators/proximal_contact/proximal_operators.py b/rainbow/simulators/proximal_contact/proximal_operators.py
index e44c652..88a5a37 100644
--- a/rainbow/simulators/proximal_contact/proximal_operators.py
+++ b/rainbow/simulators/proximal_contact/proximal_operators.py
@@ -39,7 +39,6 @@ def prox_origin(z_s, z_t, z_tau, mu, x_n):
     return 0.0, 0.0, 0.0
 
 
-@nb.njit(cache=True)
 def prox_ellipsoid(engine, z_s, z_t, z_tau, mu_s, mu_t, mu_tau, x_n):
     # 2022-05-09 Kenny TODO: This interface is currently not compatible with
     #                   the friction_solver interface that we assume in the
-- 
2.43.0


From a305a682dd9a053aa20f220438ada9a006ac9043 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:54:07 +0000
Subject: [PATCH 12/47] fix: prox_ellipsoid must handle a vanishing friction
 coefficient on one axis without dividing by zero

---
 .../proximal_contact/proximal_operators.py         | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/rainbow/simulators/proximal_contact/proximal_operators.py b/rainbow/simulators/proximal_contact/proximal_operators.py
index 88a5a37..74d3de8 100644
--- a/rainbow/simulators/proximal_contact/proximal_operators.py
+++ b/rainbow/simulators/proximal_contact/proximal_operators.py
@@ -83,18 +83,18 @@ def prox_ellipsoid(engine, z_s, z_t, z_tau, mu_s, mu_t, mu_tau, x_n):
     saa, sbb, scc, sxx, syy, szz = sa * sa, sb * sb, sc * sc, sx * sx, sy * sy, sz * sz
 
     # Check if point is already on or inside ellipsoid
-    f0 = (sxx / saa) + (syy / sbb) + (szz / scc) - 1
+    # (a vanishing axis makes the ellipsoid flat: its points have a zero coordinate on that axis)
+    f0 = -1.0
+    for pp, qq in ((sxx, saa), (syy, sbb), (szz, scc)):
+        if qq > 0:
+            f0 += pp / qq
+        elif pp > 0:
+            f0 = np.inf
     if f0 < engine.params.ellipsoid_tolerance:
         return z_s, z_t, z_tau
 
     t0 = 0
     t1 = max(sa, sb, sc) * np.linalg.norm([sx, sy, sz])
-    g0 = (
-        (saa * sxx) / ((saa + t0) ** 2)
-        + (sbb * syy) / ((sbb + t0) ** 2)
-        + (scc * szz) / ((scc + t0) ** 2)
-        - 1
-    )
     g1 = (
         (saa * sxx) / ((saa + t1) ** 2)
         + (sbb * syy) / ((sbb + t1) ** 2)
-- 
2.43.0


From bf4294073c97f1a5c65549bb69aa02128751c9bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:45 +0000
Subject: [PATCH 13/47] fix: spatial hash must not return objects of an older
 time stamp

---
 rainbow/geometry/spatial_hashing.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/rainbow/geometry/spatial_hashing.py b/rainbow/geometry/spatial_hashing.py
index 68df209..07866d1 100644
--- a/rainbow/geometry/spatial_hashing.py
+++ b/rainbow/geometry/spatial_hashing.py
@@ -189,8 +189,11 @@ class HashGird:
             self.hash_tbale[hv] = HashCell()
             self.hash_tbale[hv].add((tri_idx, body_idx, tri_aabb), time_stamp)
         else:
-            overlaps = self.hash_tbale[hv].object_list
-            self.hash_tbale[hv].add((tri_idx, body_idx, tri_aabb), time_stamp)
+            cell = self.hash_tbale[hv]
+            # Objects from an older time stamp are gone, they are only cleared lazily when we add to the cell
+            if cell.time_stamp >= time_stamp:
+                overlaps = cell.object_list
+            cell.add((tri_idx, body_idx, tri_aabb), time_stamp)
         return overlaps
     
     @classmethod
-- 
2.43.0


From b13a29711daaaeedbf0528c2d036dfdcfa657444 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:40 +0000
Subject: [PATCH 14/47] fix: loop subdivision must not invert the tetrahedron
 of the first node

---
 rainbow/geometry/volume_mesh.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rainbow/geometry/volume_mesh.py b/rainbow/geometry/volume_mesh.py
index 3ba8ee0..476cadf 100644
--- a/rainbow/geometry/volume_mesh.py
+++ b/rainbow/geometry/volume_mesh.py
@@ -210,7 +210,7 @@ def create_loop_subdivision(V, T):
         jm, pjm = create_midpoint(j, m, pj, pm, lut, offset)
         km, pkm = create_midpoint(k, m, pk, pm, lut, offset)
         T[e] = [im, jm, km, m]
-        T[last] = [ij, ik, im, i]
+        T[last] = [ik, ij, im, i]
         T[last + 1] = [ij, jk, jm, j]
         T[last + 2] = [ik, km, jk, k]
         T[last + 3] = [ik, im, ij, jm]
-- 
2.43.0


From 61f6e818e65d7fceac48bd5acb5a5ae458c9acae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:32 +0000
Subject: [PATCH 15/47] fix: traction forces must integrate the load over the
 whole triangle, they added up to half of area times load

---
 rainbow/simulators/prox_soft_bodies/solver.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/rainbow/simulators/prox_soft_bodies/solver.py b/rainbow/simulators/prox_soft_bodies/solver.py
index e1dc018..757f2aa 100644
--- a/rainbow/simulators/prox_soft_bodies/solver.py
+++ b/rainbow/simulators/prox_soft_bodies/solver.py
@@ -337,19 +337,22 @@ class Native:
             #   L = 1 / 24  *  [ 2*I_3x3    I_3x3   I_3x3;
             #                      I_3x3  2*I_3x3   I_3x3;
             #                      I_3x3    I_3x3 2*I_3x3; ]
+            #
+            #  The integral is over a reference triangle of area 1/2, the change of variables to the
+            #  surface triangle contributes a factor 2 A.
             # --- The spatial load force
             #
-            #     lf(f) = A(f) * L * [li; lj; lk]
+            #     lf(f) = 2 A(f) * L * [li; lj; lk]
             #
             #   where load = (li,lj,lk) is the applied surface traction.
             load = traction.traction
-            Ft[traction.i] += (A / 24) * (
+            Ft[traction.i] += (A / 12) * (
                 2 * np.dot(Id, load) + np.dot(Id, load) + np.dot(Id, load)
             )
-            Ft[traction.j] += (A / 24) * (
+            Ft[traction.j] += (A / 12) * (
                 np.dot(Id, load) + 2 * np.dot(Id, load) + np.dot(Id, load)
             )
-            Ft[traction.k] += (A / 24) * (
+            Ft[traction.k] += (A / 12) * (
                 np.dot(Id, load) + np.dot(Id, load) + 2 * np.dot(Id, load)
             )
         return Ft
-- 
2.43.0


From 2cbd88cd71f66dd22d65895ae88c4cf57719b785 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:32 +0000
Subject: [PATCH 16/47] fix: a fixed soft body must not move

---
 rainbow/simulators/prox_soft_bodies/solver.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/rainbow/simulators/prox_soft_bodies/solver.py b/rainbow/simulators/prox_soft_bodies/solver.py
index 757f2aa..515ac13 100644
--- a/rainbow/simulators/prox_soft_bodies/solver.py
+++ b/rainbow/simulators/prox_soft_bodies/solver.py
@@ -1024,6 +1024,8 @@ def apply_boundary_conditions_on_velocities(u: np.array, engine) -> None:
     :param engine:      The current engine instance we are working with.
     """
     for body in engine.bodies.values():
+        if body.is_fixed:
+            u[body.offset : body.offset + len(body.x)] = 0.0
         if len(body.dirichlet_conditions) > 0:
             # 2022-03-24 Kenny: TODO This is performance wise not the best
             #                    way to do it. Indices could be precomputed.
-- 
2.43.0


From 4a81d02d40fed869880a2c1bbb07073d1f7507eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:48 +0000
Subject: [PATCH 17/47] fix: soft body post-stabilization must use four rows
 per contact and nodal displacements, it always raised an error

---
 rainbow/simulators/prox_soft_bodies/solver.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/rainbow/simulators/prox_soft_bodies/solver.py b/rainbow/simulators/prox_soft_bodies/solver.py
index 515ac13..45dea1d 100644
--- a/rainbow/simulators/prox_soft_bodies/solver.py
+++ b/rainbow/simulators/prox_soft_bodies/solver.py
@@ -966,11 +966,11 @@ def apply_post_stabilization(J, WJT, engine, stats, debug_on):
         timer = Timer("apply_post_stabilization")
         timer.start()
     K = len(engine.contact_points)
-    g = np.zeros(3 * K, dtype=np.float64)
+    g = np.zeros(4 * K, dtype=np.float64)
     for k in range(K):
         cp = engine.contact_points[k]
         if cp.g < -engine.params.min_gap_value:
-            g[3 * k + 0] = cp.g
+            g[4 * k + 0] = cp.g
 
     # If the gap to correct is all zeros, then just return
     if not g.any():
@@ -987,9 +987,12 @@ def apply_post_stabilization(J, WJT, engine, stats, debug_on):
     # TODO 2021-12-07 Kenny: This seems a bit silly to make this conversion. It should be abstracted
     #  away such that a developer can focus more on the high-level aspects of time integration and
     #  writing solver code.
-    np.reshape(delta_x, (-1, 3))
+    delta_x = np.reshape(delta_x, (-1, 3))
     # ---------------------------------------------------------------------
 
+    # Fixed bodies and nodes with Dirichlet conditions keep their positions.
+    apply_boundary_conditions_on_velocities(delta_x, engine)
+
     x = get_position_vector(engine)
     x += delta_x
     set_position_vector(x, engine)
-- 
2.43.0


From ee578857db1e0e8488098eccf7167949733b50ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:00 +0000
Subject: [PATCH 18/47] fix: changing density or viscosity of a soft material
 must reach the bodies made of it

---
 rainbow/simulators/prox_soft_bodies/api.py | 34 ++++++++++++++++------
 1 file changed, 25 insertions(+), 9 deletions(-)

diff --git a/rainbow/simulators/prox_soft_bodies/api.py b/rainbow/simulators/prox_soft_bodies/api.py
index 704f4ed..d2393fd 100644
--- a/rainbow/simulators/prox_soft_bodies/api.py
+++ b/rainbow/simulators/prox_soft_bodies/api.py
@@ -263,6 +263,24 @@ def create_material(engine, material_name) -> None:
     engine.materials[material_name] = material
 
 
+def _compute_element_arrays(body) -> None:
+    """
+    Compute the mass and damping element arrays of a body from its current material.
+
+    :param body:    The soft body to compute arrays for.
+    :return:        Nothing.
+    """
+    body.M_array = SOLVER.Native.compute_mass_element_array(
+        body.material_description.rho,
+        body.vol0,
+        body.T,
+        body.is_lumped
+    )
+    body.C_array = SOLVER.Native.compute_damping_element_array(
+        body.material_description.c, body.vol0, body.T, body.is_lumped
+    )
+
+
 def set_material(engine, body_name, material_name) -> None:
     """
     Assign the given material to the given body.
@@ -279,15 +297,7 @@ def set_material(engine, body_name, material_name) -> None:
         raise ValueError("Engine did not have a material with name ", material_name)
     material = engine.materials[material_name]
     body.material_description = material
-    body.M_array = SOLVER.Native.compute_mass_element_array(
-        body.material_description.rho,
-        body.vol0,
-        body.T,
-        body.is_lumped
-    )
-    body.C_array = SOLVER.Native.compute_damping_element_array(
-        body.material_description.c, body.vol0, body.T, body.is_lumped
-    )
+    _compute_element_arrays(body)
 
 
 def set_elasticity(engine, material_name, E, nu) -> None:
@@ -326,6 +336,9 @@ def set_viscosity(engine, material_name, c) -> None:
         raise ValueError("c must be non-negative")
     material = engine.materials[material_name]
     material.c = c
+    for body in engine.bodies.values():
+        if body.material_description is material:
+            _compute_element_arrays(body)
 
 
 def set_mass_density(engine, material_name, rho) -> None:
@@ -343,6 +356,9 @@ def set_mass_density(engine, material_name, rho) -> None:
         raise ValueError("rho must be non-negative")
     material = engine.materials[material_name]
     material.rho = rho
+    for body in engine.bodies.values():
+        if body.material_description is material:
+            _compute_element_arrays(body)
 
 
 def set_constitutive_model(engine, material_name, model) -> None:
-- 
2.43.0


From 8b525450846589b9bb50a8432c30c96a178d84cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:00 +0000
Subject: [PATCH 19/47] fix: soft stepper must not use the inverse mass matrix
 of an older set of bodies

---
 rainbow/simulators/prox_soft_bodies/solver.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/rainbow/simulators/prox_soft_bodies/solver.py b/rainbow/simulators/prox_soft_bodies/solver.py
index 45dea1d..7ff3250 100644
--- a/rainbow/simulators/prox_soft_bodies/solver.py
+++ b/rainbow/simulators/prox_soft_bodies/solver.py
@@ -1044,6 +1044,7 @@ class SemiImplicitStepper:
         self.log = []
         stats = {}
         self.W = compute_inverse_mass_matrix(engine, stats, debug_on)
+        self.M_arrays = [body.M_array for body in engine.bodies.values()]
         if debug_on:
             self.log.append(stats)
 
@@ -1074,6 +1075,14 @@ class SemiImplicitStepper:
 
         stats = {}
 
+        # The inverse mass matrix is reused as long as the bodies and their masses stay the same.
+        M_arrays = [body.M_array for body in engine.bodies.values()]
+        if len(M_arrays) != len(self.M_arrays) or any(
+            new is not old for new, old in zip(M_arrays, self.M_arrays)
+        ):
+            self.W = compute_inverse_mass_matrix(engine, stats, debug_on)
+            self.M_arrays = M_arrays
+
         x = get_position_vector(engine)
         apply_boundary_conditions_on_positions(x, engine)
 
-- 
2.43.0


From 52dca4414fbefc7c0a437ea8497a9b1dc0fc97de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:00 +0000
Subject: [PATCH 20/47] fix: a soft body that can not be created must not stay
 in the engine

---
 rainbow/simulators/prox_soft_bodies/api.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/rainbow/simulators/prox_soft_bodies/api.py b/rainbow/simulators/prox_soft_bodies/api.py
index d2393fd..e6a9a47 100644
--- a/rainbow/simulators/prox_soft_bodies/api.py
+++ b/rainbow/simulators/prox_soft_bodies/api.py
@@ -37,7 +37,6 @@ def create_soft_body(engine, body_name, V, T) -> None:
     # Create body
     body = SoftBody(body_name)
     body.idx = len(engine.bodies)
-    engine.bodies[body_name] = body
 
     # Improve spatial/memory layout of volume mesh
     axis = FUNC.direction_of_most_variance(V)
@@ -97,7 +96,9 @@ def create_soft_body(engine, body_name, V, T) -> None:
     body.offset = engine.number_of_nodes
     engine.number_of_nodes += len(body.x0)
 
-    
+    # The engine gets to know the body when all of the above has succeeded.
+    engine.bodies[body_name] = body
+
 
 def create_dirichlet_conditions(engine, body_name, phi) -> None:
     """
-- 
2.43.0


From 13d933630d5e112f7c816f018fb2ccda5a1f35bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:01 +0000
Subject: [PATCH 21/47] fix: a soft body without an assigned material must use
 the default material instead of failing in simulate

---
 rainbow/simulators/prox_soft_bodies/api.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/rainbow/simulators/prox_soft_bodies/api.py b/rainbow/simulators/prox_soft_bodies/api.py
index e6a9a47..db30d2f 100644
--- a/rainbow/simulators/prox_soft_bodies/api.py
+++ b/rainbow/simulators/prox_soft_bodies/api.py
@@ -98,6 +98,7 @@ def create_soft_body(engine, body_name, V, T) -> None:
 
     # The engine gets to know the body when all of the above has succeeded.
     engine.bodies[body_name] = body
+    set_material(engine, body_name, "default")
 
 
 def create_dirichlet_conditions(engine, body_name, phi) -> None:
-- 
2.43.0


From adf3028dd2ea70bd7742a7464a2c9dadb20c43b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:01 +0000
Subject: [PATCH 22/47] fix: soft contacts between materials without a
 described interaction must use the default interaction, not fail

---
 rainbow/simulators/prox_soft_bodies/types.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rainbow/simulators/prox_soft_bodies/types.py b/rainbow/simulators/prox_soft_bodies/types.py
index 39cad06..f06f25d 100644
--- a/rainbow/simulators/prox_soft_bodies/types.py
+++ b/rainbow/simulators/prox_soft_bodies/types.py
@@ -35,7 +35,7 @@ class SurfacesInteractionLibrary:
         key = (A, B) if A < B else (B, A)
         if key in self.storage:
             return self.storage[key]
-        return None
+        return self.storage[("default", "default")]
 
     def exist_interaction(self, A, B):
         """
-- 
2.43.0


From c0dc1eed33cb5944dd1fee018135f300195c9a0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:02:55 +0000
Subject: [PATCH 23/47] fix: soft contact generation must not discard points
 within 0.5 length units of the SDF grid boundary

---
 rainbow/simulators/prox_soft_bodies/collision_detection.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rainbow/simulators/prox_soft_bodies/collision_detection.py b/rainbow/simulators/prox_soft_bodies/collision_detection.py
index 49723f4..bda51cd 100644
--- a/rainbow/simulators/prox_soft_bodies/collision_detection.py
+++ b/rainbow/simulators/prox_soft_bodies/collision_detection.py
@@ -348,7 +348,7 @@ def _compute_contacts(engine, stats, bodyA, bodyB, results, debug_on):
         # We have now optimized for the deepest penetrating point on the triangle, and now we can use this
         # point and the SDF from body B to generate a contact point between body A and body B. First we test
         # if our triangle point is even inside axis aligned bounding box (AABB) around the SDF of body B.
-        if GRID.is_inside(bodyB.grid, x_i):
+        if GRID.is_inside(bodyB.grid, x_i, boundary=0.0):
             # If we are inside the AABB then we look up the actual SDF value at the point. If the SDF value
             # is non-positive then we know we have a "true" contact point.
             phi = GRID.get_value(bodyB.grid, x_i)
-- 
2.43.0


From b36a26841ba3e3bcd50d9a9d8a5c9c408f8bbc81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:02:55 +0000
Subject: [PATCH 24/47] fix: soft contact normals must be mapped to world space
 with the inverse transpose of the deformation gradient

---
 rainbow/simulators/prox_soft_bodies/collision_detection.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rainbow/simulators/prox_soft_bodies/collision_detection.py b/rainbow/simulators/prox_soft_bodies/collision_detection.py
index bda51cd..9eea53e 100644
--- a/rainbow/simulators/prox_soft_bodies/collision_detection.py
+++ b/rainbow/simulators/prox_soft_bodies/collision_detection.py
@@ -263,7 +263,8 @@ def _xform_contact_to_world(p, n, XA, XB, X0B):
     omegaA = BC.compute_barycentric_tetrahedron(XA[0], XA[1], XA[2], XA[3], p)
     D = XB[0:3] - XB[3]
     D0 = X0B[0:3] - X0B[3]
-    n = D.dot(np.linalg.solve(D0, n))
+    # Normals transform with the inverse transpose of the deformation gradient F = (D0^{-1} D)^T
+    n = np.linalg.solve(D, D0.dot(n))
     return p, n, omegaA, omegaB
 
 
-- 
2.43.0


From 8831d1ada2ea1f666c040dad3184e434e67e229d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:02:55 +0000
Subject: [PATCH 25/47] fix: spatial hashing must inflate triangle bounds by
 the collision envelope, like the BVH does

---
 rainbow/simulators/prox_soft_bodies/collision_detection.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/rainbow/simulators/prox_soft_bodies/collision_detection.py b/rainbow/simulators/prox_soft_bodies/collision_detection.py
index 9eea53e..7b227ff 100644
--- a/rainbow/simulators/prox_soft_bodies/collision_detection.py
+++ b/rainbow/simulators/prox_soft_bodies/collision_detection.py
@@ -146,8 +146,9 @@ def _spatial_hashing_narrow_phase(engine, stats, debug_on):
     for body in engine.bodies.values():
         tri_vertices = body.x[body.surface, :]
         # Compute the AABB of each triangle by vectorizing the min/max operation
-        tri_aabb_min = np.min(tri_vertices, axis=1)
-        tri_aabb_max = np.max(tri_vertices, axis=1)
+        # and inflate it by the collision envelope, just like the leaf volumes of the BVH are
+        tri_aabb_min = np.min(tri_vertices, axis=1) - engine.params.envelope
+        tri_aabb_max = np.max(tri_vertices, axis=1) + engine.params.envelope
         cell_min = (tri_aabb_min / cell_size).astype(int)
         cell_max = (tri_aabb_max / cell_size).astype(int) + 1
 
-- 
2.43.0


From fe52c597fb464b7fea3f8da4783e869424be6220 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:03:10 +0000
Subject: [PATCH 26/47] fix: soft contact optimization must not stop after one
 step, its break test used the vertex position instead of the descent

---
 .../simulators/prox_soft_bodies/collision_detection.py   | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/rainbow/simulators/prox_soft_bodies/collision_detection.py b/rainbow/simulators/prox_soft_bodies/collision_detection.py
index 7b227ff..141bbbf 100644
--- a/rainbow/simulators/prox_soft_bodies/collision_detection.py
+++ b/rainbow/simulators/prox_soft_bodies/collision_detection.py
@@ -337,12 +337,13 @@ def _compute_contacts(engine, stats, bodyA, bodyB, results, debug_on):
             # in the direction of 's_i'. The step-size that we update 'x_i' with is given by alpha.
             # We decrease the value of alpha as we iterate to ensure we do not overstep our minimizer.
             alpha = 2 / (i + 2)
+            slope = np.dot(s_i - x_i, GRID.get_gradient(bodyB.grid, x_i))
             x_i = x_i + alpha * (s_i - x_i)
             # Before continuing to the next iterate we check for convergence to see if we can make
-            # an early exit. We use a simple tolerance test. Note that our "objective" is more like the directional
-            # derivative. Hence, if the smallest directional derivative gets slightly positive then it means we will
-            # move away from the "minimizer" and we can not find any other corner point with a better descent direction.
-            if objectives[vertex] > engine.params.contact_optimization_tolerance:
+            # an early exit. We use a simple tolerance test. The directional derivative from the old 'x_i' towards
+            # 's_i' tells how much the linear model can decrease. Hence, if it is not sufficiently negative then there
+            # is no other corner point with a better descent direction.
+            if slope > -engine.params.contact_optimization_tolerance:
                 break
         if debug_on:
             contact_optimization_timer.end()
-- 
2.43.0


From fcb263d7e7b6430c42445c4e06526b517f421ef8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:05:08 +0000
Subject: [PATCH 27/47] fix: triangles share a vertex only if a whole vertex is
 the same, not a single coordinate

---
 rainbow/simulators/prox_soft_bodies/collision_detection.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/rainbow/simulators/prox_soft_bodies/collision_detection.py b/rainbow/simulators/prox_soft_bodies/collision_detection.py
index 141bbbf..aee245e 100644
--- a/rainbow/simulators/prox_soft_bodies/collision_detection.py
+++ b/rainbow/simulators/prox_soft_bodies/collision_detection.py
@@ -50,7 +50,9 @@ def _is_share_vertex(tri1, tri2):
     Returns:
         bool: True if the two triangles share a vertex, False otherwise
     """
-    return len(np.intersect1d(np.array(tri1), np.array(tri2))) > 0
+    # Two triangles share a vertex if all three coordinates of the vertices agree
+    same = np.array(tri1)[:, None, :] == np.array(tri2)[None, :, :]
+    return bool(np.any(np.all(same, axis=2)))
 
 
 def _triangle_intersection(tri1, tri2):
-- 
2.43.0


From 5165a98df520a86471c1cf7cf5a8facd07fcae4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:05:08 +0000
Subject: [PATCH 28/47] fix: triangle intersection test of soft body
 self-collision missed crossings and reported separated triangles

---
 .../prox_soft_bodies/collision_detection.py   | 67 ++++++++++---------
 1 file changed, 34 insertions(+), 33 deletions(-)

diff --git a/rainbow/simulators/prox_soft_bodies/collision_detection.py b/rainbow/simulators/prox_soft_bodies/collision_detection.py
index aee245e..db0b416 100644
--- a/rainbow/simulators/prox_soft_bodies/collision_detection.py
+++ b/rainbow/simulators/prox_soft_bodies/collision_detection.py
@@ -59,11 +59,11 @@ def _triangle_intersection(tri1, tri2):
     """ Test if two triangles of a same body intersect
         To achieve performance, this function is adapted from Moller-Trumbore intersection algorithm,
         which is described in https://en.wikipedia.org/wiki/M%C3%B6ller%E2%80%93Trumbore_intersection_algorithm.
-        The idea is to check if the intersection point of the two triangles is inside both triangles.
-        Steps:
-        1. Check if the two triangles are parallel or not, if they are parallel, return False
-        2. Check if the intersection point is inside the first triangle, if not, return False
-        3. Check if the intersection point is inside the second triangle, if inside, return True, otherwise return False
+        The idea is to check if an edge of one of the triangles passes through the other triangle.
+        Steps (for each edge of the two triangles):
+        1. Check if the edge and the other triangle are parallel or not, if they are parallel, skip the edge
+        2. Check if the intersection point with the plane is inside the other triangle, if not, skip the edge
+        3. Check if the intersection point is on the edge, if so, return True
         
     Args:
         tri1 (ArrayLike): coordinates of the first triangle
@@ -72,34 +72,35 @@ def _triangle_intersection(tri1, tri2):
     Returns:
         bool: True if the two triangles intersect, False otherwise
     """
-    v1, v2, v3 = tri1
-    u1, u2, u3 = tri2
-
-    e1 = v2 - v1
-    e2 = v3 - v1
-    normal_tri2 = np.cross(u2 - u1, u3 - u1)
-    a = np.dot(e1, normal_tri2)
-
-    # Check if the two triangles are parallel or not
-    if a > -np.finfo(float).eps and a < np.finfo(float).eps:
-        return False 
-
-    # Check the intersection point is inside the triangle(tri1)
-    f = 1.0/a
-    s = u1 - v1
-    u = f * np.dot(s, normal_tri2)
-    if u < 0.0 or u > 1.0:
-        return False
-
-    q = np.cross(s, e1)
-    v = f * np.dot(u2 - u1, q)
-    if v < 0.0 or u + v > 1.0:
-        return False
-
-    # Check the intersection point is also inside the other triangle(tri2)
-    t = f * np.dot(e2, q)
-    if t > np.finfo(float).eps:
-        return True
+    # Two non-parallel triangles intersect if and only if an edge of one of them passes through the other one
+    for edges, (v1, v2, v3) in ((tri1, tri2), (tri2, tri1)):
+        e1 = v2 - v1
+        e2 = v3 - v1
+        for k in range(3):
+            origin = edges[k]
+            direction = edges[(k + 1) % 3] - origin
+
+            h = np.cross(direction, e2)
+            a = np.dot(e1, h)
+            # Check if the edge is parallel to the triangle or not, relative to the size of the triangles
+            if abs(a) <= 1e-10 * np.linalg.norm(e1) * np.linalg.norm(e2) * np.linalg.norm(direction):
+                continue
+
+            # Check the intersection point is inside the triangle
+            f = 1.0/a
+            s = origin - v1
+            u = f * np.dot(s, h)
+            if u < 0.0 or u > 1.0:
+                continue
+            q = np.cross(s, e1)
+            v = f * np.dot(direction, q)
+            if v < 0.0 or u + v > 1.0:
+                continue
+
+            # Check the intersection point is also on the edge
+            t = f * np.dot(e2, q)
+            if t >= 0.0 and t <= 1.0:
+                return True
 
     return False
 
-- 
2.43.0


From 832a43afe0dbc0c56fcfece2a3966344c4063373 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:51:44 +0000
Subject: [PATCH 29/47] fix: contact solver must treat fixed soft bodies and
 Dirichlet nodes as immovable

---
 rainbow/simulators/prox_soft_bodies/solver.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/rainbow/simulators/prox_soft_bodies/solver.py b/rainbow/simulators/prox_soft_bodies/solver.py
index 7ff3250..109becf 100644
--- a/rainbow/simulators/prox_soft_bodies/solver.py
+++ b/rainbow/simulators/prox_soft_bodies/solver.py
@@ -1125,7 +1125,12 @@ class SemiImplicitStepper:
         if len(engine.contact_points) > 0:
 
             J = compute_jacobian_matrix(engine, stats, debug_on)
-            WJT = self.W.dot(J.T)
+            # Fixed bodies and nodes with Dirichlet conditions do not move, hence contact impulses must be solved
+            # for as if these nodes have infinite mass and a vanishing velocity.
+            free = np.ones((engine.number_of_nodes, 3), dtype=np.float64)
+            apply_boundary_conditions_on_velocities(free, engine)
+            WJT = sparse.diags(np.reshape(free, (-1))).dot(self.W.dot(J.T)).tocsr()
+            u_prime = u_prime * np.reshape(free, (-1))
 
             if engine.params.use_pre_stabilization:
                 raise ValueError("Pre-stabilization has not been implemented")
-- 
2.43.0


From beb00a8284c0654b49144a3d243a78c5362ae360 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:34:39 +0000
Subject: [PATCH 30/47] fix: interior sample points of a tetrahedron have four
 non-zero barycentric coordinates

---
 rainbow/geometry/tetrahedron.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rainbow/geometry/tetrahedron.py b/rainbow/geometry/tetrahedron.py
index 6848b86..cfb8718 100644
--- a/rainbow/geometry/tetrahedron.py
+++ b/rainbow/geometry/tetrahedron.py
@@ -240,4 +240,4 @@ def generate_interior_sample_points(N):
              iso-parametric tetrahedron.
     """
     S = generate_sample_points(N)
-    return S[np.count_nonzero(S, axis=1) == 3]
+    return S[np.count_nonzero(S, axis=1) == 4]
-- 
2.43.0


From 6be2a6872a23533a3d68fee32a2561d487a66721 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:49:22 +0000
Subject: [PATCH 31/47] fix: Euler angles of a rotation with vertical x-axis
 must not be extracted from rounding errors

---
 rainbow/math/euler.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/rainbow/math/euler.py b/rainbow/math/euler.py
index f62b8d5..86680bd 100644
--- a/rainbow/math/euler.py
+++ b/rainbow/math/euler.py
@@ -18,11 +18,13 @@ def make_euler_xyz_from_matrix(R):
     r21 = R[2, 1]
     r22 = R[2, 2]
 
-    if r20 >= 1.0:
+    # When the y-rotation is plus or minus 90 degrees only the sum or difference of the two other rotations
+    # is determined, and the entries used below to extract them are nothing but rounding errors.
+    if r20 >= 1.0 - 1e-14:
         rz = atan2(-r01, -r02)
         ry = -pi / 2.0
         rx = 0.0
-    elif r20 <= -1.0:
+    elif r20 <= -1.0 + 1e-14:
         rz = atan2(-r01, r02)
         ry = pi / 2.0
         rx = 0.0
-- 
2.43.0


From f8991cabca7824846d4b30674c60828608c70fda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:49:22 +0000
Subject: [PATCH 32/47] fix: slerp between nearly opposite quaternions must
 interpolate along the short arc

---
 rainbow/math/quaternion.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rainbow/math/quaternion.py b/rainbow/math/quaternion.py
index 610d029..02a1af9 100644
--- a/rainbow/math/quaternion.py
+++ b/rainbow/math/quaternion.py
@@ -319,7 +319,7 @@ def slerp(a, b, t):
     small_angle_threshold = 0.9999999
 
     if dot > small_angle_threshold:
-        return unit(lerp(a, b, t))
+        return unit(lerp(-a if flip else a, b, t))
 
     omega = acos(dot)
     sin_omega = sin(omega)
-- 
2.43.0


From 09c87f1337e87b21b76dfb5f85bf07cbe589e2f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:49:22 +0000
Subject: [PATCH 33/47] fix: ortonormalize must not change the matrix it is
 given

---
 rainbow/math/matrix3.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rainbow/math/matrix3.py b/rainbow/math/matrix3.py
index 6e09ba1..f5b6e37 100644
--- a/rainbow/math/matrix3.py
+++ b/rainbow/math/matrix3.py
@@ -53,8 +53,8 @@ def star(v):
 
 
 def ortonormalize(A):
-    row0 = A[0, :]
-    row1 = A[1, :]
+    row0 = np.array(A[0, :], dtype=np.float64)
+    row1 = np.array(A[1, :], dtype=np.float64)
     l0 = np.linalg.norm(row0)
     if l0 > 0.0:
         row0 /= l0
-- 
2.43.0


From 6bbe62b3e50175bf453ead14a2508fb53e4414fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:50:24 +0000
Subject: [PATCH 34/47] fix: number strings may have zeros after the decimal
 point and in the exponent

---
 rainbow/util/parse_string.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/rainbow/util/parse_string.py b/rainbow/util/parse_string.py
index da2b387..9d8df6e 100644
--- a/rainbow/util/parse_string.py
+++ b/rainbow/util/parse_string.py
@@ -8,11 +8,13 @@ import pyparsing as pp
 '''
 
 Integer          = pp.Regex("([1-9]\d*|0)")
-Float            = Integer + "." + Integer
+Digits           = pp.Regex("\\d+")
+Float            = Integer + "." + Digits
 Number_unsigned  = (Float | Integer)
 Number_signed    = ("-" + Number_unsigned | Number_unsigned)
-Number_pos_scientific  = Number_signed + "e" + "+" + Number_unsigned
-Number_neg_scientific  = Number_signed + "e" + "-" + Number_unsigned
+Exponent               = (Float | Digits)
+Number_pos_scientific  = Number_signed + "e" + "+" + Exponent
+Number_neg_scientific  = Number_signed + "e" + "-" + Exponent
 Number_scientific      = (Number_pos_scientific | Number_neg_scientific)
 Number                 = (Number_scientific | Number_signed)
 Letters  = pp.Word(pp.alphas)
-- 
2.43.0


From 12e20eb59d51ac34d5ff46249702790f8fba2322 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:55:07 +0000
Subject: [PATCH 35/47] fix: logarithm of the identity quaternion is the zero
 vector

---
 rainbow/math/expmap.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/rainbow/math/expmap.py b/rainbow/math/expmap.py
index 50442c5..f1ca747 100644
--- a/rainbow/math/expmap.py
+++ b/rainbow/math/expmap.py
@@ -1,7 +1,7 @@
 import rainbow.math.matrix3 as M3
 import rainbow.math.vector3 as V3
 import rainbow.math.quaternion as Q
-from math import cos, sin, pi, acos, fmod, fabs
+from math import cos, sin, pi, atan2, fmod, fabs
 from numpy import tan
 
 
@@ -90,15 +90,15 @@ def log(q):
         #
         # Let
         #
-        #    t = theta/2  = acos(s)
+        #    t = theta/2  = atan2(|w|, s)
         #    n = w / sin(t)
         #    v = 2*t*n = 2*t*w / sin(t)
         #
         # If q is the identity quaternion the log(q) should map to zero vector. Recall that
         # identity is given by q = [1 0 0 0] the above works for this.
-        t = acos(q[0])
-        s = sin(t)
-        f = 2 * t / s
+        s = V3.norm(q[1:])
+        t = atan2(s, q[0])
+        f = 2 * t / s if s > 0.0 else 2.0
         return V3.make(f * q[1], f * q[2], f * q[3])
     return V3.zero()
 
-- 
2.43.0


From 9c9c4c3d44c9641079509d5c755f0e860cb55589 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:55:07 +0000
Subject: [PATCH 36/47] fix: derivative of rotation matrix has wrong sign for
 rotation vectors longer than pi

---
 rainbow/math/expmap.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rainbow/math/expmap.py b/rainbow/math/expmap.py
index f1ca747..ec80225 100644
--- a/rainbow/math/expmap.py
+++ b/rainbow/math/expmap.py
@@ -225,7 +225,7 @@ def dRdv_i(v, i):
     :param i:
     :return:
     """
-    q = exp(v)
+    q = exp(v, False)  # Same parameterization as used by dQdv_i, otherwise the sign of q can be different
     dQdvi = dQdv_i(v, i)
     dRdvi = __dRdv_i(q, dQdvi)
     return dRdvi
\ No newline at end of file
-- 
2.43.0


From e1632088aab461eff169c56c95601b34ac552f75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:04:04 +0000
Subject: [PATCH 37/47] fix: direction of most variance is an eigenvector, that
 is a column of the matrix of eigenvectors

---
 rainbow/math/functions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rainbow/math/functions.py b/rainbow/math/functions.py
index 8b2c133..0cef8f0 100644
--- a/rainbow/math/functions.py
+++ b/rainbow/math/functions.py
@@ -45,4 +45,4 @@ def direction_of_most_variance(P):
     """
     _, values, vectors = PCA(P)            # Returns eigenvalue not sorted
     largest_eigenv_idx = np.argmax(values)
-    return vectors[largest_eigenv_idx]
+    return vectors[:, largest_eigenv_idx]  # Eigenvectors are stored as columns
-- 
2.43.0


From c9ddf8af69f54e2afb5df813ace48a26cab9d9a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:04:05 +0000
Subject: [PATCH 38/47] fix: text of a polynomial lost the sign of its first
 term

---
 rainbow/math/polynomial.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rainbow/math/polynomial.py b/rainbow/math/polynomial.py
index 7a096fd..6158188 100644
--- a/rainbow/math/polynomial.py
+++ b/rainbow/math/polynomial.py
@@ -314,8 +314,8 @@ def to_str(P: Poly) -> str:
         if len(polynomial) > 0:
             if len(term) > 0:
                 polynomial += " " + sign + " " + term
-        else:
-            polynomial = term
+        elif len(term) > 0:
+            polynomial = "-" + term if sign == "-" else term
     return polynomial
 
 
-- 
2.43.0


From a2d05b02ac1fc0c01f53d6fd8b6aa832a4544dff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:25:29 +0000
Subject: [PATCH 39/47] fix: second derivatives of the inverse kinematics
 objective were transposed and wrong within a bone

---
 rainbow/simulators/inverse_kinematics/api.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/rainbow/simulators/inverse_kinematics/api.py b/rainbow/simulators/inverse_kinematics/api.py
index 66f7558..d3976c5 100644
--- a/rainbow/simulators/inverse_kinematics/api.py
+++ b/rainbow/simulators/inverse_kinematics/api.py
@@ -339,10 +339,14 @@ def compute_hessian(chains, skeleton, J):
                 vc = np.dot(V3.cross(v, J_c), r)
                 wc = np.dot(V3.cross(w, J_c), r)
 
+                # The row of dH is the angle of bone h and the column is the angle of bone k. For two angles of the
+                # same bone the axis of the first angle turns the axis of the second.
+                if h == k:
+                    va, wa, wb = ub, uc, vc
                 dH = np.array(
-                    [[ua, va, wa],
-                     [ub, vb, wb],
-                     [uc, vc, wc]]
+                    [[ua, ub, uc],
+                     [va, vb, vc],
+                     [wa, wb, wc]]
                 )
 
                 H[h_offset:h_offset + 3, k_offset:k_offset + 3] -= dH
-- 
2.43.0


From e412bfd5498aae782690c169a535e44a7e25db0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:25:29 +0000
Subject: [PATCH 40/47] fix: finite differences of the inverse kinematics
 objective must not leave the poses of perturbed angles

---
 rainbow/simulators/inverse_kinematics/api.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/rainbow/simulators/inverse_kinematics/api.py b/rainbow/simulators/inverse_kinematics/api.py
index d3976c5..210f81e 100644
--- a/rainbow/simulators/inverse_kinematics/api.py
+++ b/rainbow/simulators/inverse_kinematics/api.py
@@ -533,6 +533,7 @@ def compute_finite_difference_gradient(chains, skeleton, h=0.1):
     g = np.zeros((N,), dtype=np.float64)
     for i in range(N):
         g[i] = __numerical_differentiation_first_derivative(chains, skeleton, i, h)
+    update_skeleton(skeleton)  # Do not leave the poses of the last perturbed angles behind.
     return g
 
 
@@ -555,5 +556,6 @@ def compute_finite_difference_hessian(chains, skeleton, h=0.1):
     for i in range(N):
         for j in range(N):
             H[i, j] = __numerical_differentiation_second_derivative(chains, skeleton, i, j, h)
+    update_skeleton(skeleton)  # Do not leave the poses of the last perturbed angles behind.
     return H
 
-- 
2.43.0


From 7afd1f86315711f5fb19213e8335fa33290e6716 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:07:08 +0000
Subject: [PATCH 41/47] fix: principal axes of bodies with equal moments of
 inertia are orthogonal

---
 rainbow/simulators/prox_rigid_bodies/mass.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rainbow/simulators/prox_rigid_bodies/mass.py b/rainbow/simulators/prox_rigid_bodies/mass.py
index a35d75c..0e52f7c 100644
--- a/rainbow/simulators/prox_rigid_bodies/mass.py
+++ b/rainbow/simulators/prox_rigid_bodies/mass.py
@@ -301,7 +301,8 @@ def __rotate_to_model_space_orientation(prop: MassProperties) -> tuple[np.ndarra
         prop.Izz,
     )
 
-    d, R = np.linalg.eig(A)
+    # A is symmetric. The general eigenvalue solver does not give orthogonal axes when moments are equal.
+    d, R = np.linalg.eigh(A)
 
     permutations = [[0, 1, 2], [0, 2, 1], [1, 0, 2], [2, 0, 1], [1, 2, 0], [2, 1, 0]]
 
-- 
2.43.0


From f2145171ae8beebd3b173b40533182201a0a5779 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:07:08 +0000
Subject: [PATCH 42/47] fix: small bodies keep their mass and moments of
 inertia

---
 rainbow/simulators/prox_rigid_bodies/mass.py | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/rainbow/simulators/prox_rigid_bodies/mass.py b/rainbow/simulators/prox_rigid_bodies/mass.py
index 0e52f7c..929f192 100644
--- a/rainbow/simulators/prox_rigid_bodies/mass.py
+++ b/rainbow/simulators/prox_rigid_bodies/mass.py
@@ -268,15 +268,13 @@ def compute_mass_properties(V: np.ndarray, T: np.ndarray, density: float) -> Mas
             "compute_mass_properties(): internal error, bad mesh encountered"
         )
     # We clamp computed values to zero if they are very tiny numbers.
-    # This is mainly due to making inertia tensor more human-readable when printing it.
-    too_small = 1.0e-10
-    prop.mass = prop.mass if prop.mass > too_small else 0.0
-    prop.Ixx = prop.Ixx if prop.Ixx > too_small else 0.0
-    prop.Iyy = prop.Iyy if prop.Iyy > too_small else 0.0
-    prop.Izz = prop.Izz if prop.Izz > too_small else 0.0
+    # This is mainly due to making inertia tensor more human-readable when printing it. What is tiny
+    # depends on the size of the body, the mass and moments of a small body are tiny themselves.
+    too_small = 1.0e-10 * max(prop.Ixx, prop.Iyy, prop.Izz)
     prop.Ixy = prop.Ixy if abs(prop.Ixy) > too_small else 0.0
     prop.Iyz = prop.Iyz if abs(prop.Iyz) > too_small else 0.0
     prop.Ixz = prop.Ixz if abs(prop.Ixz) > too_small else 0.0
+    too_small = 1.0e-10
     prop.x = prop.x if abs(prop.x) > too_small else 0.0
     prop.y = prop.y if abs(prop.y) > too_small else 0.0
     prop.z = prop.z if abs(prop.z) > too_small else 0.0
@@ -347,7 +345,7 @@ def __translate_to_body_space_origin(prop_model: MassProperties) -> tuple[np.nda
     prop_body.Iyy = prop_model.Iyy - m * (x * x + z * z)
     prop_body.Izz = prop_model.Izz - m * (x * x + y * y)
 
-    too_small = 1.0e-10
+    too_small = 1.0e-10 * max(prop_body.Ixx, prop_body.Iyy, prop_body.Izz)
     prop_body.Ixy = prop_model.Ixy + m * (x * y)
     prop_body.Ixy = prop_body.Ixy if np.abs(prop_body.Ixy) > too_small else 0.0
     prop_body.Ixz = prop_model.Ixz + m * (x * z)
-- 
2.43.0


From e47a68ef5180e2eeaeeb8b65ef8d11336ce3bf4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:16:23 +0000
Subject: [PATCH 43/47] fix: spaces around a list of numbers do not make the
 text unreadable

---
 rainbow/math/quaternion.py | 2 +-
 rainbow/math/vector3.py    | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/rainbow/math/quaternion.py b/rainbow/math/quaternion.py
index 02a1af9..057bf78 100644
--- a/rainbow/math/quaternion.py
+++ b/rainbow/math/quaternion.py
@@ -29,7 +29,7 @@ def check_string(lower_value):
 
 def from_string(value):
 
-    value_lower = value.lower()
+    value_lower = value.lower().strip()
 
     assert check_string(value_lower)
 
diff --git a/rainbow/math/vector3.py b/rainbow/math/vector3.py
index bc4718c..a8a85d1 100644
--- a/rainbow/math/vector3.py
+++ b/rainbow/math/vector3.py
@@ -30,7 +30,7 @@ def check_string(lower_value):
     return parse.parse_string_to_random_range_check(lower_value)
 
 def from_string(value):
-    value_lower = value.lower()
+    value_lower = value.lower().strip()
 
     if value_lower == "ones":
         return ones()
-- 
2.43.0


From 777aafbd20876febd5be34d5e29e15d4ac52f3cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:39:25 +0000
Subject: [PATCH 44/47] fix: scenes with surface interactions can be written to
 XML

---
 rainbow/simulators/prox_rigid_bodies/scenes/write_xml.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rainbow/simulators/prox_rigid_bodies/scenes/write_xml.py b/rainbow/simulators/prox_rigid_bodies/scenes/write_xml.py
index ca91a25..13cd9f9 100644
--- a/rainbow/simulators/prox_rigid_bodies/scenes/write_xml.py
+++ b/rainbow/simulators/prox_rigid_bodies/scenes/write_xml.py
@@ -76,7 +76,7 @@ def write_xml(engine: TYPES.Engine, xml_filename: str) -> None:
     materials_xml_node = ET.SubElement(root, "materials")
     for key, interaction in engine.surfaces_interactions.storage.items():
         interaction_xml_node = ET.SubElement(materials_xml_node, "interaction")
-        interaction_xml_node.set("materials", key)
+        interaction_xml_node.set("materials", " ".join(key))
         interaction_xml_node.set("friction", np.array2string(interaction.mu))
         interaction_xml_node.set("restitution", str(interaction.epsilon))
 
-- 
2.43.0


From df795f38f6a1334c6a8709bbfdb9b7b5d1d0daca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:39:25 +0000
Subject: [PATCH 45/47] fix: the scale of a URDF collision mesh is applied

---
 rainbow/simulators/prox_rigid_bodies/scenes/read_urdf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rainbow/simulators/prox_rigid_bodies/scenes/read_urdf.py b/rainbow/simulators/prox_rigid_bodies/scenes/read_urdf.py
index daec884..2ad8705 100644
--- a/rainbow/simulators/prox_rigid_bodies/scenes/read_urdf.py
+++ b/rainbow/simulators/prox_rigid_bodies/scenes/read_urdf.py
@@ -238,7 +238,7 @@ def read_urdf(engine: TYPES.Engine, package_folder: str, urdf_file_path: str):
         X_c2b = X.make_coordsys_from_to(X_c2r, X_b2r)
         logger.info(f'{body_name} has collision frame to body from translation {X_c2b.r} and rotation {X_c2b.q}')
 
-        V = link['collision']['vertices']
+        V = link['collision']['vertices'] * link['collision']['scale']
         F = link['collision']['faces']
 
         # Next, we will make sure the mesh data lives in the body-space of the link
-- 
2.43.0


From 6e9f278e8eeeec7904e889f239005fbf66b1be68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:45:10 +0000
Subject: [PATCH 46/47] fix: children of a URDF root with its own inertial
 frame are placed from the frame of the root

---
 rainbow/simulators/prox_rigid_bodies/scenes/read_urdf.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/rainbow/simulators/prox_rigid_bodies/scenes/read_urdf.py b/rainbow/simulators/prox_rigid_bodies/scenes/read_urdf.py
index 2ad8705..3060fd1 100644
--- a/rainbow/simulators/prox_rigid_bodies/scenes/read_urdf.py
+++ b/rainbow/simulators/prox_rigid_bodies/scenes/read_urdf.py
@@ -337,6 +337,10 @@ def read_urdf(engine: TYPES.Engine, package_folder: str, urdf_file_path: str):
         use_model_frame=False
     )
 
+    # From here on X_b2r of a placed link holds the transform of its reference frame to the world. The reference
+    # frame of the root is the world frame itself, also when its body frame is placed elsewhere.
+    root.X_b2r = X.CoordSys()
+
     while stack:
         parent = stack.pop()
         parent_name = parent.name
-- 
2.43.0


From b82bd0e3ffeaa4712070e6106885b92316dc9587 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:58:48 +0000
Subject: [PATCH 47/47] fix: the rock slide returns the names of its rocks, not
 a list in the list

---
 .../simulators/prox_rigid_bodies/scenes/create_rock_slide.py    | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rainbow/simulators/prox_rigid_bodies/scenes/create_rock_slide.py b/rainbow/simulators/prox_rigid_bodies/scenes/create_rock_slide.py
index dfb44c9..b4dd34e 100644
--- a/rainbow/simulators/prox_rigid_bodies/scenes/create_rock_slide.py
+++ b/rainbow/simulators/prox_rigid_bodies/scenes/create_rock_slide.py
@@ -109,7 +109,7 @@ def create_rock_slide(engine: Engine,
 
     r = V3.make(-10, 16, 5)
     q = Q.Ry(3 * np.pi / 4)
-    body_names.append(
+    body_names.extend(
         create_lattice(
             engine,
             r,
-- 
2.43.0

