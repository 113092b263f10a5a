From 17b3d04c514cebd0cc7e663bf01ecb850b0abdb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:25:41 +0000
Subject: [PATCH 01/41] fix: covariant vector conversion at the south edge of
 panel 2 used the wrong component

---
 wx_factory/process_topology.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wx_factory/process_topology.py b/wx_factory/process_topology.py
index 2f23b91..cf498a5 100644
--- a/wx_factory/process_topology.py
+++ b/wx_factory/process_topology.py
@@ -188,7 +188,7 @@ class ProcessTopology:
                 lambda a1, a2, x: (a1 + 2.0 * x / (1.0 + x**2) * a2, a2),  # East neighbor
             ],
             [  # Panel 2
-                lambda a1, a2, x: (-a2, -a2 + 2.0 * x / (1.0 + x**2) * a1),  # South neighbor
+                lambda a1, a2, x: (-a1, -a2 + 2.0 * x / (1.0 + x**2) * a1),  # South neighbor
                 lambda a1, a2, x: (-a1, -a2 - 2.0 * x / (1.0 + x**2) * a1),  # North neighbor
                 lambda a1, a2, x: (a1 - 2.0 * x / (1.0 + x**2) * a2, a2),  # West neighbor
                 lambda a1, a2, x: (a1 + 2.0 * x / (1.0 + x**2) * a2, a2),  # East neighbor
-- 
2.43.0


From 9abb3d1e5b00455bf3dfd82e77dab442c5e47429 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:34:06 +0000
Subject: [PATCH 02/41] fix: the A matrix of the DP5(4) table lacked its last
 column, so selecting it raised ValueError

---
 wx_factory/integrators/butcher.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/wx_factory/integrators/butcher.py b/wx_factory/integrators/butcher.py
index 382240d..f2f5058 100644
--- a/wx_factory/integrators/butcher.py
+++ b/wx_factory/integrators/butcher.py
@@ -151,12 +151,12 @@ class DP54(RungeKutta):
     C = numpy.array([0, 1 / 5, 3 / 10, 4 / 5, 8 / 9, 1])
     A = numpy.array(
         [
-            [0, 0, 0, 0, 0],
-            [1 / 5, 0, 0, 0, 0],
-            [3 / 40, 9 / 40, 0, 0, 0],
-            [44 / 45, -56 / 15, 32 / 9, 0, 0],
-            [19372 / 6561, -25360 / 2187, 64448 / 6561, -212 / 729, 0],
-            [9017 / 3168, -355 / 33, 46732 / 5247, 49 / 176, -5103 / 18656],
+            [0, 0, 0, 0, 0, 0],
+            [1 / 5, 0, 0, 0, 0, 0],
+            [3 / 40, 9 / 40, 0, 0, 0, 0],
+            [44 / 45, -56 / 15, 32 / 9, 0, 0, 0],
+            [19372 / 6561, -25360 / 2187, 64448 / 6561, -212 / 729, 0, 0],
+            [9017 / 3168, -355 / 33, 46732 / 5247, 49 / 176, -5103 / 18656, 0],
         ]
     )
     B = numpy.array([35 / 384, 0, 500 / 1113, 125 / 192, -2187 / 6784, 11 / 84])
-- 
2.43.0


From 56390dc7a89f87f0ddd02983b6f1ffa354208bbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:34:06 +0000
Subject: [PATCH 03/41] fix: the DP8(7) table advanced with its 7th-order
 weights and estimated the error with the 8th-order ones

---
 wx_factory/integrators/butcher.py | 34 +++++++++++++++----------------
 1 file changed, 17 insertions(+), 17 deletions(-)

diff --git a/wx_factory/integrators/butcher.py b/wx_factory/integrators/butcher.py
index f2f5058..77d2a5e 100644
--- a/wx_factory/integrators/butcher.py
+++ b/wx_factory/integrators/butcher.py
@@ -1797,23 +1797,6 @@ class DP87(RungeKutta):
     C = tableau[:, 0]
     A = tableau[:, 1:]
     B = numpy.array(
-        [
-            13451932 / 455176623,
-            0.0,
-            0.0,
-            0.0,
-            0.0,
-            -808719846 / 976000145,
-            1757004468 / 5645159321,
-            656045339 / 265891186,
-            -3867574721 / 1518517206,
-            465885868 / 322736535,
-            53011238 / 667516719,
-            2 / 45,
-            0.0,
-        ]
-    )
-    E = numpy.array(
         [
             14005451 / 335480064,
             0.0,
@@ -1828,6 +1811,23 @@ class DP87(RungeKutta):
             118820643 / 751138087,
             -528747749 / 2220607170,
             1 / 4,
+        ]
+    )
+    E = numpy.array(
+        [
+            13451932 / 455176623,
+            0.0,
+            0.0,
+            0.0,
+            0.0,
+            -808719846 / 976000145,
+            1757004468 / 5645159321,
+            656045339 / 265891186,
+            -3867574721 / 1518517206,
+            465885868 / 322736535,
+            53011238 / 667516719,
+            2 / 45,
+            0.0,
             0.0,
         ]
     )
-- 
2.43.0


From 90840681804940290c32a05f27328e71a78799ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:34:06 +0000
Subject: [PATCH 04/41] fix: non-FSAL Runge-Kutta methods evaluated the next
 step's first stage at the wrong time

---
 wx_factory/integrators/explicit_runge_kutta.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wx_factory/integrators/explicit_runge_kutta.py b/wx_factory/integrators/explicit_runge_kutta.py
index 1f8002e..7c7434a 100644
--- a/wx_factory/integrators/explicit_runge_kutta.py
+++ b/wx_factory/integrators/explicit_runge_kutta.py
@@ -419,7 +419,7 @@ class RungeKutta:
 
         if not self.FSAL:
             # evaluate output point for the next step
-            self.K[self.n_stages] = self.fun(t + h, y_new)
+            self.K[self.n_stages] = self.fun(t_new, y_new)
 
         # store for next step, interpolation and stepsize control
         self.y_old = y
-- 
2.43.0


From a3c2359e557ec7572877127316da9a3df72b4d26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:34:06 +0000
Subject: [PATCH 05/41] fix: the backward Euler start-up step of BDF2
 integrated only half of the right-hand side

---
 wx_factory/integrators/bdf2.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wx_factory/integrators/bdf2.py b/wx_factory/integrators/bdf2.py
index fa9b458..5053004 100644
--- a/wx_factory/integrators/bdf2.py
+++ b/wx_factory/integrators/bdf2.py
@@ -20,7 +20,7 @@ class Bdf2(Integrator):
             newQ = Q.copy()
             for _ in range(self.init_substeps):
                 init_dt = dt / self.init_substeps
-                nonlin_fun = lambda Q_plus: (Q_plus - newQ) / init_dt - 0.5 * self.rhs(Q_plus)
+                nonlin_fun = lambda Q_plus: (Q_plus - newQ) / init_dt - self.rhs(Q_plus)
 
                 newQ, num_iter, residuals = newton_krylov(nonlin_fun, newQ, f_tol=self.tol)
         else:
-- 
2.43.0


From 61ce5ffb01511bf56e98807d39489c36280d7266 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:59:10 +0000
Subject: [PATCH 06/41] fix: EPI stiff methods of order 4 and above used the
 nodes of future instead of past steps and were of order 3 only

---
 wx_factory/integrators/epi_stiff.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wx_factory/integrators/epi_stiff.py b/wx_factory/integrators/epi_stiff.py
index f6eb23f..2946096 100644
--- a/wx_factory/integrators/epi_stiff.py
+++ b/wx_factory/integrators/epi_stiff.py
@@ -24,7 +24,7 @@ class EpiStiff(Integrator):
 
         if order < 2:
             raise ValueError("Unsupported order for EPI method")
-        self.A = alpha_coeff([-i for i in range(-1, 1 - order, -1)])
+        self.A = alpha_coeff(list(range(-1, 1 - order, -1)))
 
         m, self.n_prev = self.A.shape
 
-- 
2.43.0


From adf7e10698fbd21b1e0519a9920626e7f4ebac4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:59:10 +0000
Subject: [PATCH 07/41] fix: a BDF2 step with a changed step size combined
 states of different spacing and was not consistent

---
 wx_factory/integrators/bdf2.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/wx_factory/integrators/bdf2.py b/wx_factory/integrators/bdf2.py
index 5053004..c98ad53 100644
--- a/wx_factory/integrators/bdf2.py
+++ b/wx_factory/integrators/bdf2.py
@@ -12,9 +12,16 @@ class Bdf2(Integrator):
         self.tol = param.tolerance
         self.init_substeps = init_substeps
         self.Qprev = None
+        self.dt = 0.0
 
     def __step__(self, Q, dt):
         t0 = time()
+
+        # The formula holds for equal steps only: if dt changes, discard the previous state and redo initialization
+        if self.dt and abs(self.dt - dt) > 1e-10:
+            self.Qprev = None
+        self.dt = dt
+
         if self.Qprev is None:
             # Initialize with the backward Euler method
             newQ = Q.copy()
-- 
2.43.0


From 6ae4334c0b63bbd1c684da4c7d51d117b42a76ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:11:07 +0000
Subject: [PATCH 08/41] fix: MatvecOpBasic did not pass the right-hand side to
 matvec_fun and could never be applied

---
 wx_factory/solvers/matvec.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/wx_factory/solvers/matvec.py b/wx_factory/solvers/matvec.py
index 170618d..d39e2d2 100644
--- a/wx_factory/solvers/matvec.py
+++ b/wx_factory/solvers/matvec.py
@@ -29,8 +29,8 @@ class MatvecOp:
 
 
 class MatvecOpBasic(MatvecOp):
-    def __init__(self, dt: float, Q: numpy.ndarray) -> None:
-        super().__init__(lambda vec: matvec_fun(vec, dt, Q), Q.dtype, Q.shape)
+    def __init__(self, dt: float, Q: numpy.ndarray, rhs_vec: numpy.ndarray, rhs_handle: Callable) -> None:
+        super().__init__(lambda vec: matvec_fun(vec, dt, Q, rhs_vec, rhs_handle), Q.dtype, Q.shape)
 
 
 def matvec_fun(
-- 
2.43.0


From f5a3c0b56aa0b7232ed1087b41bb945cd92b208e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:34:31 +0000
Subject: [PATCH 09/41] fix: off-diagonal contravariant interface metric
 multiplies (1+X^2) and (1+Y^2)

---
 wx_factory/geometry/metric3d.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wx_factory/geometry/metric3d.py b/wx_factory/geometry/metric3d.py
index 80cafeb..72ed2ca 100644
--- a/wx_factory/geometry/metric3d.py
+++ b/wx_factory/geometry/metric3d.py
@@ -215,7 +215,7 @@ class Metric3DTopo:
         ):
             delta2 = 1 + X**2 + Y**2
             metric_contra[0, 0, :, :, :] = delta2 / (1 + X**2)
-            metric_contra[0, 1, :, :, :] = delta2 * X * Y / ((1 + X**2) + (1 + Y**2))
+            metric_contra[0, 1, :, :, :] = delta2 * X * Y / ((1 + X**2) * (1 + Y**2))
             metric_contra[1, 0, :, :, :] = metric_contra[0, 1, :, :, :]
             metric_contra[1, 1, :, :, :] = delta2 / (1 + Y**2)
 
-- 
2.43.0


From 2cd1107a5569de355958bd43b80778a0f33a3075 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:34:31 +0000
Subject: [PATCH 10/41] fix: sign of the rotational Christoffel symbol
 Gamma^1_02

---
 wx_factory/geometry/metric3d.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/wx_factory/geometry/metric3d.py b/wx_factory/geometry/metric3d.py
index 72ed2ca..21b0369 100644
--- a/wx_factory/geometry/metric3d.py
+++ b/wx_factory/geometry/metric3d.py
@@ -679,7 +679,7 @@ class Metric3DTopo:
                 Omega * X_int * Y_int / deltasq * rot1 + dRdx1_int * Omega / (R_int * (1 + X_int**2)) * rot2
             )
             Christoffel_1_02 = (
-                -Omega * (-(1 + Y_int**2) / deltasq) * rot1 + dRdx2_int * Omega / (R_int * (1 + X_int**2)) * rot2
+                -Omega * (1 + Y_int**2) / deltasq * rot1 + dRdx2_int * Omega / (R_int * (1 + X_int**2)) * rot2
             )
             Christoffel_1_03 = dRdeta_int * Omega / (R_int * (1 + X_int**2)) * rot2
 
@@ -689,7 +689,7 @@ class Metric3DTopo:
         else:  # Shallow atmosphere, R->A
             Christoffel_1_01 = Omega * X_int * Y_int / deltasq * rot1 + dRdx1_int * Omega / (A * (1 + X_int**2)) * rot2
             Christoffel_1_02 = (
-                -Omega * (-(1 + Y_int**2) / deltasq) * rot1 + dRdx2_int * Omega / (A * (1 + X_int**2)) * rot2
+                -Omega * (1 + Y_int**2) / deltasq * rot1 + dRdx2_int * Omega / (A * (1 + X_int**2)) * rot2
             )
             Christoffel_1_03 = dRdeta_int * Omega / (A * (1 + X_int**2)) * rot2
 
-- 
2.43.0


From 843e36d0c162a1120a07d34ad385f3819814e722 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:34:31 +0000
Subject: [PATCH 11/41] fix: rotational Christoffel symbol Gamma^2_02 uses rot1

---
 wx_factory/geometry/metric3d.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/wx_factory/geometry/metric3d.py b/wx_factory/geometry/metric3d.py
index 21b0369..008ca80 100644
--- a/wx_factory/geometry/metric3d.py
+++ b/wx_factory/geometry/metric3d.py
@@ -708,7 +708,7 @@ class Metric3DTopo:
                 Omega * (1 + X_int**2) / deltasq * rot1 + dRdx1_int * Omega / (R_int * (1 + Y_int**2)) * rot3
             )
             Christoffel_2_02 = (
-                -Omega * X_int * Y_int / deltasq * rot2 + dRdx2_int * Omega / (R_int * (1 + Y_int**2)) * rot3
+                -Omega * X_int * Y_int / deltasq * rot1 + dRdx2_int * Omega / (R_int * (1 + Y_int**2)) * rot3
             )
             Christoffel_2_03 = dRdeta_int * Omega / (R_int * (1 + Y_int**2)) * rot3
 
@@ -720,7 +720,7 @@ class Metric3DTopo:
             Christoffel_2_23 = dRdeta_int / R_int
         else:  # Shallow
             Christoffel_2_01 = Omega * (1 + X_int**2) / deltasq * rot1 + dRdx1_int * Omega / (A * (1 + Y_int**2)) * rot3
-            Christoffel_2_02 = -Omega * X_int * Y_int / deltasq * rot2 + dRdx2_int * Omega / (A * (1 + Y_int**2)) * rot3
+            Christoffel_2_02 = -Omega * X_int * Y_int / deltasq * rot1 + dRdx2_int * Omega / (A * (1 + Y_int**2)) * rot3
             Christoffel_2_03 = dRdeta_int * Omega / (A * (1 + Y_int**2)) * rot3
 
             Christoffel_2_11 = 0
-- 
2.43.0


From b46a1953ec7f3d63e7d860fbfd5f453d8a7d48ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:34:31 +0000
Subject: [PATCH 12/41] fix: sponge layer works on the element-blocked grid
 arrays

---
 wx_factory/geometry/operators.py | 31 +++++++++----------------------
 1 file changed, 9 insertions(+), 22 deletions(-)

diff --git a/wx_factory/geometry/operators.py b/wx_factory/geometry/operators.py
index e939154..69d2a20 100644
--- a/wx_factory/geometry/operators.py
+++ b/wx_factory/geometry/operators.py
@@ -123,19 +123,12 @@ class DFROperators:
         if param.apply_sponge:
             if not isinstance(grd, Cartesian2D):
                 raise TypeError(f"The sponge can only be applied on a Cartesian2D geometry")
-            nk, ni = grd.X1.shape
             zs = param.z1 - param.sponge_zscale  # zs is bottom of layer
             self.beta = xp.zeros_like(grd.X1)  # used as our damping profile
-            # Loop over points
-            # TODO use implicit loop (will also work with CUDA)
-            for k in range(nk):
-                for i in range(ni):
-                    if grd.X3[k, i] >= zs:
-                        self.beta[k, i] = (
-                            self.beta[k, i]
-                            + (1.0 / param.sponge_tscale)
-                            * xp.sin((0.5 * xp.pi) * (grd.X3[k, i] - zs) / (param.z1 - zs)) ** 2
-                        )
+            in_layer = grd.X3 >= zs
+            self.beta[in_layer] = (1.0 / param.sponge_tscale) * xp.sin(
+                (0.5 * xp.pi) * (grd.X3[in_layer] - zs) / (param.z1 - zs)
+            ) ** 2
 
         if check_skewcentrosymmetry(self.diff_ext) is False:
             raise ValueError("Something horribly wrong has happened in the creation of the differentiation matrix")
@@ -240,17 +233,11 @@ class DFROperators:
 
         # Apply Sponge (if desired)
         if self.apply_sponge:
-            nk, ni = geom.X1.shape
-            # Loop over points
-            # TODO use implicit loop (will also work with CUDA)
-            for k in range(nk):
-                for i in range(ni):
-                    # !!!!!!!!
-                    # !!! Important Note:
-                    #     TODO: For 3D, we want to rotate radially, apply sponge, rotate back
-                    # !!!!!!!!
-                    ww = (1.0 / (1.0 + self.beta[k, i] * dt)) * Q[idx_2d_rho_w, k, i]
-                    Q[idx_2d_rho_w, k, i] = ww
+            # !!!!!!!!
+            # !!! Important Note:
+            #     TODO: For 3D, we want to rotate radially, apply sponge, rotate back
+            # !!!!!!!!
+            Q[idx_2d_rho_w] = (1.0 / (1.0 + self.beta * dt)) * Q[idx_2d_rho_w]
 
         return Q
 
-- 
2.43.0


From bc8f87677bc39785b5ea5c739340c919cf8ac822 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:34:31 +0000
Subject: [PATCH 13/41] fix: AUSM normal momentum flux includes the advected
 momentum

---
 wx_factory/pde/kernels/riemann_flux.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/wx_factory/pde/kernels/riemann_flux.hpp b/wx_factory/pde/kernels/riemann_flux.hpp
index cf7d5c3..6e31178 100644
--- a/wx_factory/pde/kernels/riemann_flux.hpp
+++ b/wx_factory/pde/kernels/riemann_flux.hpp
@@ -62,13 +62,13 @@ DEVICE_SPACE void riemann_eulercartesian_ausm_2d_kernel(
   *params_l.flux[dir].rho = rhol * Mmax + rhor * Mmin;
   if (dir == 0)
   {
-    *params_l.flux[dir].rho_u = 0.5 * (Ml * pl - Mr * pr);
+    *params_l.flux[dir].rho_u = rho_ul * Mmax + rho_ur * Mmin + 0.5 * (Ml * pl - Mr * pr);
     *params_l.flux[dir].rho_w = rho_wl * Mmax + rho_wr * Mmin;
   }
   else
   {
     *params_l.flux[dir].rho_u = rho_ul * Mmax + rho_ur * Mmin;
-    *params_l.flux[dir].rho_w = 0.5 * (Ml * pl - Mr * pr);
+    *params_l.flux[dir].rho_w = rho_wl * Mmax + rho_wr * Mmin + 0.5 * (Ml * pl - Mr * pr);
   }
   *params_l.flux[dir].rho_theta = rho_thetal * Mmax + rho_thetar * Mmin;
 
-- 
2.43.0


From d40ee8b681af6dff0c666a757c52923794a1b832 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:05:14 +0000
Subject: [PATCH 14/41] fix: MultipleProcesses raises on every process when one
 of them fails

The processes that had completed the section without error simply went on,
while those that were skipped (and the one with the error) raised.
---
 wx_factory/wx_mpi.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/wx_factory/wx_mpi.py b/wx_factory/wx_mpi.py
index 0966854..95829f6 100644
--- a/wx_factory/wx_mpi.py
+++ b/wx_factory/wx_mpi.py
@@ -116,6 +116,10 @@ class MultipleProcesses:
 
         total_errors = self.comm.allreduce(num_errors)
 
+        if total_errors > 0 and exception_type is None:
+            # Someone else failed, so everyone does
+            raise _SkippableFailure
+
         return total_errors == 0
 
 
-- 
2.43.0


From ee0dc8ee57503a4236ec7a75135137b3025a462e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:05:48 +0000
Subject: [PATCH 15/41] fix: netCDF and fst output delegate work within their
 own communicator

SingleProcess() without argument involves MPI.COMM_WORLD: a simulation that
runs on a sub-communicator would wait for processes that never come.
---
 wx_factory/output/output_cubesphere_fst.py    | 4 ++--
 wx_factory/output/output_cubesphere_netcdf.py | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/wx_factory/output/output_cubesphere_fst.py b/wx_factory/output/output_cubesphere_fst.py
index afbfc98..5934893 100644
--- a/wx_factory/output/output_cubesphere_fst.py
+++ b/wx_factory/output/output_cubesphere_fst.py
@@ -78,7 +78,7 @@ class OutputCubesphereFst(OutputCubesphere):
 
         sys.stdout.flush()
 
-        with SingleProcess() as s, Conditional(s):
+        with SingleProcess(self.comm) as s, Conditional(s):
             self.file = rmn.fst24_file(self.filename, "RSF+R/W")
 
             # print(f"lon = \n{lon / 180.0 * math.pi}")
@@ -136,7 +136,7 @@ class OutputCubesphereFst(OutputCubesphere):
             u1 = get_field(Q[idx_hu1, ...] / Q[idx_h, ...])
             u2 = get_field(Q[idx_hu2, ...] / Q[idx_h, ...])
 
-            with SingleProcess() as s, Conditional(s):
+            with SingleProcess(self.comm) as s, Conditional(s):
                 h_rec = self._make_record("h", step_id, h)
                 self.file.write(h_rec, rewrite=0)
 
diff --git a/wx_factory/output/output_cubesphere_netcdf.py b/wx_factory/output/output_cubesphere_netcdf.py
index 882e7dd..5657751 100644
--- a/wx_factory/output/output_cubesphere_netcdf.py
+++ b/wx_factory/output/output_cubesphere_netcdf.py
@@ -56,7 +56,7 @@ class OutputCubesphereNetcdf(OutputCubesphere):
         import netCDF4
 
         # creating the netcdf file(s)
-        with SingleProcess() as s, Conditional(s):
+        with SingleProcess(self.comm) as s, Conditional(s):
             self.ncfile = netCDF4.Dataset(self.filename, "w", format="NETCDF4")
 
         # create dimensions
-- 
2.43.0


From 21d596c3505d4d0b4466bad99e2bc3070445b8fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:06:59 +0000
Subject: [PATCH 16/41] fix: any error while opening the solver statistics is
 signalled to all processes

Only sqlite3.OperationalError was caught: with e.g. a file that is not a
database (sqlite3.DatabaseError) the other processes waited forever.
---
 wx_factory/output/solver_stats.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wx_factory/output/solver_stats.py b/wx_factory/output/solver_stats.py
index 2f584ea..b67d280 100644
--- a/wx_factory/output/solver_stats.py
+++ b/wx_factory/output/solver_stats.py
@@ -118,7 +118,7 @@ class SolverStatsOutput:
             self.create_results_table()
             self.comm.allreduce(0)
 
-        except sqlite3.OperationalError:
+        except Exception:
             # Signal failure to the other PEs
             self.comm.allreduce(1)
             raise
-- 
2.43.0


From 466b49dda113be39fb7febcf5882bf8bf77b3c40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:24:02 +0000
Subject: [PATCH 17/41] fix: the orography gathered for netCDF output is a 2D
 field

With more than one process per panel, writing 3D output failed (AxisError).
---
 wx_factory/output/output_cubesphere_netcdf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wx_factory/output/output_cubesphere_netcdf.py b/wx_factory/output/output_cubesphere_netcdf.py
index 5657751..f9b2b6b 100644
--- a/wx_factory/output/output_cubesphere_netcdf.py
+++ b/wx_factory/output/output_cubesphere_netcdf.py
@@ -287,7 +287,7 @@ class OutputCubesphereNetcdf(OutputCubesphere):
         lats = self._gather_field(prepare(self.geometry.block_lat * 180 / math.pi), 2)
         if self.config.equations == "euler":
             elevs = self._gather_field(prepare(self.geometry.coordVec_latlon[2, :, :, :]), 3)
-            topos = self._gather_field(prepare(self.geometry.zbot[:, :]), 3)
+            topos = self._gather_field(prepare(self.geometry.zbot[:, :]), 2)
 
         if self.rank == 0:
             for i in range(6):
-- 
2.43.0


From 3e88ada7fe16b159919cfbae01dcb2260168088a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:24:02 +0000
Subject: [PATCH 18/41] fix: the x2 axis in netCDF output covers all rows of
 tiles

It was gathered from the tiles of the first row, which all have the same x2
coordinates.
---
 wx_factory/output/output_cubesphere.py        | 6 +++---
 wx_factory/output/output_cubesphere_netcdf.py | 2 +-
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/wx_factory/output/output_cubesphere.py b/wx_factory/output/output_cubesphere.py
index b790527..f37a88c 100644
--- a/wx_factory/output/output_cubesphere.py
+++ b/wx_factory/output/output_cubesphere.py
@@ -126,8 +126,8 @@ class OutputCubesphere(OutputManager):
         if self.rank == 0:
             print("================================================================================================")
 
-    def _gather_panel(self, field: NDArray) -> Optional[NDArray]:
-        """ """
+    def _gather_panel(self, field: NDArray, along_x2: bool = False) -> Optional[NDArray]:
+        """Gather tile data on the panel root. 1D data is taken along x1, or along x2 if specified."""
         panel_comm = self.process_topology.panel_comm
         xp = self.device.xp
 
@@ -144,7 +144,7 @@ class OutputCubesphere(OutputManager):
 
         side = self.process_topology.num_lines_per_panel
         if field.ndim == 1:
-            panel_field = xp.concatenate(panel_fields[:side])
+            panel_field = xp.concatenate(panel_fields[::side] if along_x2 else panel_fields[:side])
         else:
             panel_field = xp.concatenate(
                 [xp.concatenate(panel_fields[i * side : (i + 1) * side], axis=-1) for i in range(side)], axis=-2
diff --git a/wx_factory/output/output_cubesphere_netcdf.py b/wx_factory/output/output_cubesphere_netcdf.py
index f9b2b6b..0a59ea3 100644
--- a/wx_factory/output/output_cubesphere_netcdf.py
+++ b/wx_factory/output/output_cubesphere_netcdf.py
@@ -273,7 +273,7 @@ class OutputCubesphereNetcdf(OutputCubesphere):
         prepare = self.device.to_host
 
         panel_x = self._gather_panel(prepare(self.geometry.x1[...]))
-        panel_y = self._gather_panel(prepare(self.geometry.x2[...]))
+        panel_y = self._gather_panel(prepare(self.geometry.x2[...]), along_x2=True)
 
         if self.rank == 0:
             xxx[:] = panel_x
-- 
2.43.0


From 975afe42fd14e4378c22b2109fe638a4205b9f99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:33:06 +0000
Subject: [PATCH 19/41] fix: RHS timings are stored once, with the step they
 belong to

The timings were never cleared: every step stored again all evaluations since
the beginning of the run, and the last one of each step twice.
---
 wx_factory/integrators/integrator.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/wx_factory/integrators/integrator.py b/wx_factory/integrators/integrator.py
index bc036b1..837b9a8 100644
--- a/wx_factory/integrators/integrator.py
+++ b/wx_factory/integrators/integrator.py
@@ -97,9 +97,10 @@ class Integrator(ABC):
             solver_info = self.solver_info if self.solver_info is not None else SolverInfo()
 
             rhs_times = None
-            if hasattr(self, "rhs") and isinstance(self.rhs, RHS):
+            if hasattr(self, "rhs") and isinstance(self.rhs, RHS) and len(self.rhs.timestamps) > 0:
                 self.rhs.retrieve_last_times()
                 rhs_times = self.rhs.timings
+                self.rhs.clear_timings()  # Only keep the timings of the current step
 
             self.output_manager.store_solver_stats(
                 t1 - t0, self.sim_time, dt, solver_info, self.preconditioner, rhs_times
-- 
2.43.0


From a2c664a5adf01ac2f5379b227411c2a88ad1fa54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:41:50 +0000
Subject: [PATCH 20/41] fix: the shortened last step keeps the configured dt,
 and rounding never adds a step

---
 wx_factory/init/shallow_water_test.py         |  4 ++--
 wx_factory/output/output_cubesphere_netcdf.py |  2 +-
 wx_factory/simulation/simulation.py           | 17 +++++++++--------
 3 files changed, 12 insertions(+), 11 deletions(-)

diff --git a/wx_factory/init/shallow_water_test.py b/wx_factory/init/shallow_water_test.py
index 132e5ad..e68f3e6 100644
--- a/wx_factory/init/shallow_water_test.py
+++ b/wx_factory/init/shallow_water_test.py
@@ -63,7 +63,7 @@ def circular_vortex(geom, metric, param):
 
 
 def height_vortex(geom, metric, param, step):
-    step_time = step * param.dt
+    step_time = min(step * param.dt, param.t_end)
 
     lon_center = math.pi - 0.8
     lat_center = math.pi / 4.8
@@ -118,7 +118,7 @@ def williamson_case1(geom, metric, param):
 
 def height_case1(geom: CubedSphere2D, metric, param, step):
     # Initialize gaussian bell
-    step_time = step * param.dt
+    step_time = min(step * param.dt, param.t_end)
 
     ubar = 2.0 * math.pi / (12.0 * day_in_secs)
 
diff --git a/wx_factory/output/output_cubesphere_netcdf.py b/wx_factory/output/output_cubesphere_netcdf.py
index 0a59ea3..dbb15c0 100644
--- a/wx_factory/output/output_cubesphere_netcdf.py
+++ b/wx_factory/output/output_cubesphere_netcdf.py
@@ -306,7 +306,7 @@ class OutputCubesphereNetcdf(OutputCubesphere):
         idx = 0
         if self.ncfile is not None:
             idx = len(self.ncfile["time"])
-            self.ncfile["time"][idx] = step_id * self.config.dt
+            self.ncfile["time"][idx] = min(step_id * self.config.dt, self.config.t_end)
 
         if isinstance(geom, CubedSphere2D):  # Shallow water
 
diff --git a/wx_factory/simulation/simulation.py b/wx_factory/simulation/simulation.py
index b411ea8..f555975 100644
--- a/wx_factory/simulation/simulation.py
+++ b/wx_factory/simulation/simulation.py
@@ -132,20 +132,21 @@ class Simulation:
 
     def step(self):
         """Advance the simulation by one time step."""
-        if self.t < self.config.t_end:
-            if self.t + self.config.dt > self.config.t_end:
-                self.config.dt = self.config.t_end - self.t
-                self.t = self.config.t_end
-            else:
-                self.t += self.config.dt
+        tol = 1e-10 * self.config.dt  # Rounding errors must not cause an additional (tiny) step
+        if self.t < self.config.t_end - tol:
+            dt = self.config.dt
+            next_t = (self.step_id + 1) * dt
+            if next_t > self.config.t_end + tol:
+                dt = self.config.t_end - self.t
+            self.t = min(next_t, self.config.t_end)
 
             self.step_id += 1
 
             if self.rank == 0:
                 print(f"Step {self.step_id} of {self.num_steps + self.starting_step}", flush=True)
 
-            self.Q = self.integrator.step(self.Q, self.config.dt)
-            self.Q = self.operators.apply_filters(self.Q, self.geometry, self.metric, self.config.dt)
+            self.Q = self.integrator.step(self.Q, dt)
+            self.Q = self.operators.apply_filters(self.Q, self.geometry, self.metric, dt)
 
             if self.rank == 0:
                 print(f"Elapsed time for step: {self.integrator.latest_time:.3f} secs", flush=True)
-- 
2.43.0


From 1551c6467b919c8c43053995031c6254e5d44865 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:41:50 +0000
Subject: [PATCH 21/41] fix: run() also starts over in time

---
 wx_factory/simulation/simulation.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/wx_factory/simulation/simulation.py b/wx_factory/simulation/simulation.py
index f555975..ab8a853 100644
--- a/wx_factory/simulation/simulation.py
+++ b/wx_factory/simulation/simulation.py
@@ -184,6 +184,8 @@ class Simulation:
         """Run the entire simulation step by step"""
         self.step_id = self.starting_step
         self.Q = self.initial_Q
+        self.t = self.config.dt * self.starting_step
+        self.integrator.sim_time = self.t
 
         start_time = time()
 
-- 
2.43.0


From 4b4b06f7b59d7cb841bebb3d80f7eecebf4ff989 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:41:50 +0000
Subject: [PATCH 22/41] fix: the closing report works for output times over
 1000 s

---
 wx_factory/output/output_manager.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/wx_factory/output/output_manager.py b/wx_factory/output/output_manager.py
index f75db46..073e2e6 100644
--- a/wx_factory/output/output_manager.py
+++ b/wx_factory/output/output_manager.py
@@ -26,11 +26,10 @@ def _readable_time(seconds):
     elif seconds < 1.0:
         return f"{seconds * 1e3:.1f} ms"
     elif seconds > 1000:
-        h_s = int(seconds)
-        h = h_s // 3600
-        rem = seconds - h_s
-        m = rem // 60
-        s = rem % 60
+        total_s = int(seconds)
+        h = total_s // 3600
+        m = (total_s % 3600) // 60
+        s = total_s % 60
         return f"{h}:{m:02d}:{s:02d}"
     else:
         return f"{seconds:.2f}"
-- 
2.43.0


From 825fb18c1ab4e97e6cb57bc92862081a4c2b393c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:03:44 +0000
Subject: [PATCH 23/41] fix: fgmres does not report success when the residual
 is not a number

---
 wx_factory/solvers/fgmres.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/wx_factory/solvers/fgmres.py b/wx_factory/solvers/fgmres.py
index 6cf5ce7..68b403b 100644
--- a/wx_factory/solvers/fgmres.py
+++ b/wx_factory/solvers/fgmres.py
@@ -270,9 +270,7 @@ def fgmres(
 
     # end outer loop
 
-    flag = 0
-    if norm_r >= tol_relative:
-        flag = -1
+    flag = 0 if norm_r < tol_relative else -1  # A residual that is not a number is a failure too
     return x, norm_r, norm_b, niter, flag, residuals
 
 
-- 
2.43.0


From 980f72e623a38ebc13b7a60564b2eaa957dd9057 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:03:44 +0000
Subject: [PATCH 24/41] fix: RosExp2 and PartRosExp2 record the failure of
 their linear solve

---
 wx_factory/integrators/partrosexp2.py | 1 +
 wx_factory/integrators/rosexp2.py     | 1 +
 2 files changed, 2 insertions(+)

diff --git a/wx_factory/integrators/partrosexp2.py b/wx_factory/integrators/partrosexp2.py
index d5b12cc..05d5679 100644
--- a/wx_factory/integrators/partrosexp2.py
+++ b/wx_factory/integrators/partrosexp2.py
@@ -72,6 +72,7 @@ class PartRosExp2(Integrator):
         time_imp = time() - tic
 
         self.solver_info = SolverInfo(flag, time_imp, num_iter, residuals)
+        self.failure_flag = flag
 
         if self.device.comm.rank == 0:
             result_type = "convergence" if flag == 0 else "stagnation/interruption"
diff --git a/wx_factory/integrators/rosexp2.py b/wx_factory/integrators/rosexp2.py
index 1de4fea..a300e08 100644
--- a/wx_factory/integrators/rosexp2.py
+++ b/wx_factory/integrators/rosexp2.py
@@ -61,6 +61,7 @@ class RosExp2(Integrator):
         time_imp = time() - tic
 
         self.solver_info = SolverInfo(flag, time_imp, num_iter, residuals)
+        self.failure_flag = flag
 
         if self.device.comm.rank == 0:
             result_type = "convergence" if flag == 0 else "stagnation/interruption"
-- 
2.43.0


From 95d6ef2d5691536158cb35579ec7cffcba49233e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:03:44 +0000
Subject: [PATCH 25/41] fix: splitting methods record the failure of their
 substeps

---
 wx_factory/integrators/splitting.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/wx_factory/integrators/splitting.py b/wx_factory/integrators/splitting.py
index c751996..de73cd7 100644
--- a/wx_factory/integrators/splitting.py
+++ b/wx_factory/integrators/splitting.py
@@ -11,6 +11,7 @@ class LieSplitting(Integrator):
     def __step__(self, Q, dt):
         Q1 = self.scheme1.step(Q, dt)
         Q2 = self.scheme2.step(Q1, dt)
+        self.failure_flag = self.scheme1.failure_flag or self.scheme2.failure_flag
         return Q2
 
 
@@ -23,7 +24,9 @@ class StrangSplitting(Integrator):
     def __step__(self, Q, dt):
         Q1 = self.scheme1.step(Q, dt / 2)
         Q2 = self.scheme2.step(Q1, dt)
+        flag1 = self.scheme1.failure_flag
         Q3 = self.scheme1.step(Q2, dt / 2)
+        self.failure_flag = flag1 or self.scheme2.failure_flag or self.scheme1.failure_flag
         return Q3
 
 
-- 
2.43.0


From d98e8a1677e510913090fdb53df8b12086643e07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:03:44 +0000
Subject: [PATCH 26/41] fix: exode raises an error when its stepper fails

---
 wx_factory/solvers/exode.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/wx_factory/solvers/exode.py b/wx_factory/solvers/exode.py
index 81f6d61..7924d14 100644
--- a/wx_factory/solvers/exode.py
+++ b/wx_factory/solvers/exode.py
@@ -108,8 +108,7 @@ def exode(
          """
 
         elif solver.status == "failed":
-            status = -1
-            break
+            raise RuntimeError("EXODE failed: the required step size is too small")
 
         t_old = solver.t_old
         t = solver.t
-- 
2.43.0


From dd1aaab0b8f761c0d9ab5286431289bed303ec0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:03:44 +0000
Subject: [PATCH 27/41] fix: newton_krylov raises an error when it does not
 converge

---
 wx_factory/solvers/nonlin.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wx_factory/solvers/nonlin.py b/wx_factory/solvers/nonlin.py
index f8a408f..97381f5 100644
--- a/wx_factory/solvers/nonlin.py
+++ b/wx_factory/solvers/nonlin.py
@@ -113,7 +113,7 @@ def newton_krylov(
             sys.stdout.write(f"{n:3d}:  |F(x)| = {global_inf_norm(Fx):.3e}; step {s}\n")
             sys.stdout.flush()
     else:
-        print("The maximum number of iterations allowed by the JFNK method has been reached.")
+        raise RuntimeError("The maximum number of iterations allowed by the JFNK method has been reached.")
 
     if terminated == 1:
         print(f"A solution was found after {iteration-1} steps of the JFNK method.")
-- 
2.43.0


From d4f75892b9819433ec3cf1f19ef91c4a45414e1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:03:44 +0000
Subject: [PATCH 28/41] fix: infinite values in the state end the run like NaNs
 do

---
 wx_factory/simulation/simulation.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/wx_factory/simulation/simulation.py b/wx_factory/simulation/simulation.py
index ab8a853..2e48fa9 100644
--- a/wx_factory/simulation/simulation.py
+++ b/wx_factory/simulation/simulation.py
@@ -400,10 +400,10 @@ class Simulation:
         raise ValueError(f"Time integration method {self.config.time_integrator} not supported")
 
     def _check_for_nan(self, Q):
-        """Raise an exception if there are NaNs in the input"""
+        """Raise an exception if there are NaNs (or infinities) in the input"""
         error_detected = numpy.array([0], dtype=numpy.int32)
-        if numpy.any(numpy.isnan(Q)):
-            print(f"NaN detected on process {self.comm.rank}")
+        if not numpy.all(numpy.isfinite(Q)):
+            print(f"NaN (or infinity) detected on process {self.comm.rank}")
             error_detected[0] = 1
         error_detected_out = numpy.zeros_like(error_detected)
         self.comm.Allreduce(error_detected, error_detected_out, MPI.MAX)
-- 
2.43.0


From f3d3792d08d538a961d53526384560b32c89f886 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:04:51 +0000
Subject: [PATCH 29/41] fix: newton_krylov's default tolerance works with numpy
 2

---
 wx_factory/solvers/nonlin.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wx_factory/solvers/nonlin.py b/wx_factory/solvers/nonlin.py
index 97381f5..d305c71 100644
--- a/wx_factory/solvers/nonlin.py
+++ b/wx_factory/solvers/nonlin.py
@@ -33,7 +33,7 @@ def newton_krylov(
     eta = 1e-3
 
     if f_tol is None:
-        f_tol = numpy.finfo(numpy.float_).eps ** (1.0 / 3)
+        f_tol = numpy.finfo(numpy.float64).eps ** (1.0 / 3)
     if f_rtol is None:
         f_rtol = numpy.inf
     if x_tol is None:
-- 
2.43.0


From 2f7bd57844495c844f3ad1307f78c89f4aec2609 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:05:58 +0000
Subject: [PATCH 30/41] fix: gcrot reports when it did not converge

---
 wx_factory/solvers/gcrot.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/wx_factory/solvers/gcrot.py b/wx_factory/solvers/gcrot.py
index b4da699..be4308f 100644
--- a/wx_factory/solvers/gcrot.py
+++ b/wx_factory/solvers/gcrot.py
@@ -351,4 +351,5 @@ def gcrot(A, b, x0=None, tol=1e-5, maxiter=1000, M=None, m=20, k=None, discard_C
 
     gcrot.CU = CU
 
-    return x, beta, niter, 0, 0
+    flag = 0 if beta <= tol * b_norm else -1
+    return x, beta, niter, flag, 0
-- 
2.43.0


From 012018cb10ba031b4f5f25defaf0337e7d2c1829 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:04:00 +0000
Subject: [PATCH 31/41] fix: netCDF output does not add the orography to the
 state

---
 wx_factory/output/output_cubesphere_netcdf.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/wx_factory/output/output_cubesphere_netcdf.py b/wx_factory/output/output_cubesphere_netcdf.py
index dbb15c0..4d1c8ca 100644
--- a/wx_factory/output/output_cubesphere_netcdf.py
+++ b/wx_factory/output/output_cubesphere_netcdf.py
@@ -312,9 +312,8 @@ class OutputCubesphereNetcdf(OutputCubesphere):
 
             # Unpack physical variables
             h = Q[idx_h, :, :]
-            if self.topo is not None:
-                h += self.topo.hsurf
-            self.store_field(geom.to_single_block(prepare(h)), "h", idx)
+            height = h if self.topo is None else h + self.topo.hsurf
+            self.store_field(geom.to_single_block(prepare(height)), "h", idx)
 
             if self.config.case_number >= 2:
                 u1 = Q[idx_hu1, :, :] / h
-- 
2.43.0


From 3971048c1ef9e96cde3bd32a7e341985734285ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:37:39 +0000
Subject: [PATCH 32/41] fix: the 2D metric's sqrtG is the volume element of the
 reference element

---
 wx_factory/geometry/metric2d.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/wx_factory/geometry/metric2d.py b/wx_factory/geometry/metric2d.py
index 04f67a1..ce5bd60 100644
--- a/wx_factory/geometry/metric2d.py
+++ b/wx_factory/geometry/metric2d.py
@@ -127,9 +127,9 @@ class Metric2D:
         # x1 and x2 run from -pi/4 to pi/4 and x3 runs from 0 to htop, but inside each elemenet
         # (from the perspective of the differentiation matrices) each coordinate runs from -1 to 1.
 
-        self.sqrtG *= geom.delta_x1 * geom.delta_x2 / 8.0
-        self.sqrtG_itf_i *= geom.delta_x1 * geom.delta_x2 / 8.0
-        self.sqrtG_itf_j *= geom.delta_x1 * geom.delta_x2 / 8.0
+        self.sqrtG *= geom.delta_x1 * geom.delta_x2 / 4.0
+        self.sqrtG_itf_i *= geom.delta_x1 * geom.delta_x2 / 4.0
+        self.sqrtG_itf_j *= geom.delta_x1 * geom.delta_x2 / 4.0
 
         self.inv_sqrtG = 1.0 / self.sqrtG
 
-- 
2.43.0


From f388964d94b3a8d76010d3e0d33db2de07021232 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:37:39 +0000
Subject: [PATCH 33/41] fix: relative vorticity is the curl of the wind

---
 wx_factory/output/diagnostic.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/wx_factory/output/diagnostic.py b/wx_factory/output/diagnostic.py
index a5b1844..19cfc16 100644
--- a/wx_factory/output/diagnostic.py
+++ b/wx_factory/output/diagnostic.py
@@ -11,8 +11,9 @@ def relative_vorticity(u1_contra: NDArray, u2_contra: NDArray, metric: Metric2D,
     u1_dual = metric.H_cov_11 * u1_contra + metric.H_cov_12 * u2_contra
     u2_dual = metric.H_cov_21 * u1_contra + metric.H_cov_22 * u2_contra
 
-    du1dx2 = u2_dual @ mtrx.derivative_y
-    du2dx1 = u1_dual @ mtrx.derivative_x
+    # Element-wise derivatives: contribution from the solution points, plus that of the (extrapolated) interface values
+    du1dx2 = u1_dual @ mtrx.derivative_y + (u1_dual @ mtrx.extrap_y) @ mtrx.correction_SN
+    du2dx1 = u2_dual @ mtrx.derivative_x + (u2_dual @ mtrx.extrap_x) @ mtrx.correction_WE
 
     vort = metric.inv_sqrtG * (du2dx1 - du1dx2)
 
-- 
2.43.0


From 81ab249824ec5f5da6dc9ab1de85cebf499aa68b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:52:07 +0000
Subject: [PATCH 34/41] fix: 2D bubble test cases start on the element layout,
 unknown cases are refused

Cases 1, 3 and 4 looped over dimensions that no longer exist (NameError), and an
unknown case number silently ran with no perturbation at all.
---
 wx_factory/init/initialize.py | 35 +++++++++++------------------------
 1 file changed, 11 insertions(+), 24 deletions(-)

diff --git a/wx_factory/init/initialize.py b/wx_factory/init/initialize.py
index df2e009..36614fb 100644
--- a/wx_factory/init/initialize.py
+++ b/wx_factory/init/initialize.py
@@ -234,11 +234,8 @@ def initialize_cartesian2d(geom: Cartesian2D, param: Configuration) -> NDArray[n
 
         pert = 0.5
 
-        for k in range(nk):
-            for i in range(ni):
-                r = (geom.X1[k, i] - xc) ** 2 + (geom.X3[k, i] - zc) ** 2
-                if r < param.bubble_rad**2:
-                    θ[k, i] += pert
+        r = (geom.X1 - xc) ** 2 + (geom.X3 - zc) ** 2
+        θ = xp.where(r < param.bubble_rad**2, θ + pert, θ)
 
     elif param.case_number == 2:
         # Gaussian bubble
@@ -272,26 +269,16 @@ def initialize_cartesian2d(geom: Cartesian2D, param: Configuration) -> NDArray[n
         s = 50
         x0 = 500
         z0 = 300
-        for k in range(nk):
-            for i in range(ni):
-                r = xp.sqrt((geom.X1[k, i] - x0) ** 2 + (geom.X3[k, i] - z0) ** 2)
-                if r <= a:
-                    θ[k, i] += A
-                else:
-                    θ[k, i] += A * xp.exp(-(((r - a) / s) ** 2))
+        r = xp.sqrt((geom.X1 - x0) ** 2 + (geom.X3 - z0) ** 2)
+        θ = xp.where(r <= a, θ + A, θ + A * xp.exp(-(((r - a) / s) ** 2)))
 
         A = -0.15
         a = 0
         s = 50
         x0 = 560
         z0 = 640
-        for k in range(nk):
-            for i in range(ni):
-                r = xp.sqrt((geom.X1[k, i] - x0) ** 2 + (geom.X3[k, i] - z0) ** 2)
-                if r <= a:
-                    θ[k, i] += A
-                else:
-                    θ[k, i] += A * xp.exp(-(((r - a) / s) ** 2))
+        r = xp.sqrt((geom.X1 - x0) ** 2 + (geom.X3 - z0) ** 2)
+        θ = xp.where(r <= a, θ + A, θ + A * xp.exp(-(((r - a) / s) ** 2)))
 
     elif param.case_number == 4:
         # Cold density current
@@ -304,14 +291,14 @@ def initialize_cartesian2d(geom: Cartesian2D, param: Configuration) -> NDArray[n
         # Use periodic BC in x-direction
         # geom.xperiodic = True
 
-        for k in range(nk):
-            for i in range(ni):
-                r = xp.sqrt(((geom.X1[k, i] - x0) / xr) ** 2 + ((geom.X3[k, i] - z0) / zr) ** 2)
-                if r <= 1.0:
-                    θ[k, i] += 0.5 * θc * (1.0 + xp.cos(xp.pi * r))
+        r = xp.sqrt(((geom.X1 - x0) / xr) ** 2 + ((geom.X3 - z0) / zr) ** 2)
+        θ = xp.where(r <= 1.0, θ + 0.5 * θc * (1.0 + xp.cos(xp.pi * r)), θ)
 
         geom.make_mountain(mountain_type="step")
 
+    else:
+        raise ValueError(f"Unknown case number {param.case_number} for the 2D Cartesian Euler equations")
+
     if param.case_number == 0:
         N_star = 0.01
         t0 = 288
-- 
2.43.0


From 5d198e8cfa8d3612c629305973a9aa250dc0458a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:52:07 +0000
Subject: [PATCH 35/41] fix: the configuration schema enforces output_format
 and matsuno_wave_type choices

output_format listed its choices under a key the schema reader ignores, and the
wave type was lower-cased, which no wave type matches.
---
 config/config-format.json | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/config/config-format.json b/config/config-format.json
index 270598e..769f1e4 100644
--- a/config/config-format.json
+++ b/config/config-format.json
@@ -53,7 +53,8 @@
                 },
                 {
                     "name": "matsuno_wave_type",
-                    "type": "str",
+                    "type": "case-sensitive-str",
+                    "selectables": ["Rossby", "EIG", "WIG"],
                     "dependency": {
                         "name": "case_number",
                         "values": [9]
@@ -519,7 +520,7 @@
                     "name": "output_format",
                     "type": "str",
                     "default": "netcdf",
-                    "selectable": ["netcdf", "fst"],
+                    "selectables": ["netcdf", "fst"],
                     "description": "Desired format to use for storing simulation results."
                 }
             ]
-- 
2.43.0


From dc79c997c84dbdbe9dc0caf14811100474f779cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:53:11 +0000
Subject: [PATCH 36/41] fix: EPI_stiff refuses exponential solvers it does not
 have

It silently ran KIOPS for every choice other than pmex and exode.
---
 wx_factory/integrators/epi_stiff.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/wx_factory/integrators/epi_stiff.py b/wx_factory/integrators/epi_stiff.py
index 2946096..3b06b29 100644
--- a/wx_factory/integrators/epi_stiff.py
+++ b/wx_factory/integrators/epi_stiff.py
@@ -108,7 +108,7 @@ class EpiStiff(Integrator):
                     f" with local error {stats[3]}"
                 )
 
-        else:
+        elif self.exponential_solver == "kiops":
             phiv, stats = kiops(
                 [1], matvec_handle, vec, tol=self.tol, m_init=self.krylov_size, mmin=16, mmax=64, task1=False
             )
@@ -121,6 +121,9 @@ class EpiStiff(Integrator):
                     f" {stats[1]} rejected expm) to a solution with local error {stats[4]:.2e}"
                 )
 
+        else:
+            raise ValueError(f"Unrecognized exponential solver {self.exponential_solver}")
+
         # Save values for the next timestep
         if self.n_prev > 0:
             self.previous_Q.pop()
-- 
2.43.0


From 2d146d8e8eb167526b853bc13582c595db5d78f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:53:11 +0000
Subject: [PATCH 37/41] fix: partitioned integrators are refused with a message
 on the cubed sphere too

They ended in an AttributeError (no implicit / explicit right-hand side).
---
 wx_factory/rhs/rhs_selector.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/wx_factory/rhs/rhs_selector.py b/wx_factory/rhs/rhs_selector.py
index 3fa999c..89f33da 100644
--- a/wx_factory/rhs/rhs_selector.py
+++ b/wx_factory/rhs/rhs_selector.py
@@ -36,6 +36,11 @@ class RhsBundle:
         def not_implemented(_):
             raise ValueError(f"Partitioned integrators have not been ported to the new layout yet")
 
+        self.implicit = not_implemented
+        self.explicit = not_implemented
+        self.convective = not_implemented
+        self.viscous = not_implemented
+
         if param.discretization == "dfr" or param.discretization == "dg":
             rhs_class = RHSDirecFluxReconstruction
         elif param.discretization == "fv":
@@ -75,10 +80,5 @@ class RhsBundle:
         elif param.equations == "euler" and isinstance(geom, Cartesian2D):
             pde = PDEEulerCartesian(geom, param, metric)
             self.full = rhs_class(pde, geom, operators, metric, topo, ptopo, param, fields_shape)
-
-            self.implicit = not_implemented
-            self.explicit = not_implemented
-            self.convective = not_implemented
-            self.viscous = not_implemented
         else:
             raise ValueError(f"Unrecognized combination of equations ({param.equations}) and geometry ({type(geom)})")
-- 
2.43.0


From 4cf575d72b1126bf264b82e1a81247c338a9ce76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:08:11 +0000
Subject: [PATCH 38/41] fix: one element per process and panel side keeps the
 2D interface layout

---
 wx_factory/geometry/cubed_sphere_2d.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/wx_factory/geometry/cubed_sphere_2d.py b/wx_factory/geometry/cubed_sphere_2d.py
index 8f944ea..99f8b31 100644
--- a/wx_factory/geometry/cubed_sphere_2d.py
+++ b/wx_factory/geometry/cubed_sphere_2d.py
@@ -532,7 +532,7 @@ class CubedSphere2D(CubedSphere):
             new[self.east_edge] = 0.0
             new[self.west_edge] = 0.0
 
-            return xp.squeeze(new)
+            return new
         else:
             raise ValueError(f"Unexpected array shape {a.shape} (expected {expected_shape})")
 
@@ -557,7 +557,7 @@ class CubedSphere2D(CubedSphere):
 
             # raise ValueError(f'a = \n{a[0]}\nnew_tmp = \n{new_tmp[0]}\nnew = \n{new[0]}')
 
-            return xp.squeeze(new)
+            return new
         else:
             raise ValueError(f"Unexpected array shape {a.shape} (expected {expected_shape})")
 
-- 
2.43.0


From a674f4047669100f44c72dba8a16099817f489e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:12:10 +0000
Subject: [PATCH 39/41] fix: test case 20 (steady state with mountain) starts
 on the element layout

---
 wx_factory/init/dcmip.py | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/wx_factory/init/dcmip.py b/wx_factory/init/dcmip.py
index ccb8cb7..d699ac5 100644
--- a/wx_factory/init/dcmip.py
+++ b/wx_factory/init/dcmip.py
@@ -479,10 +479,19 @@ def dcmip_steady_state_mountain(geom: CubedSphere3D, metric, mtrx, param):
         )  # mountain height
 
     # Update the geometry object with the new bottom topography
-    geom.apply_topography(zbot, zbot_itf_i, zbot_itf_j)
+    geom.apply_topography(
+        zbot,
+        zbot_itf_i,
+        zbot_itf_j,
+        geom.to_new_floor(zbot),
+        geom.to_new_itf_i_floor(zbot_itf_i),
+        geom.to_new_itf_j_floor(zbot_itf_j),
+    )
     # And regenerate the metric to take this new topography into account
     metric.build_metric()
 
+    height = geom.polar[2, ...]
+
     # -----------------------------------------------------------------------
     #    PS (surface pressure)
     # -----------------------------------------------------------------------
@@ -497,9 +506,9 @@ def dcmip_steady_state_mountain(geom: CubedSphere3D, metric, mtrx, param):
     # -----------------------------------------------------------------------
 
     if gamma != 0:
-        p = p0 * (1.0 - gamma / T0 * geom.height) ** exponent
+        p = p0 * (1.0 - gamma / T0 * height) ** exponent
     else:
-        p = p0 * numpy.exp(-gravity / Rd * geom.height / T0)
+        p = p0 * numpy.exp(-gravity / Rd * height / T0)
 
     # -----------------------------------------------------------------------
     #    THE VELOCITIES ARE ZERO (STATE AT REST)
@@ -517,13 +526,13 @@ def dcmip_steady_state_mountain(geom: CubedSphere3D, metric, mtrx, param):
 
     w = 0.0
 
-    u1_contra, u2_contra = wind2contra_2d(u, v, geom)
+    u1_contra, u2_contra = geom.wind2contra_2d(u, v)
 
     # -----------------------------------------------------------------------
     #    TEMPERATURE WITH CONSTANT LAPSE RATE
     # -----------------------------------------------------------------------
 
-    t = T0 - gamma * geom.height
+    t = T0 - gamma * height
 
     # -----------------------------------------------------------------------
     #    RHO (density)
-- 
2.43.0


From 7705a17e86654c0083d0f0947a7cb9c483e4ba09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:28:07 +0000
Subject: [PATCH 40/41] fix: the statistics take the shortened last step into
 account at the call site

Leaves the test case definitions (init/shallow_water_test.py) as they were.
---
 wx_factory/init/shallow_water_test.py  | 4 ++--
 wx_factory/output/output_cubesphere.py | 7 +++++--
 2 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/wx_factory/init/shallow_water_test.py b/wx_factory/init/shallow_water_test.py
index e68f3e6..132e5ad 100644
--- a/wx_factory/init/shallow_water_test.py
+++ b/wx_factory/init/shallow_water_test.py
@@ -63,7 +63,7 @@ def circular_vortex(geom, metric, param):
 
 
 def height_vortex(geom, metric, param, step):
-    step_time = min(step * param.dt, param.t_end)
+    step_time = step * param.dt
 
     lon_center = math.pi - 0.8
     lat_center = math.pi / 4.8
@@ -118,7 +118,7 @@ def williamson_case1(geom, metric, param):
 
 def height_case1(geom: CubedSphere2D, metric, param, step):
     # Initialize gaussian bell
-    step_time = min(step * param.dt, param.t_end)
+    step_time = step * param.dt
 
     ubar = 2.0 * math.pi / (12.0 * day_in_secs)
 
diff --git a/wx_factory/output/output_cubesphere.py b/wx_factory/output/output_cubesphere.py
index f37a88c..60ec43d 100644
--- a/wx_factory/output/output_cubesphere.py
+++ b/wx_factory/output/output_cubesphere.py
@@ -45,10 +45,13 @@ class OutputCubesphere(OutputManager):
 
         h = Q[0, :, :]
 
+        # The last step may be shorter than dt
+        num_steps = min(step_id, self.config.t_end / self.config.dt)
+
         if self.config.case_number == 0:
-            h_anal, _ = height_vortex(self.geometry, self.metric, self.config, step_id)
+            h_anal, _ = height_vortex(self.geometry, self.metric, self.config, num_steps)
         elif self.config.case_number == 1:
-            h_anal = height_case1(self.geometry, self.metric, self.config, step_id)
+            h_anal = height_case1(self.geometry, self.metric, self.config, num_steps)
         elif self.config.case_number == 2:
             h_anal = height_case2(self.geometry, self.metric, self.config)
         elif self.config.case_number == 10:
-- 
2.43.0


From ff71e21ff593d1ba943459beebcadb6af3ab87b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:28:07 +0000
Subject: [PATCH 41/41] fix: restarting an exponential solver's substep keeps
 the augmented part

The auxiliary components of the augmented system after a time tau_now are
mu * tau_now^(p-1-k) / (p-1-k)!; the restarts used p-k+1, so any combination
with phi_2 or above was wrong as soon as a second substep was taken.
---
 wx_factory/solvers/cwy_1s.py     | 2 +-
 wx_factory/solvers/cwy_ne.py     | 2 +-
 wx_factory/solvers/cwy_ne1s.py   | 2 +-
 wx_factory/solvers/dcgs2.py      | 2 +-
 wx_factory/solvers/icwy_1s.py    | 2 +-
 wx_factory/solvers/icwy_ne.py    | 2 +-
 wx_factory/solvers/icwy_ne1s.py  | 2 +-
 wx_factory/solvers/icwy_neiop.py | 2 +-
 wx_factory/solvers/kiops.py      | 2 +-
 wx_factory/solvers/kiops_nest.py | 2 +-
 wx_factory/solvers/pmex.py       | 2 +-
 wx_factory/solvers/pmex_1s.py    | 2 +-
 wx_factory/solvers/pmex_ne1s.py  | 2 +-
 13 files changed, 13 insertions(+), 13 deletions(-)

diff --git a/wx_factory/solvers/cwy_1s.py b/wx_factory/solvers/cwy_1s.py
index bdb7901..ccf98ee 100644
--- a/wx_factory/solvers/cwy_1s.py
+++ b/wx_factory/solvers/cwy_1s.py
@@ -159,7 +159,7 @@ def cwy_1s(τ_out, A, u, tol=1e-7, m_init=10, mmin=10, mmax=128, iop=2, task1=Fa
 
             # Update the last part of w
             for k in range(p - 1):
-                i = p - k + 1
+                i = p - k - 1
                 V[j, n + k] = (τ_now**i) / math.factorial(i) * mu
             V[j, n + p - 1] = mu
 
diff --git a/wx_factory/solvers/cwy_ne.py b/wx_factory/solvers/cwy_ne.py
index 5efd894..61d53c2 100644
--- a/wx_factory/solvers/cwy_ne.py
+++ b/wx_factory/solvers/cwy_ne.py
@@ -147,7 +147,7 @@ def cwy_ne(τ_out, A, u, tol=1e-7, m_init=10, mmin=10, mmax=128, iop=2, task1=Fa
 
             # Update the last part of w
             for k in range(p - 1):
-                i = p - k + 1
+                i = p - k - 1
                 V[j, n + k] = (τ_now**i) / math.factorial(i) * mu
             V[j, n + p - 1] = mu
 
diff --git a/wx_factory/solvers/cwy_ne1s.py b/wx_factory/solvers/cwy_ne1s.py
index d22fe38..2055dbc 100644
--- a/wx_factory/solvers/cwy_ne1s.py
+++ b/wx_factory/solvers/cwy_ne1s.py
@@ -142,7 +142,7 @@ def cwy_ne1s(τ_out, A, u, tol=1e-7, m_init=10, mmin=10, mmax=128, iop=2, task1=
 
             # Update the last part of w
             for k in range(p - 1):
-                i = p - k + 1
+                i = p - k - 1
                 V[j, n + k] = (τ_now**i) / math.factorial(i) * mu
             V[j, n + p - 1] = mu
 
diff --git a/wx_factory/solvers/dcgs2.py b/wx_factory/solvers/dcgs2.py
index 9ac2edd..98a289f 100644
--- a/wx_factory/solvers/dcgs2.py
+++ b/wx_factory/solvers/dcgs2.py
@@ -142,7 +142,7 @@ def dcgs2(τ_out, A, u, tol=1e-7, m_init=10, mmin=10, mmax=128, iop=2, task1=Fal
 
             # Update the last part of w
             for k in range(p - 1):
-                i = p - k + 1
+                i = p - k - 1
                 V[j, n + k] = (τ_now**i) / math.factorial(i) * mu
             V[j, n + p - 1] = mu
 
diff --git a/wx_factory/solvers/icwy_1s.py b/wx_factory/solvers/icwy_1s.py
index 06c3010..a8f5793 100644
--- a/wx_factory/solvers/icwy_1s.py
+++ b/wx_factory/solvers/icwy_1s.py
@@ -153,7 +153,7 @@ def icwy_1s(τ_out, A, u, tol=1e-7, m_init=10, mmin=10, mmax=128, iop=2, task1=F
 
             # Update the last part of w
             for k in range(p - 1):
-                i = p - k + 1
+                i = p - k - 1
                 V[j, n + k] = (τ_now**i) / math.factorial(i) * mu
             V[j, n + p - 1] = mu
 
diff --git a/wx_factory/solvers/icwy_ne.py b/wx_factory/solvers/icwy_ne.py
index 075f316..086aeeb 100644
--- a/wx_factory/solvers/icwy_ne.py
+++ b/wx_factory/solvers/icwy_ne.py
@@ -142,7 +142,7 @@ def icwy_ne(τ_out, A, u, tol=1e-7, m_init=10, mmin=10, mmax=128, iop=2, task1=F
 
             # Update the last part of w
             for k in range(p - 1):
-                i = p - k + 1
+                i = p - k - 1
                 V[j, n + k] = (τ_now**i) / math.factorial(i) * mu
             V[j, n + p - 1] = mu
 
diff --git a/wx_factory/solvers/icwy_ne1s.py b/wx_factory/solvers/icwy_ne1s.py
index f220e7e..61f1c84 100644
--- a/wx_factory/solvers/icwy_ne1s.py
+++ b/wx_factory/solvers/icwy_ne1s.py
@@ -144,7 +144,7 @@ def icwy_ne1s(τ_out, A, u, tol=1e-7, m_init=10, mmin=10, mmax=128, iop=2, task1
 
             # Update the last part of w
             for k in range(p - 1):
-                i = p - k + 1
+                i = p - k - 1
                 V[j, n + k] = (τ_now**i) / math.factorial(i) * mu
             V[j, n + p - 1] = mu
 
diff --git a/wx_factory/solvers/icwy_neiop.py b/wx_factory/solvers/icwy_neiop.py
index 907fed3..f16774d 100644
--- a/wx_factory/solvers/icwy_neiop.py
+++ b/wx_factory/solvers/icwy_neiop.py
@@ -142,7 +142,7 @@ def icwy_neiop(τ_out, A, u, tol=1e-7, m_init=10, mmin=10, mmax=128, iop=2, task
 
             # Update the last part of w
             for k in range(p - 1):
-                i = p - k + 1
+                i = p - k - 1
                 V[j, n + k] = (τ_now**i) / math.factorial(i) * mu
             V[j, n + p - 1] = mu
 
diff --git a/wx_factory/solvers/kiops.py b/wx_factory/solvers/kiops.py
index 34a724b..3fa344d 100644
--- a/wx_factory/solvers/kiops.py
+++ b/wx_factory/solvers/kiops.py
@@ -158,7 +158,7 @@ def kiops(
 
             # Update the last part of w
             for k in range(p - 1):
-                i = p - k + 1
+                i = p - k - 1
                 V[0, n + k] = (tau_now**i) / math.factorial(i) * mu
             V[0, n + p - 1] = mu
 
diff --git a/wx_factory/solvers/kiops_nest.py b/wx_factory/solvers/kiops_nest.py
index 1021819..1caee69 100644
--- a/wx_factory/solvers/kiops_nest.py
+++ b/wx_factory/solvers/kiops_nest.py
@@ -142,7 +142,7 @@ def kiops_nest(τ_out, A, u, tol=1e-7, m_init=10, mmin=10, mmax=128, iop=2, task
 
             # Update the last part of w
             for k in range(p - 1):
-                i = p - k + 1
+                i = p - k - 1
                 V[j, n + k] = (τ_now**i) / math.factorial(i) * mu
             V[j, n + p - 1] = mu
 
diff --git a/wx_factory/solvers/pmex.py b/wx_factory/solvers/pmex.py
index 16d1c7c..9c7a30a 100644
--- a/wx_factory/solvers/pmex.py
+++ b/wx_factory/solvers/pmex.py
@@ -141,7 +141,7 @@ def pmex(
 
             # Update the last part of w
             for k in range(p - 1):
-                i = p - k + 1
+                i = p - k - 1
                 V[j, n + k] = (tau_now**i) / math.factorial(i) * mu
             V[j, n + p - 1] = mu
 
diff --git a/wx_factory/solvers/pmex_1s.py b/wx_factory/solvers/pmex_1s.py
index 04641fb..8456cc1 100644
--- a/wx_factory/solvers/pmex_1s.py
+++ b/wx_factory/solvers/pmex_1s.py
@@ -129,7 +129,7 @@ def pmex_1s(τ_out, A, u, tol=1e-7, delta=1.2, m_init=10, mmin=10, mmax=128, reu
 
             # Update the last part of w
             for k in range(p - 1):
-                i = p - k + 1
+                i = p - k - 1
                 V[j, n + k] = (τ_now**i) / math.factorial(i) * mu
             V[j, n + p - 1] = mu
 
diff --git a/wx_factory/solvers/pmex_ne1s.py b/wx_factory/solvers/pmex_ne1s.py
index b292a09..d1065e6 100644
--- a/wx_factory/solvers/pmex_ne1s.py
+++ b/wx_factory/solvers/pmex_ne1s.py
@@ -115,7 +115,7 @@ def pmex_ne1s(τ_out, A, u, tol=1e-7, delta=1.2, m_init=10, mmin=10, mmax=128, r
 
             # Update the last part of w
             for k in range(p - 1):
-                i = p - k + 1
+                i = p - k - 1
                 V[j, n + k] = (τ_now**i) / math.factorial(i) * mu
             V[j, n + p - 1] = mu
 
-- 
2.43.0

