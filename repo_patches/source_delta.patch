From 267d958c27147c9af9788230eec392f7caceb20a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:03 +0000
Subject: [PATCH 01/30] fix: solve the n-dimensional subproblem to global
 optimality

Near-hard cases were judged by a secular function that ignored the pole at
the smallest eigenvalue, the hard case ignored the sign of the remaining
gradient component, eig() yields non-orthogonal vectors for repeated
eigenvalues, and absolute tolerances let steps leave small trust regions.
---
 fides/subproblem.py | 41 +++++++++++++++++++++++++++--------------
 1 file changed, 27 insertions(+), 14 deletions(-)

diff --git a/fides/subproblem.py b/fides/subproblem.py
index 692be3e..81dcaf2 100644
--- a/fides/subproblem.py
+++ b/fides/subproblem.py
@@ -135,9 +135,8 @@ def solve_nd_trust_region_subproblem(
 
     # instead of a cholesky factorization, we go with an eigenvalue
     # decomposition, which works pretty well for n=2
-    eigvals, eigvecs = linalg.eig(b)
-    eigvals = np.real(eigvals)
-    eigvecs = np.real(eigvecs)
+    # the quadratic form only depends on the symmetric part of B
+    eigvals, eigvecs = linalg.eigh(0.5 * (b + b.T))
     w = -eigvecs.T.dot(g)
     jmin = eigvals.argmin()
     mineig = eigvals[jmin]
@@ -154,7 +153,7 @@ def solve_nd_trust_region_subproblem(
     # POSITIVE DEFINITE
     if mineig > 0:  # positive definite
         s = np.real(slam(0, w, eigvals, eigvecs))  # s = - self.cB\self.cg_hat
-        if norm(s) <= delta + np.sqrt(np.spacing(1)):  # CASE 0
+        if norm(s) <= delta * (1 + np.sqrt(np.spacing(1))):  # CASE 0
             logger.debug('Interior subproblem solution')
             return s, 'posdef'
         else:
@@ -168,17 +167,19 @@ def solve_nd_trust_region_subproblem(
     # the respective w should be close to 0 anyways
     if secular(laminit, w, eigvals, eigvecs, delta) < 0:
         maxiter = 100
+        # lambda is of the order of ||g||/delta
+        tol = max(1e-12 * min(1.0, norm(g) / delta), np.finfo(float).tiny)
         try:
             r = newton(
                 secular,
                 laminit,
                 dsecular,
-                tol=1e-12,
+                tol=tol,
                 maxiter=maxiter,
                 args=(w, eigvals, eigvecs, delta),
             )
             s = slam(r, w, eigvals, eigvecs)
-            if norm(s) <= delta + 1e-12:
+            if np.isclose(norm(s), delta, rtol=1e-9, atol=0.0):
                 logger.debug('Found boundary subproblem solution via newton')
                 return s, 'indef'
         except RuntimeError:
@@ -196,12 +197,12 @@ def solve_nd_trust_region_subproblem(
                     secular,
                     xa,
                     xb,
-                    xtol=1e-12,
+                    xtol=tol,
                     maxiter=maxiter,
                     args=(w, eigvals, eigvecs, delta),
                 )
                 s = slam(r, w, eigvals, eigvecs)
-                if norm(s) <= delta + np.sqrt(np.spacing(1)):
+                if np.isclose(norm(s), delta, rtol=1e-8, atol=0.0):
                     logger.debug(
                         'Found boundary subproblem solution via brentq'
                     )
@@ -209,15 +210,22 @@ def solve_nd_trust_region_subproblem(
         except RuntimeError:
             pass  # may end up here due to ill-conditioning, treat as hard case
 
-    # HARD CASE (gradient is orthogonal to eigenvector to smallest eigenvalue)
-    w[(eigvals - mineig) == 0] = 0
+    # HARD CASE (gradient is (almost) orthogonal to the eigenspace of the
+    # smallest eigenvalue)
+    degen = eigvals - mineig <= 1e-11 * np.max(np.abs(eigvals))
+    d = eigvecs[:, degen].dot(w[degen])
+    if norm(d) == 0:
+        d = eigvecs[:, jmin]
+    w[degen] = 0
     s = slam(-mineig, w, eigvals, eigvecs)
-    # we know that ||s(lam) + sigma*v_jmin|| = delta, since v_jmin is
-    # orthonormal, we can just substract the difference in norm to get
-    # the right length.
+    if norm(s) > delta:
+        s *= delta / norm(s)
+    # we know that ||s(lam) + sigma*d|| = delta, since d is orthogonal to s
+    # we can just substract the difference in norm to get the right length,
+    # d points along the negative gradient if there is any component left.
 
     sigma = np.sqrt(max(delta**2 - norm(s) ** 2, 0))
-    s = s + sigma * eigvecs[:, jmin]
+    s = s + sigma * d / norm(d)
     logger.debug('Found boundary 2D subproblem solution via hard case')
     return s, 'hard'
 
@@ -305,6 +313,8 @@ def secular(
     """
     if lam < -np.min(eigvals):
         return np.inf  # safeguard to implement boundary
+    if np.any(w[eigvals + lam == 0] != 0):
+        return -1 / delta  # ||s|| is infinite at the pole
     s = slam(lam, w, eigvals, eigvecs)
     sn = norm(s)
     if sn > 0:
@@ -341,6 +351,9 @@ def dsecular(
     :return:
         :math:`\frac{\partial \phi(\lambda)}{\partial \lambda}`
     """
+    pole = norm(w[eigvals + lam == 0])
+    if pole > 0:
+        return 1 / pole  # limit of the derivative at the pole
     s = slam(lam, w, eigvals, eigvecs)
     ds = dslam(lam, w, eigvals, eigvecs)
     sn = norm(s)
-- 
2.43.0


From 024d1e0d282a2a5b15cbdb070e99568310ec7018 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:17 +0000
Subject: [PATCH 02/30] fix: finite 1d boundary solution for offsets on the
 trust-region boundary

The boundary solution was 0/0 or the root of a negative number for an
offset at the boundary and a (nearly) tangential direction.
---
 fides/subproblem.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/fides/subproblem.py b/fides/subproblem.py
index 81dcaf2..15d4bd5 100644
--- a/fides/subproblem.py
+++ b/fides/subproblem.py
@@ -73,9 +73,12 @@ def solve_1d_trust_region_subproblem(
 def get_1d_trust_region_boundary_solution(b, g, s, s0, delta):
     a = np.dot(s, s)
     b_coef = 2 * np.dot(s0, s)
-    c = np.dot(s0, s0) - delta**2
+    # s0 may exceed delta due to rounding
+    c = min(np.dot(s0, s0) - delta**2, 0.0)
 
     aux = b_coef + math.copysign(np.sqrt(b_coef**2 - 4 * a * c), b_coef)
+    if aux == 0:
+        return 0.0  # s0 is at the boundary and s is tangential
     ts = [-aux / (2 * a), -2 * c / aux]
     qs = [quadratic_form(b, g, s0 + t * s) for t in ts]
     return ts[np.argmin(qs)]
-- 
2.43.0


From e053f21912f099c8f764e7b9e3340250e8adb98c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:36 +0000
Subject: [PATCH 03/30] fix: use the symmetric part of non-symmetric Hessian
 approximations in steps

Conjugate gradients need not terminate and eigenvectors may be complex for
the non-symmetric matrices of Broyden's methods, while the quadratic model
only depends on the symmetric part.
---
 fides/steps.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/fides/steps.py b/fides/steps.py
index 0ee9f00..8940ebf 100644
--- a/fides/steps.py
+++ b/fides/steps.py
@@ -135,9 +135,10 @@ class Step:
 
         self.qpval: float = 0.0
 
-        # B_hat (Eq 2.5) [ColemanLi1996]
+        # B_hat (Eq 2.5) [ColemanLi1996], the quadratic model only depends on
+        # the symmetric part of the Hessian approximation
         self.shess: np.ndarray = np.asarray(
-            scaling * hess * scaling + g_dscaling
+            scaling * (0.5 * (hess + hess.T)) * scaling + g_dscaling
         )
 
         self.cg: np.ndarray | None = None
-- 
2.43.0


From 374af48c930f26ad4b151984cd0a8d737053fd8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:53 +0000
Subject: [PATCH 04/30] fix: orthonormal 2d subspace for almost parallel Newton
 and gradient steps

After projecting out an almost parallel Newton direction only rounding
errors remain of the gradient, which are not orthogonal to the former, so
that steps could leave the trust region.
---
 fides/steps.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/fides/steps.py b/fides/steps.py
index 8940ebf..beee2dd 100644
--- a/fides/steps.py
+++ b/fides/steps.py
@@ -313,9 +313,13 @@ class TRStep2D(Step):
             s_grad = scaling.dot(np.sign(sg) + (sg == 0))
 
         normalize(s_newt)
+        normalize(s_grad)
         s_grad = s_grad - s_newt * s_newt.dot(s_grad)
         # if non-zero, add s_grad to subspace
-        if norm(s_grad) > np.spacing(1):
+        if norm(s_grad) > 1e2 * np.spacing(1):
+            # orthogonalize again to remove rounding errors
+            normalize(s_grad)
+            s_grad = s_grad - s_newt * s_newt.dot(s_grad)
             normalize(s_grad)
             self.subspace = np.vstack([s_newt, s_grad]).T
         else:
-- 
2.43.0


From 23346600cf995b4b811efd7290c04ee4c1759897 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:39 +0000
Subject: [PATCH 05/30] fix: orthonormal subspace for truncated steps

Columns need not be orthogonal anymore after deleting the rows of truncated
variables, so that steps could leave the trust region.
---
 fides/steps.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/fides/steps.py b/fides/steps.py
index beee2dd..2c2c15b 100644
--- a/fides/steps.py
+++ b/fides/steps.py
@@ -489,9 +489,9 @@ class TRStepTruncated(Step):
         subspace[iminbr, :] = 0
         # reduce subspace
         subspace = subspace[:, (subspace != 0).any(axis=0)]
-        # normalize subspace
-        for ix in range(subspace.shape[1]):
-            normalize(subspace[:, ix])
+        # orthonormalize subspace, deleting rows may have made columns parallel
+        if subspace.shape[1] > 0:
+            subspace = linalg.orth(subspace)
         self.subspace = subspace
 
         for iminbr in step.iminbr:
-- 
2.43.0


From ce7455fd58d73cc65158ac1a01b1077fef5f9817 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:29 +0000
Subject: [PATCH 06/30] fix: step back all of the conjugate gradient step

Only the last search direction was scaled, predicted and reflected when
stepping back, while the preceding iterates were applied in full or not at
all. Also return the zero step if the gradient vanishes.
---
 fides/steps.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/fides/steps.py b/fides/steps.py
index 2c2c15b..cc8ff70 100644
--- a/fides/steps.py
+++ b/fides/steps.py
@@ -339,7 +339,14 @@ class CGStep(Step):
     def calculate(self):
         nsg = norm(self.sg)
         self.conj_grad(min(0.5, np.sqrt(nsg)) * nsg)
-        self.s = self.scaling.dot(self.ss + self.ss0)
+        # all CG iterates are part of the step, so they all have to be scaled
+        # when stepping back
+        self.ss = self.ss + self.ss0
+        self.ss0 = np.zeros(self.ss.shape)
+        self.sc = norm(self.ss) * np.ones((1,))
+        self.subspace = np.expand_dims(self.ss, 1).copy()
+        normalize(self.subspace)
+        self.s = self.scaling.dot(self.ss)
         self.step_back()
         self.qpval = quadratic_form(self.shess, self.sg, self.ss + self.ss0)
 
@@ -365,7 +372,7 @@ class TRStepSteihaug(CGStep):
         z = np.zeros_like(self.sg)
         r = self.sg.copy()
         d = -self.sg.copy()
-        if norm(r) < eps:
+        if norm(r) <= eps:
             self.ss = z
             return
 
-- 
2.43.0


From 02d7a8a0aeb430061d7aac9e04890eeaa2b77c7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:44 +0000
Subject: [PATCH 07/30] fix: 2d steps for singular and zero one-dimensional
 models

The Newton direction was infinite for vanishing curvature in one dimension
and the minimum norm least squares solution, possibly zero, was taken for a
Newton step if the linear system has no solution.
---
 fides/steps.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/fides/steps.py b/fides/steps.py
index cc8ff70..754c932 100644
--- a/fides/steps.py
+++ b/fides/steps.py
@@ -285,8 +285,8 @@ class TRStep2D(Step):
         self.posdef = np.min(np.real(e)) > -np.spacing(1) * np.max(np.abs(e))
 
         if len(sg) == 1:
-            s_newt = -sg[0] / self.shess[0]
-            self.subspace = np.expand_dims(s_newt, 1)
+            # there is only one direction, the Newton step may not exist
+            self.subspace = np.ones((1, 1))
             return
 
         self.newton = False
@@ -294,7 +294,11 @@ class TRStep2D(Step):
         if self.posdef:
             s_newt = -linalg.lstsq(self.shess, sg)[0]
 
-            if norm(s_newt) < delta:
+            # the least squares solution only is a Newton step if it solves the
+            # linear system, it may not if shess is (almost) singular
+            if norm(s_newt) < delta and np.allclose(
+                self.shess.dot(s_newt), -sg, rtol=0.0, atol=1e-8 * norm(sg)
+            ):
                 # Case 0 of Fig 12 in [ColemanLi1994]
                 normalize(s_newt)
                 self.newton = True
-- 
2.43.0


From 7b22f24eed737890a0bbd44a293cab23eb1dc0c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:35 +0000
Subject: [PATCH 08/30] fix: no gradient convergence based on rejected trial
 points

The gradient of a rejected trial point, e.g., on a plateau or reported along
with a non-finite function value, was used to declare convergence at the
current point.
---
 fides/minimize.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/fides/minimize.py b/fides/minimize.py
index 3ae0166..1a6671e 100644
--- a/fides/minimize.py
+++ b/fides/minimize.py
@@ -611,7 +611,8 @@ class Optimizer:
         xtol = self.get_option(Options.XTOL)
         gatol = self.get_option(Options.GATOL)
         grtol = self.get_option(Options.GRTOL)
-        gnorm = norm(grad)
+        # the gradient at the trial point only matters if it was accepted
+        gnorm = norm(grad if self.tr_ratio > 0.0 else self.grad)
         stepsx = step.ss + step.ss0
         nsx = norm(stepsx)
 
-- 
2.43.0


From 6f6b5e1ad9d11c7ded0d422ef11bfd70be057fae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:21 +0000
Subject: [PATCH 09/30] fix: keep trial points within bounds and report points
 that were evaluated

Trial points could exceed the bounds by rounding errors, which aborted the
run, and accepted points (including the stored minimum) were moved away from
the boundary after function value and gradient had been evaluated. Points at
the boundary only require care in the refinement step.
---
 fides/minimize.py | 4 ++--
 fides/steps.py    | 9 ++++++---
 2 files changed, 8 insertions(+), 5 deletions(-)

diff --git a/fides/minimize.py b/fides/minimize.py
index 1a6671e..0725a7a 100644
--- a/fides/minimize.py
+++ b/fides/minimize.py
@@ -411,7 +411,8 @@ class Optimizer:
                 logger=self.logger,
             )
 
-            x_new = self.x + step.s + step.s0
+            # the step may exceed the bounds by rounding errors
+            x_new = np.clip(self.x + step.s + step.s0, self.lb, self.ub)
             funout_new = self.fevaler(x_new)
 
             if np.isfinite(funout_new.fval):
@@ -529,7 +530,6 @@ class Optimizer:
         self.fval = funout_new.fval
         self.x = funout_new.x
         self.grad = funout_new.grad
-        self.make_non_degenerate()
 
     def update_tr_radius(
         self, funout: Funout, step: Step, dv: np.ndarray
diff --git a/fides/steps.py b/fides/steps.py
index 754c932..fbed94f 100644
--- a/fides/steps.py
+++ b/fides/steps.py
@@ -544,6 +544,9 @@ class RefinedStep(Step):
         self.subspace: np.ndarray = step.subspace.copy()
         self.chess: np.ndarray = step.chess.copy()
         self.cg: np.ndarray = step.cg.copy()
+        # variables that are not scaled are at the boundary and do not move
+        scale = scaling.diagonal()
+        free = scale > 0
         self.constraints = [
             NonlinearConstraint(
                 fun=lambda xc: (norm(self.subspace.dot(xc)) - delta)
@@ -556,9 +559,9 @@ class RefinedStep(Step):
                 ub=np.zeros((1,)),
             ),
             LinearConstraint(
-                A=self.subspace,
-                lb=self.theta * (lb - x) / scaling.diagonal(),
-                ub=self.theta * (ub - x) / scaling.diagonal(),
+                A=self.subspace[free, :],
+                lb=self.theta * (lb - x)[free] / scale[free],
+                ub=self.theta * (ub - x)[free] / scale[free],
             ),
         ]
         self.guess: np.ndarray = step.sc.copy()
-- 
2.43.0


From 62185a6a454064d7bece486db61f6c380f3d9b34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:13 +0000
Subject: [PATCH 10/30] fix: no division by zero in the constraint of the
 refinement step

---
 fides/steps.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fides/steps.py b/fides/steps.py
index fbed94f..2b69a5d 100644
--- a/fides/steps.py
+++ b/fides/steps.py
@@ -554,7 +554,7 @@ class RefinedStep(Step):
                 jac=lambda xc: np.expand_dims(self.subspace.dot(xc), 1).T.dot(
                     self.subspace
                 )
-                / norm(self.subspace.dot(xc)),
+                / max(norm(self.subspace.dot(xc)), np.finfo(float).tiny),
                 lb=-np.ones((1,)) * np.inf,
                 ub=np.zeros((1,)),
             ),
-- 
2.43.0


From 101ab13ede13f214381c25762c4a8c93256e4b4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:13 +0000
Subject: [PATCH 11/30] fix: no division by zero in SR1 for steps the model
 predicts exactly

---
 fides/hessian_approximation.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/fides/hessian_approximation.py b/fides/hessian_approximation.py
index aeb07b9..e6cd664 100644
--- a/fides/hessian_approximation.py
+++ b/fides/hessian_approximation.py
@@ -212,8 +212,9 @@ class SR1(IterativeHessianApproximation):
         z = y - self._hess.dot(s)
         d = z.T.dot(s)
 
-        # [NocedalWright2006] (6.26) reject if update degenerate
-        if np.abs(d) >= np.sqrt(np.spacing(1)) * norm(s) * norm(z):
+        # [NocedalWright2006] (6.26) reject if update degenerate, this
+        # includes z == 0
+        if np.abs(d) > np.sqrt(np.spacing(1)) * norm(s) * norm(z):
             self._diff = np.outer(z, z.T) / d
         else:
             self._diff = np.zeros_like(self._hess)
-- 
2.43.0


From d99e716960d6ab678df586ef43bde833abb46d11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:33 +0000
Subject: [PATCH 12/30] fix: no division by zero in Broyden class and TSSM
 updates

The update is not defined for vanishing curvature and, for TSSM, at zero
residuals.
---
 fides/hessian_approximation.py | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/fides/hessian_approximation.py b/fides/hessian_approximation.py
index e6cd664..c30caf3 100644
--- a/fides/hessian_approximation.py
+++ b/fides/hessian_approximation.py
@@ -548,9 +548,17 @@ class TSSM(StructuredApproximation):
         # Equation (2.6)
         ys = hess.dot(s) + yb
         # Equation (2.10)
-        self._structured_diff = broyden_class_update(
-            ys, s, bs, phi=self.phi, enforce_curv_cond=self.enforce_curv_cond
-        ) / norm(r)
+        if norm(r) > 0:
+            self._structured_diff = broyden_class_update(
+                ys,
+                s,
+                bs,
+                phi=self.phi,
+                enforce_curv_cond=self.enforce_curv_cond,
+            ) / norm(r)
+        else:
+            # second order term does not contribute
+            self._structured_diff = np.zeros_like(self.A)
         self.A += self._structured_diff
         # Equation (2.9)
         self._update_hess_and_store_diff(hess + norm(r) * self.A)
@@ -634,6 +642,10 @@ def broyden_class_update(
     if b <= 0 and enforce_curv_cond:
         return np.zeros_like(mat)
 
+    if b == 0 or c == 0:
+        # update is not defined
+        return np.zeros_like(mat)
+
     update = np.outer(y, y.T) / b - np.outer(u, u.T) / c
 
     if phi != 0.0:
-- 
2.43.0


From ee81dc7f0d30844db67977c962236a18b50fe3bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:53 +0000
Subject: [PATCH 13/30] fix: apply Broyden's bad method

The update was computed but never added to the approximation, and did not
satisfy the secant equation.
---
 fides/hessian_approximation.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/fides/hessian_approximation.py b/fides/hessian_approximation.py
index c30caf3..7053536 100644
--- a/fides/hessian_approximation.py
+++ b/fides/hessian_approximation.py
@@ -245,13 +245,15 @@ class BB(IterativeHessianApproximation):
     This scheme only works with a function that returns (fval, grad)
     """
 
-    def update(self, s: np.ndarray, y: np.ndarray) -> None:
-        b = y.T.dot(s)
+    def _compute_update(self, s: np.ndarray, y: np.ndarray):
+        # inverse of the minimal update of the inverse of the approximation
+        u = self._hess.T.dot(y)
+        b = u.T.dot(s)
         z = y - self._hess.dot(s)
         if b <= 0:
             self._diff = np.zeros_like(self._hess)
         else:
-            self._diff = np.outer(z, s.T) / b
+            self._diff = np.outer(z, u.T) / b
 
 
 class HybridApproximation(HessianApproximation):
-- 
2.43.0


From f56962eda4a40faa7bcf6e21fa81189aa232a22b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:13 +0000
Subject: [PATCH 14/30] fix: undo the switch of hybrid schemes when starting a
 new run

---
 fides/hessian_approximation.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/fides/hessian_approximation.py b/fides/hessian_approximation.py
index 7053536..e817583 100644
--- a/fides/hessian_approximation.py
+++ b/fides/hessian_approximation.py
@@ -277,6 +277,10 @@ class HybridApproximation(HessianApproximation):
 
 
 class HybridSwitchApproximation(HybridApproximation):
+    def _init_mat(self, dim: int, hess: np.ndarray | None = None):
+        super()._init_mat(dim, hess)
+        self._switched = False
+
     def _switched_update(self, s: np.ndarray, y: np.ndarray, hess: np.ndarray):
         self.hessian_update.update(s, y)
         new_hess = self.hessian_update.get_mat() if self._switched else hess
-- 
2.43.0


From 81badb096d40c1344736b9dce84099f37bd73ebf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:35 +0000
Subject: [PATCH 15/30] fix: reset exit flag and agreement ratio when starting
 a new run

A run that was aborted by an exception kept the exit flag of the previous
run.
---
 fides/minimize.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/fides/minimize.py b/fides/minimize.py
index 0725a7a..372ef49 100644
--- a/fides/minimize.py
+++ b/fides/minimize.py
@@ -301,8 +301,10 @@ class Optimizer:
         self.iterations_since_tr_update = 0
         self.n_intermediate_tr_radius = 0
         self.converged = False
+        self.exitflag = ExitFlag.DID_NOT_RUN
         self.delta = self.get_option(Options.DELTA_INIT)
         self.delta_iter = self.delta
+        self.tr_ratio = 1
         self.fval_min = np.inf
         self.logger = create_logger(self.verbose)
         if not start_id:
-- 
2.43.0


From 5c570c6511a5cff5b04bb9527c5fdbd2ba3f81a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:55 +0000
Subject: [PATCH 16/30] fix: allow residual functions without Hessian
 approximation scheme

Three return values were expected, but only two could be processed.
---
 fides/minimize.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/fides/minimize.py b/fides/minimize.py
index 372ef49..676a77b 100644
--- a/fides/minimize.py
+++ b/fides/minimize.py
@@ -226,10 +226,13 @@ class Optimizer:
         """
         nargout = (
             3
-            if hessian_update is None
-            or (
-                hessian_update.requires_hess
-                and not hessian_update.requires_resfun
+            if not resfun
+            and (
+                hessian_update is None
+                or (
+                    hessian_update.requires_hess
+                    and not hessian_update.requires_resfun
+                )
             )
             else 2
         )
-- 
2.43.0


From f4a4fe2dba232daaa3d2db291f5744cbab164afa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:53 +0000
Subject: [PATCH 17/30] fix: treat integer starts, bounds and Hessians as
 floating point numbers

Integer starts and bounds truncated values computed from them and integer
initial Hessians could not be updated.
---
 fides/hessian_approximation.py |  4 ++--
 fides/minimize.py              | 12 ++++++------
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/fides/hessian_approximation.py b/fides/hessian_approximation.py
index e817583..cfed03f 100644
--- a/fides/hessian_approximation.py
+++ b/fides/hessian_approximation.py
@@ -45,7 +45,7 @@ class HessianApproximation:
                     f'dimension, was {hess.shape[0]}, '
                     f'but should be {dim}.'
                 )
-            self._hess = hess.copy()
+            self._hess = np.array(hess, dtype=float)
         self._diff = np.zeros_like(self._hess)
 
     def get_mat(self) -> np.ndarray:
@@ -79,7 +79,7 @@ class HessianApproximation:
                 f'shape, was {mat.shape}, '
                 f'but should be {self._hess.shape}.'
             )
-        self._hess = mat.copy()
+        self._hess = np.array(mat, dtype=float)
 
     @property
     def requires_resfun(self):
diff --git a/fides/minimize.py b/fides/minimize.py
index 676a77b..50fdb4b 100644
--- a/fides/minimize.py
+++ b/fides/minimize.py
@@ -253,8 +253,8 @@ class Optimizer:
                 f'function with argument resfun set to `True`.'
             )
 
-        self.lb: np.ndarray = np.array(lb)
-        self.ub: np.ndarray = np.array(ub)
+        self.lb: np.ndarray = np.array(lb, dtype=float)
+        self.ub: np.ndarray = np.array(ub, dtype=float)
 
         if options is None:
             options = {}
@@ -277,10 +277,10 @@ class Optimizer:
 
         self.tr_ratio: float = 1
 
-        self.x: np.ndarray = np.empty(ub.shape)
+        self.x: np.ndarray = np.empty(self.ub.shape)
         self.fval: float = np.inf
-        self.grad: np.ndarray = np.empty(ub.shape)
-        self.hess: np.ndarray = np.empty((ub.shape[0], ub.shape[0]))
+        self.grad: np.ndarray = np.empty(self.ub.shape)
+        self.hess: np.ndarray = np.empty((self.ub.shape[0], self.ub.shape[0]))
         self.x_min = self.x
         self.fval_min = self.fval
         self.grad_min = self.grad
@@ -359,7 +359,7 @@ class Optimizer:
         """
         self._reset(start_id)
 
-        self.x = np.array(x0).copy()
+        self.x = np.array(x0, dtype=float)
         if self.x.ndim > 1:
             raise ValueError('x0 must be a vector with x.ndim == 1!')
         self.make_non_degenerate()
-- 
2.43.0


From 4c32369a3a2bb6f89b9a3e1ba85288b731ab8f4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:13 +0000
Subject: [PATCH 18/30] fix: do not share arrays with the objective function

An objective function that reuses its output arrays changed the stored
gradient and minimum, one that modifies its argument changed the iterate.
---
 fides/minimize.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/fides/minimize.py b/fides/minimize.py
index 50fdb4b..aa405a3 100644
--- a/fides/minimize.py
+++ b/fides/minimize.py
@@ -49,7 +49,9 @@ class FunEvaluator:
         self.funargs = funargs
 
     def __call__(self, x: np.ndarray):
-        ret = self.fun(x, **self.funargs)
+        # work on copies, the objective function may modify x later on or reuse
+        # its output arrays
+        ret = self.fun(x.copy(), **self.funargs)
 
         if not isinstance(ret, tuple) or len(ret) != self.nargout:
             nargout = len(ret) if isinstance(ret, tuple) else 1
@@ -64,7 +66,7 @@ class FunEvaluator:
             )
 
         if self.resfun:
-            res, sres = ret
+            res, sres = np.array(ret[0]), np.array(ret[1])
             return Funout(
                 fval=0.5 * res.T.dot(res),
                 grad=res.T.dot(sres),
@@ -76,10 +78,12 @@ class FunEvaluator:
         else:
             if self.nargout == 3:
                 fval, grad, hess = ret
-                return Funout(fval=fval, grad=grad, hess=hess, x=x)
+                return Funout(
+                    fval=fval, grad=np.array(grad), hess=np.array(hess), x=x
+                )
             else:
                 fval, grad = ret
-                return Funout(fval=fval, grad=grad, x=x)
+                return Funout(fval=fval, grad=np.array(grad), x=x)
 
 
 class Funout:
-- 
2.43.0


From 1eea5de801c55c21bb0c2f49982e3bb61ce3f843 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:06 +0000
Subject: [PATCH 19/30] fix: reject malformed starts, objectives and initial
 Hessians consistently

Scalar starts, starts of wrong length, non-square initial Hessians, and
malformed gradients or Hessians in combination with some schemes were not
rejected with a ValueError or not before being used.
---
 fides/hessian_approximation.py | 6 +++---
 fides/minimize.py              | 7 ++++---
 2 files changed, 7 insertions(+), 6 deletions(-)

diff --git a/fides/hessian_approximation.py b/fides/hessian_approximation.py
index cfed03f..7cd4606 100644
--- a/fides/hessian_approximation.py
+++ b/fides/hessian_approximation.py
@@ -39,11 +39,11 @@ class HessianApproximation:
         if hess is None:
             self._hess = np.eye(dim)
         else:
-            if hess.shape[0] != dim:
+            if np.shape(hess) != (dim, dim):
                 raise ValueError(
                     'Initial approximation had inconsistent '
-                    f'dimension, was {hess.shape[0]}, '
-                    f'but should be {dim}.'
+                    f'shape, was {np.shape(hess)}, '
+                    f'but should be {(dim, dim)}.'
                 )
             self._hess = np.array(hess, dtype=float)
         self._diff = np.zeros_like(self._hess)
diff --git a/fides/minimize.py b/fides/minimize.py
index aa405a3..e81719b 100644
--- a/fides/minimize.py
+++ b/fides/minimize.py
@@ -364,12 +364,15 @@ class Optimizer:
         self._reset(start_id)
 
         self.x = np.array(x0, dtype=float)
-        if self.x.ndim > 1:
+        if self.x.ndim != 1:
             raise ValueError('x0 must be a vector with x.ndim == 1!')
+        if self.x.shape != self.lb.shape:
+            raise ValueError('x0 must have the same length as the bounds!')
         self.make_non_degenerate()
         self.check_in_bounds()
 
         funout = self.fevaler(self.x)
+        funout.checkdims()
 
         self.fval, self.grad = funout.fval, funout.grad
         if self.hessian_update is not None:
@@ -381,8 +384,6 @@ class Optimizer:
         else:
             self.hess = funout.hess.copy()
 
-        funout.checkdims()
-
         self.track_minimum(funout)
         self.log_header()
         self.log_step_initial()
-- 
2.43.0


From 076f5ee9e00f791173af988013adf46e71a048aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:24 +0000
Subject: [PATCH 20/30] fix: validate options given by name and integral
 options

Invalid choices were accepted if the option was given by its name, the
default history file was refused, and infinite or textual iteration limits
raised errors of the wrong type.
---
 fides/constants.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/fides/constants.py b/fides/constants.py
index b5161be..2e779c0 100644
--- a/fides/constants.py
+++ b/fides/constants.py
@@ -118,7 +118,7 @@ def validate_options(options: dict):
         Options.ETA: Real,
         Options.GAMMA1: Real,
         Options.GAMMA2: Real,
-        Options.HISTORY_FILE: (str, PosixPath, WindowsPath),
+        Options.HISTORY_FILE: (str, PosixPath, WindowsPath, type(None)),
     }
     for option_key, option_value in options.items():
         try:
@@ -128,15 +128,19 @@ def validate_options(options: dict):
                 f'{option_key} is not a valid options field.'
             ) from None
 
-        if option_key is Options.SUBSPACE_DIM:
+        if option is Options.SUBSPACE_DIM:
             option_value = SubSpaceDim(option_value)
 
-        if option_key is Options.STEPBACK_STRAT:
+        if option is Options.STEPBACK_STRAT:
             option_value = StepBackStrategy(option_value)
 
         expected_type = expected_types[option]
         if not isinstance(option_value, expected_type):
-            if expected_type == Integral and int(option_value) == option_value:
+            if (
+                expected_type == Integral
+                and isinstance(option_value, Real)
+                and float(option_value).is_integer()
+            ):
                 continue
             raise TypeError(
                 f'Type mismatch for option {option_key}. '
-- 
2.43.0


From d596f52655f41871d16b1a73a87502fbf9a5b98e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:43 +0000
Subject: [PATCH 21/30] fix: unique logger names for optimizers that start
 concurrently

Reading and incrementing the global counter was not atomic, so optimizers in
different threads could share a logger.
---
 fides/logging.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/fides/logging.py b/fides/logging.py
index ce2112f..41187c7 100644
--- a/fides/logging.py
+++ b/fides/logging.py
@@ -8,9 +8,10 @@ optimizer as well as debugging information
     logging.Logger instance that can be used throughout fides
 """
 
+import itertools
 import logging
 
-logger_count = 0
+logger_count = itertools.count(1)
 
 
 def create_logger(level: int) -> logging.Logger:
@@ -24,11 +25,9 @@ def create_logger(level: int) -> logging.Logger:
     :return:
         logger instance
     """
-    global logger_count
-    logger_count += 1
     # add logger count to differentiate between different fides
     # optimization instances and avoid deadlocks
-    logger = logging.getLogger(f'fides_{logger_count}')
+    logger = logging.getLogger(f'fides_{next(logger_count)}')
     ch = logging.StreamHandler()
     formatter = logging.Formatter(
         fmt='%(asctime)s fides(%(levelname)s) %(message)s',
-- 
2.43.0


From 33326d2cdfc0329299f136ed98a1d05ddad046a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:53 +0000
Subject: [PATCH 22/30] fix: keep truncated variables fixed when
 orthonormalizing the subspace

---
 fides/steps.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/fides/steps.py b/fides/steps.py
index 2b69a5d..6952d98 100644
--- a/fides/steps.py
+++ b/fides/steps.py
@@ -502,7 +502,10 @@ class TRStepTruncated(Step):
         subspace = subspace[:, (subspace != 0).any(axis=0)]
         # orthonormalize subspace, deleting rows may have made columns parallel
         if subspace.shape[1] > 0:
+            truncated = (subspace == 0).all(axis=1)
             subspace = linalg.orth(subspace)
+            # rounding errors must not make truncated variables move again
+            subspace[truncated, :] = 0
         self.subspace = subspace
 
         for iminbr in step.iminbr:
-- 
2.43.0


From a2de8eec2e11aed66d7451c63617747db0618750 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:04 +0000
Subject: [PATCH 23/30] fix: keep refined steps inside the trust region if
 refinement does not converge

---
 fides/steps.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/fides/steps.py b/fides/steps.py
index 6952d98..945396e 100644
--- a/fides/steps.py
+++ b/fides/steps.py
@@ -582,7 +582,11 @@ class RefinedStep(Step):
             constraints=self.constraints,
             options={'verbose': 0, 'maxiter': 100, 'gtol': 0, 'xtol': 0},
         )
-        self.sc = res.x
+        # the solution may violate constraints if the optimization did not
+        # converge, step_back only accounts for the boundaries
+        self.sc = res.x * min(
+            1.0, self.delta / max(norm(res.x), np.finfo(float).tiny)
+        )
         self.ss = self.subspace.dot(self.sc)
         self.s = self.scaling.dot(self.ss)
         self.step_back()
-- 
2.43.0


From b7d0a15a53fec1341dc76cee2805760bbac9cb17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:25 +0000
Subject: [PATCH 24/30] fix: only use relative tolerances when solving the
 secular equation

---
 fides/subproblem.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/fides/subproblem.py b/fides/subproblem.py
index 15d4bd5..17bd31b 100644
--- a/fides/subproblem.py
+++ b/fides/subproblem.py
@@ -170,14 +170,16 @@ def solve_nd_trust_region_subproblem(
     # the respective w should be close to 0 anyways
     if secular(laminit, w, eigvals, eigvecs, delta) < 0:
         maxiter = 100
-        # lambda is of the order of ||g||/delta
-        tol = max(1e-12 * min(1.0, norm(g) / delta), np.finfo(float).tiny)
+        # lambda may be arbitrarily small, only use relative tolerances
+        tol = np.finfo(float).tiny
+        rtol = 4 * np.finfo(float).eps
         try:
             r = newton(
                 secular,
                 laminit,
                 dsecular,
                 tol=tol,
+                rtol=rtol,
                 maxiter=maxiter,
                 args=(w, eigvals, eigvecs, delta),
             )
@@ -201,7 +203,8 @@ def solve_nd_trust_region_subproblem(
                     xa,
                     xb,
                     xtol=tol,
-                    maxiter=maxiter,
+                    rtol=rtol,
+                    maxiter=1000,
                     args=(w, eigvals, eigvecs, delta),
                 )
                 s = slam(r, w, eigvals, eigvecs)
-- 
2.43.0


From f174b1426c456841d421f92379bac46da50d7bc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:51 +0000
Subject: [PATCH 25/30] fix: keep the BG approximation unchanged for zero steps

---
 fides/hessian_approximation.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/fides/hessian_approximation.py b/fides/hessian_approximation.py
index 7cd4606..8633059 100644
--- a/fides/hessian_approximation.py
+++ b/fides/hessian_approximation.py
@@ -232,7 +232,12 @@ class BG(IterativeHessianApproximation):
 
     def _compute_update(self, s: np.ndarray, y: np.ndarray):
         z = y - self._hess.dot(s)
-        self._diff = np.outer(z, s.T) / s.T.dot(s)
+        a = s.T.dot(s)
+        if a == 0:
+            # zero step, nothing to learn
+            self._diff = np.zeros_like(self._hess)
+            return
+        self._diff = np.outer(z, s.T) / a
 
 
 class BB(IterativeHessianApproximation):
-- 
2.43.0


From e89b140dfaba31783f841ef2afe0bdee9b6dbb33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:38 +0000
Subject: [PATCH 26/30] fix: bound the number of CG iterations

---
 fides/steps.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/fides/steps.py b/fides/steps.py
index 945396e..db365fc 100644
--- a/fides/steps.py
+++ b/fides/steps.py
@@ -380,7 +380,8 @@ class TRStepSteihaug(CGStep):
             self.ss = z
             return
 
-        while True:
+        # at most n iterations are necessary in exact arithmetic
+        for _ in range(10 * len(z) + 100):
             bd = self.shess.dot(d)
             c = d.dot(bd)
             r2 = np.dot(r, r)
@@ -413,6 +414,9 @@ class TRStepSteihaug(CGStep):
             z = zp.copy()
             r = rp.copy()
 
+        # no convergence because of rounding errors or overflow
+        self.ss = z
+
 
 class TRStepReflected(Step):
     """
-- 
2.43.0


From 0839df85a059edea986aabd0d2157f587e70c9e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:25 +0000
Subject: [PATCH 27/30] fix: convert residuals, gradients and Hessians to
 floating point

---
 fides/minimize.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/fides/minimize.py b/fides/minimize.py
index e81719b..885cd8f 100644
--- a/fides/minimize.py
+++ b/fides/minimize.py
@@ -66,7 +66,8 @@ class FunEvaluator:
             )
 
         if self.resfun:
-            res, sres = np.array(ret[0]), np.array(ret[1])
+            res = np.array(ret[0], dtype=float)
+            sres = np.array(ret[1], dtype=float)
             return Funout(
                 fval=0.5 * res.T.dot(res),
                 grad=res.T.dot(sres),
@@ -79,11 +80,14 @@ class FunEvaluator:
             if self.nargout == 3:
                 fval, grad, hess = ret
                 return Funout(
-                    fval=fval, grad=np.array(grad), hess=np.array(hess), x=x
+                    fval=fval,
+                    grad=np.array(grad, dtype=float),
+                    hess=np.array(hess, dtype=float),
+                    x=x,
                 )
             else:
                 fval, grad = ret
-                return Funout(fval=fval, grad=np.array(grad), x=x)
+                return Funout(fval=fval, grad=np.array(grad, dtype=float), x=x)
 
 
 class Funout:
-- 
2.43.0


From 9ec887e1a15b5543710b5da2b1f3360c38372041 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:29 +0000
Subject: [PATCH 28/30] fix: restricted subproblem of truncated steps ignored
 the step taken in the truncated variables

The subproblem that is solved again for the remaining variables used the
gradient of the model at the current point instead of at the truncated
step, so unless a single direction was left its solution minimised a
different function.
---
 fides/steps.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/fides/steps.py b/fides/steps.py
index db365fc..8932fb6 100644
--- a/fides/steps.py
+++ b/fides/steps.py
@@ -211,7 +211,8 @@ class Step:
         subspace
         """
         self.chess = self.subspace.T.dot(self.shess.dot(self.subspace))
-        self.cg = self.subspace.T.dot(self.sg)
+        # ss0 is already part of the step
+        self.cg = self.subspace.T.dot(self.sg + self.shess.dot(self.ss0))
 
     def compute_step(self) -> None:
         """
-- 
2.43.0


From c1b914ef33b46b7d9e0bf2fea2123a4042a953f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:12:13 +0000
Subject: [PATCH 29/30] fix: step-back counts ignore earlier reflections and
 truncations

---
 fides/steps.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/fides/steps.py b/fides/steps.py
index 8932fb6..dc9bf80 100644
--- a/fides/steps.py
+++ b/fides/steps.py
@@ -460,6 +460,8 @@ class TRStepReflected(Step):
         normalize(nss)
         self.subspace = np.expand_dims(nss, 1)
 
+        # account for previous reflections
+        self.reflection_indices = step.reflection_indices.copy()
         for iminbr in step.iminbr:
             self.reflection_indices.add(iminbr)
 
@@ -513,6 +515,8 @@ class TRStepTruncated(Step):
             subspace[truncated, :] = 0
         self.subspace = subspace
 
+        # account for previous truncations
+        self.truncation_indices = step.truncation_indices.copy()
         for iminbr in step.iminbr:
             self.truncation_indices.add(iminbr)
 
-- 
2.43.0


From f8786219e1f2faa4592e0d9fcae721eb19f55d1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:48:18 +0000
Subject: [PATCH 30/30] fix: trust region radius overflows when the objective
 is unbounded below

A Python float radius above 1e154 raised OverflowError in delta**2, a
NumPy one gave inf and NaN steps. With default options f(x) = -x did so
after some 500 iterations.
---
 fides/minimize.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/fides/minimize.py b/fides/minimize.py
index 885cd8f..4625102 100644
--- a/fides/minimize.py
+++ b/fides/minimize.py
@@ -36,6 +36,10 @@ from .hessian_approximation import (
 from .logging import create_logger
 from .trust_region import Step, trust_region
 
+#: upper limit for the trust region radius: distances from bounds can grow with
+#: the square of the radius and are squared themselves, which must not overflow
+MAX_TR_RADIUS = 1e70
+
 
 class FunEvaluator:
     def __init__(
@@ -313,7 +317,7 @@ class Optimizer:
         self.n_intermediate_tr_radius = 0
         self.converged = False
         self.exitflag = ExitFlag.DID_NOT_RUN
-        self.delta = self.get_option(Options.DELTA_INIT)
+        self.delta = min(self.get_option(Options.DELTA_INIT), MAX_TR_RADIUS)
         self.delta_iter = self.delta
         self.tr_ratio = 1
         self.fval_min = np.inf
@@ -591,7 +595,9 @@ class Optimizer:
                 and not interior_solution
             ):
                 # increase radius
-                self.delta = self.get_option(Options.GAMMA2) * self.delta
+                self.delta = min(
+                    self.get_option(Options.GAMMA2) * self.delta, MAX_TR_RADIUS
+                )
                 self.iterations_since_tr_update = 0
             elif self.tr_ratio <= self.get_option(Options.MU):
                 # decrease radius
-- 
2.43.0

