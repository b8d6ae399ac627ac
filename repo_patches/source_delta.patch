From ad42ac644d33fbe7d7c0468b831e8e00425690bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:22 +0000
Subject: [PATCH 01/14] fix: end the last step exactly on t_bound

t + (t_bound - t) can differ from t_bound by a rounding error. Solvers then
reported a time beyond t_bound, or stopped just before it and failed because
the remaining step was too small.
---
 extensisq/bogacki.py   | 3 ++-
 extensisq/calvo.py     | 3 ++-
 extensisq/cash.py      | 4 ++--
 extensisq/common.py    | 6 ++++--
 extensisq/shampine.py  | 3 +++
 extensisq/sommeijer.py | 3 ++-
 6 files changed, 15 insertions(+), 7 deletions(-)

diff --git a/extensisq/bogacki.py b/extensisq/bogacki.py
index 7f8a43b..a16279e 100644
--- a/extensisq/bogacki.py
+++ b/extensisq/bogacki.py
@@ -252,7 +252,8 @@ class BS5(RungeKutta):
                 return False, self.TOO_SMALL_STEP
 
             h = h_abs * self.direction
-            t_new = t + h
+            # end exactly on t_bound, t + h may be off by a rounding error
+            t_new = self.t_bound if h == self.t_bound - t else t + h
 
             # calculate stages, except last two
             self.K[0] = self.f
diff --git a/extensisq/calvo.py b/extensisq/calvo.py
index 401240b..610c5c2 100644
--- a/extensisq/calvo.py
+++ b/extensisq/calvo.py
@@ -164,7 +164,8 @@ class CFMR7osc(RungeKutta):
             if h_abs < min_step:
                 return False, self.TOO_SMALL_STEP
             h = h_abs * self.direction
-            t_new = t + h
+            # end exactly on t_bound, t + h may be off by a rounding error
+            t_new = self.t_bound if h == self.t_bound - t else t + h
 
             # calculate stages needed for error evaluation
             self.K[0] = self.f
diff --git a/extensisq/cash.py b/extensisq/cash.py
index da26938..5206f25 100644
--- a/extensisq/cash.py
+++ b/extensisq/cash.py
@@ -265,7 +265,6 @@ class CKdisc(RungeKutta):
             if h_abs < min_step:
                 return False, self.TOO_SMALL_STEP
             h = h_abs * self.direction
-            t_new = t + h
 
             # start the integration, two stages at a time
             self.K[0] = self.f                                        # stage 0
@@ -377,7 +376,8 @@ class CKdisc(RungeKutta):
 
         # calculate the derivative of the accepted solution
         # for first stage of next step and for interpolation
-        t_new = t + h
+        # end exactly on t_bound, t + h may be off by a rounding error
+        t_new = self.t_bound if h == self.t_bound - t else t + h
         f_new = self.fun(t_new, y_new)
         self.K[-1, :] = f_new
 
diff --git a/extensisq/common.py b/extensisq/common.py
index 677484c..ef00a6a 100644
--- a/extensisq/common.py
+++ b/extensisq/common.py
@@ -234,7 +234,8 @@ class RungeKutta(OdeSolver):
             if h_abs < min_step:
                 return False, self.TOO_SMALL_STEP
             h = h_abs * self.direction
-            t_new = t + h
+            # end exactly on t_bound, t + h may be off by a rounding error
+            t_new = self.t_bound if h == self.t_bound - t else t + h
 
             # calculate stages needed for output
             self.K[0] = self.f
@@ -2027,7 +2028,8 @@ class ESDIRK(OdeSolver):
             if h_abs < min_step:
                 return False, self.TOO_SMALL_STEP
             h = h_abs * self.direction
-            t_new = t + h
+            # end exactly on t_bound, t + h may be off by a rounding error
+            t_new = self.t_bound if h == self.t_bound - t else t + h
 
             if (LU is None) or self.jac_each_step or (
                                             self.linear and (h != self.h_LU)):
diff --git a/extensisq/shampine.py b/extensisq/shampine.py
index e5ca237..a5ed2f9 100644
--- a/extensisq/shampine.py
+++ b/extensisq/shampine.py
@@ -331,7 +331,10 @@ class SWAG(OdeSolver):
             p = h * (phi[:, :k] @ g[:k]) + y
             phi[:, km1::-1] = np.cumsum(phi[:, km1::-1], axis=1)
             xold = x
+            # end exactly on t_bound, x + h may be off by a rounding error
             x += h
+            if h == d or self.direction * (x - self.t_bound) > 0:
+                x = self.t_bound
             absh = abs(h)
             yp[:] = self.fun(x, p)                                   # evaluate
 
diff --git a/extensisq/sommeijer.py b/extensisq/sommeijer.py
index e52d95f..1fbec1d 100644
--- a/extensisq/sommeijer.py
+++ b/extensisq/sommeijer.py
@@ -235,7 +235,8 @@ class SSV2stab(OdeSolver):
                     self.absh = absh
 
         # Step is accepted.
-        t += h
+        # end exactly on t_bound, t + h may be off by a rounding error
+        t = self.t_bound if h == self.t_bound - t else t + h
         self.jacatt = self.const_jac
         self.nstsig = (self.nstsig + 1) % 25
         self.newspc = False
-- 
2.43.0


From 7979166c6ca93f6daa350351841de2d0655f465a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:43 +0000
Subject: [PATCH 02/14] fix: Mu5Nmb, scale the error coefficients of the
 instance, not the class

---
 extensisq/murua.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/extensisq/murua.py b/extensisq/murua.py
index 7a8669a..58064e1 100644
--- a/extensisq/murua.py
+++ b/extensisq/murua.py
@@ -222,8 +222,9 @@ class Mu5Nmb(RungeKuttaNystrom):
             self.K = self.K_extended[:self.n_stages+1]
         if scale_embedded:
             factor = 0.75
-            self.E *= factor
-            self.Ep *= factor
+            # don't modify the arrays of the class
+            self.E = self.E * factor
+            self.Ep = self.Ep * factor
 
     def _dense_output_impl(self):
         if self.interpolant == 'free':
-- 
2.43.0


From 90445f586daebbed726f94bdabd13e1dd1e743f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:44 +0000
Subject: [PATCH 03/14] fix: Fi5N, pass sc_params on to the step size
 controller

---
 extensisq/fine.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/extensisq/fine.py b/extensisq/fine.py
index d6eae78..74a92cf 100644
--- a/extensisq/fine.py
+++ b/extensisq/fine.py
@@ -363,7 +363,8 @@ class Fi5N(RungeKuttaNystrom):
 
     def __init__(self, fun, t0, y0, t_bound,
                  sc_params=None, interpolant=0, **extraneous):
-        super().__init__(fun, t0, y0, t_bound, **extraneous)
+        super().__init__(
+            fun, t0, y0, t_bound, sc_params=sc_params, **extraneous)
         # custom initialization to create extended storage for dense output
         if interpolant not in range(4):
             raise ValueError(
-- 
2.43.0


From b672788390796a3cca091cecfa7205f15ac26cd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:44 +0000
Subject: [PATCH 04/14] fix: no division by zero for small nfev_stiff_detect

---
 extensisq/common.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/extensisq/common.py b/extensisq/common.py
index ef00a6a..cacac2b 100644
--- a/extensisq/common.py
+++ b/extensisq/common.py
@@ -403,7 +403,7 @@ class RungeKutta(OdeSolver):
 
         # Test for stifness after each nfev_stiff_detect evaluations
         # then toomch = True
-        many_steps = self.nfev_stiff_detect//self.n_stages
+        many_steps = max(1, self.nfev_stiff_detect//self.n_stages)
         toomch = self.okstp % many_steps == many_steps - 1
 
         # If either too much work has been done or there are lots of failed
@@ -1357,7 +1357,7 @@ class RungeKuttaNystrom(RungeKutta):
 
         # Test for stifness after each nfev_stiff_detect evaluations
         # then toomch = True
-        many_steps = self.nfev_stiff_detect//self.n_stages
+        many_steps = max(1, self.nfev_stiff_detect//self.n_stages)
         toomch = self.okstp % many_steps == many_steps - 1
 
         # If either too much work has been done or there are lots of failed
-- 
2.43.0


From 8af8996350081e8294c72b6e2b21ba41e93e517f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:44 +0000
Subject: [PATCH 05/14] fix: SSV2stab, sample in the direction of integration
 for the first step

---
 extensisq/sommeijer.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/extensisq/sommeijer.py b/extensisq/sommeijer.py
index 1fbec1d..11a4d58 100644
--- a/extensisq/sommeijer.py
+++ b/extensisq/sommeijer.py
@@ -149,8 +149,9 @@ class SSV2stab(OdeSolver):
         if self.sprad * absh > 1.0:
             absh = 1.0 / self.sprad
         absh = max(absh, self.hmin)
-        vtemp1[:] = yn + absh * fn
-        vtemp2[:] = self.fun(t + absh, vtemp1)                       # evaluate
+        h = self.direction * absh
+        vtemp1[:] = yn + h * fn
+        vtemp2[:] = self.fun(t + h, vtemp1)                          # evaluate
         wt = self.atol + self.rtol * np.abs(yn)
         est = absh * norm((vtemp2 - fn) / wt)
         if 0.1 * absh < self.max_step * sqrt(est):
-- 
2.43.0


From e158a392949de209e68cc2fdfc6014f45348216c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:44 +0000
Subject: [PATCH 06/14] fix: SWAG, fail instead of looping with steps of zero
 length at t=0

---
 extensisq/shampine.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/extensisq/shampine.py b/extensisq/shampine.py
index a5ed2f9..bf0b2bf 100644
--- a/extensisq/shampine.py
+++ b/extensisq/shampine.py
@@ -122,6 +122,7 @@ class SWAG(OdeSolver):
         small = np.nextafter(np.finfo(self.y.dtype).epsneg, 1)
         self.twou = 2.0 * small
         self.fouru = 4.0 * small
+        self.sqrtmin = sqrt(np.finfo(self.y.dtype).tiny)
         self.two = (2.0, 4.0, 8.0, 16.0, 32.0, 64.0, 128.0, 256.0, 512.0,
                     1024.0, 2048.0, 4096.0, 8192.0)
         self.gstr = (0.5, 0.0833, 0.0417, 0.0264, 0.0188, 0.0143, 0.0114,
@@ -193,7 +194,8 @@ class SWAG(OdeSolver):
           self.gi, self.gstr, self.iqq, self.eps, self.p5eps)
 
         # from *** ddes.f ***
-        min_step = self.fouru * abs(x)                                  # added
+        # nonzero at x == 0, to avoid shrinking to a step of zero length
+        min_step = max(self.fouru * abs(x), self.sqrtmin)               # added
 
         # stiffness detection
         if kold > 4:
-- 
2.43.0


From 02849dbc70a457b38d79c69b1df3845f9847a246 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:44 +0000
Subject: [PATCH 07/14] fix: ESDIRK, use the slope at the start of the step in
 the cubic output

---
 extensisq/common.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/extensisq/common.py b/extensisq/common.py
index cacac2b..4669123 100644
--- a/extensisq/common.py
+++ b/extensisq/common.py
@@ -2095,7 +2095,7 @@ class ESDIRK(OdeSolver):
 
         # step accepted, set or store for next step
         self.y_old = y.copy()
-        self.yp_old = self.f.copy()
+        self.yp_old = self.yp
         self.yp = K[-1, :].copy()
         self.error_norm_old = error_norm
         self.h_previous = h
-- 
2.43.0


From b5648193d69082cca77ddab6948275e682d5de23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:59 +0000
Subject: [PATCH 08/14] fix: ESDIRK and SSV2stab, respect max_step in the first
 and last steps

---
 extensisq/common.py    | 2 +-
 extensisq/sommeijer.py | 4 ++++
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/extensisq/common.py b/extensisq/common.py
index 4669123..94afb48 100644
--- a/extensisq/common.py
+++ b/extensisq/common.py
@@ -2178,7 +2178,7 @@ class ESDIRK(OdeSolver):
         d = abs(self.t_bound - t)                          # remaining interval
         if (abs(d/h_abs - 1) < 1e-2) or (d < h_abs):
             # d <= h_abs: Don't step over t_bound or stop just below it.
-            h_abs = d
+            h_abs = d if d <= self.max_step else 0.5 * d
 
         return h_abs, min_step
 
diff --git a/extensisq/sommeijer.py b/extensisq/sommeijer.py
index 11a4d58..173e337 100644
--- a/extensisq/sommeijer.py
+++ b/extensisq/sommeijer.py
@@ -139,6 +139,8 @@ class SSV2stab(OdeSolver):
         self.W[1] = self.fun(self.t, self.y)                         # evaluate
         max_step = min(self.max_step, abs(self.t_bound - self.t))
         self.max_step = min(max_step, sqrt(np.finfo(self.y.dtype).max))
+        if self.absh is not None:
+            self.absh = min(self.absh, self.max_step)
         hmin = abs(self.t)
         if self.t_bound != np.inf:
             hmin = max(hmin, abs(self.max_step))
@@ -190,6 +192,8 @@ class SSV2stab(OdeSolver):
             #  Adjust the step size and determine the number of stages m.
             if 1.1 * absh >= abs(self.t_bound - t):
                 absh = abs(self.t_bound - t)
+                if absh > self.max_step:
+                    absh *= 0.5
             m = 1 + int(sqrt(1.54 * absh * self.sprad + 1.0))
 
             # Limit m to mmax to control the growth of roundoff error.
-- 
2.43.0


From 3d14edd2e227369570447c172a1d9237320c8714 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:26 +0000
Subject: [PATCH 09/14] fix: BS5, report the interval of the step for the
 'best' dense output

---
 extensisq/bogacki.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/extensisq/bogacki.py b/extensisq/bogacki.py
index a16279e..3e23497 100644
--- a/extensisq/bogacki.py
+++ b/extensisq/bogacki.py
@@ -391,4 +391,7 @@ class BS5(RungeKutta):
         # RKSuite's, polynomial definition is different from scipy's: looking
         # back from the end of the step instead of forward from the start.
         # The call is modified to accomodate:
-        return HornerDenseOutput(self.t, self.t+h, self.y, Q)
+        sol = HornerDenseOutput(self.t, self.t+h, self.y, Q)
+        sol.t_min = min(self.t_old, self.t)
+        sol.t_max = max(self.t_old, self.t)
+        return sol
-- 
2.43.0


From 3b42f45fcd28b4cafbe2986ac16da10bc7026e4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:15 +0000
Subject: [PATCH 10/14] fix: CKdisc, keep the slopes of low order dense output
 after later steps

---
 extensisq/cash.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/extensisq/cash.py b/extensisq/cash.py
index 5206f25..4a9eb1a 100644
--- a/extensisq/cash.py
+++ b/extensisq/cash.py
@@ -413,4 +413,4 @@ class CKdisc(RungeKutta):
             return HornerDenseOutput(self.t_old, self.t, self.y_old, Q)
         # low order solution
         return CubicDenseOutput(self.t_old, self.t, self.y_old, self.y,
-                                self.K[0, :], self.K[-1, :])
+                                self.K[0, :].copy(), self.K[-1, :].copy())
-- 
2.43.0


From bc2a80fc0054551702a43d6038f5fab7b2ce1059 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:33:46 +0000
Subject: [PATCH 11/14] fix: Nystrom methods, count the evaluations of the
 stiffness test

---
 extensisq/common.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/extensisq/common.py b/extensisq/common.py
index 94afb48..e86f503 100644
--- a/extensisq/common.py
+++ b/extensisq/common.py
@@ -1272,7 +1272,7 @@ class RungeKuttaNystrom(RungeKutta):
         # need storage for accelerations only
         self.K = np.empty((self.n_stages + 1, self.n), self.y.dtype)
         self.f = self.f[self.n:]
-        self.fun_first_order = fun
+        self.fun_first_order = self.fun
 
         def fun(*args, fun=self.fun, n=self.n):
             return fun(*args)[n:]
-- 
2.43.0


From aff3fa333b701763dd909dd436a59c7c4d127ecc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:33:07 +0000
Subject: [PATCH 12/14] fix: sens_forward, accept a sequence as atol when a
 parameter is zero

---
 extensisq/sensitivity.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/extensisq/sensitivity.py b/extensisq/sensitivity.py
index e4f683c..4bd037c 100644
--- a/extensisq/sensitivity.py
+++ b/extensisq/sensitivity.py
@@ -167,7 +167,7 @@ def sens_forward(fun, t_span, y0, jac, dfdp, dy0dp, p, atol=1e-6, rtol=1e-3,
     for i, _p in enumerate(p, start=1):
         factor = abs(_p)
         factor = factor or 1.
-        total_atol[i*Ny:(i+1)*Ny] = atol/factor
+        total_atol[i*Ny:(i+1)*Ny] = np.asarray(atol)/factor
 
     # function to integrate
     def total_fun(t, total_y, fun=fun, dfdy=jac, dfdp=dfdp, Ny=Ny, Np=Np):
-- 
2.43.0


From da007959114aaac581cd61197498c0ab66ababfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:44:47 +0000
Subject: [PATCH 13/14] fix: SWAG, do not overwrite the array returned by the
 first evaluation

The array that the user's function returned at the initial point was used
as work array, and overwritten in each step.
---
 extensisq/shampine.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/extensisq/shampine.py b/extensisq/shampine.py
index bf0b2bf..37d1f16 100644
--- a/extensisq/shampine.py
+++ b/extensisq/shampine.py
@@ -108,7 +108,7 @@ class SWAG(OdeSolver):
         self.rtol, self.atol = validate_tol(rtol, atol, self.y)
 
         # starting step size
-        self.yp = self.fun(self.t, self.y)                 # initial evaluation
+        self.yp = self.fun(self.t, self.y).copy()          # initial evaluation
         if first_step is None:
             b = self.t + copysign(min(abs(self.t_bound - self.t),
                                       self.max_step), self.direction)
-- 
2.43.0


From 137b53394f6f5313c9dc6484700458c6c7f23c35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:31:10 +0000
Subject: [PATCH 14/14] fix: SSV2stab, perturb around the state when the
 estimate of the spectral radius starts at rest

---
 extensisq/sommeijer.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/extensisq/sommeijer.py b/extensisq/sommeijer.py
index 173e337..861dfb5 100644
--- a/extensisq/sommeijer.py
+++ b/extensisq/sommeijer.py
@@ -360,7 +360,7 @@ class SSV2stab(OdeSolver):
             v[:] = yn + v * (dynrm/vnrm)
         elif ynrm != 0.0:
             dynrm = ynrm * self.sqrtu
-            v[:] *= 1.0 + self.sqrtu
+            v[:] = yn * (1.0 + self.sqrtu)
         elif vnrm != 0.0:
             dynrm = self.uround
             v[:] *= dynrm/vnrm
@@ -398,7 +398,7 @@ class SSV2stab(OdeSolver):
                 # current approximation to the eigenvector by changing
                 # the sign of one component.
                 index = iter % self.n
-                v[index] = -v[index]
+                v[index] = yn[index] - (v[index] - yn[index])
 
         # return None to report a convergence failure.
         return None
-- 
2.43.0

