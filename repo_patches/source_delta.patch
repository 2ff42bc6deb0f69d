From 240a8cf2315e05e9ea0c7c17ae1310ae3f3c18a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:26 +0000
Subject: [PATCH 01/28] fix: Mu5Nmb scale_embedded no longer modifies class
 coefficients

---
 extensisq/murua.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/extensisq/murua.py b/extensisq/murua.py
index 7a8669a..bff13dd 100644
--- a/extensisq/murua.py
+++ b/extensisq/murua.py
@@ -222,8 +222,8 @@ class Mu5Nmb(RungeKuttaNystrom):
             self.K = self.K_extended[:self.n_stages+1]
         if scale_embedded:
             factor = 0.75
-            self.E *= factor
-            self.Ep *= factor
+            self.E = self.E * factor          # don't modify the class data
+            self.Ep = self.Ep * factor
 
     def _dense_output_impl(self):
         if self.interpolant == 'free':
-- 
2.43.0


From 9738572a16ab0e4eec0a6f154c61112f0d112020 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:26 +0000
Subject: [PATCH 02/28] fix: Fi5N passes sc_params on to the step size
 controller

---
 extensisq/fine.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/extensisq/fine.py b/extensisq/fine.py
index d6eae78..74a92cf 100644
--- a/extensisq/fine.py
+++ b/extensisq/fine.py
@@ -363,7 +363,8 @@ class Fi5N(RungeKuttaNystrom):
 
     def __init__(self, fun, t0, y0, t_bound,
                  sc_params=None, interpolant=0, **extraneous):
-        super().__init__(fun, t0, y0, t_bound, **extraneous)
+        super().__init__(
+            fun, t0, y0, t_bound, sc_params=sc_params, **extraneous)
         # custom initialization to create extended storage for dense output
         if interpolant not in range(4):
             raise ValueError(
-- 
2.43.0


From ac414245b8257b0a2fc7093710bdcd391e520648 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:26 +0000
Subject: [PATCH 03/28] fix: CKdisc low order dense output keeps its own
 derivatives

---
 extensisq/cash.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/extensisq/cash.py b/extensisq/cash.py
index da26938..2a4a976 100644
--- a/extensisq/cash.py
+++ b/extensisq/cash.py
@@ -413,4 +413,4 @@ class CKdisc(RungeKutta):
             return HornerDenseOutput(self.t_old, self.t, self.y_old, Q)
         # low order solution
         return CubicDenseOutput(self.t_old, self.t, self.y_old, self.y,
-                                self.K[0, :], self.K[-1, :])
+                                self.K[0, :].copy(), self.K[-1, :].copy())
-- 
2.43.0


From e4cdbba0e9c50c881bc2a6e3c9bc8ef98b00eb68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:26 +0000
Subject: [PATCH 04/28] fix: SWAG does not overwrite the array returned by fun

---
 extensisq/shampine.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/extensisq/shampine.py b/extensisq/shampine.py
index e5ca237..0da4b3b 100644
--- a/extensisq/shampine.py
+++ b/extensisq/shampine.py
@@ -108,7 +108,7 @@ class SWAG(OdeSolver):
         self.rtol, self.atol = validate_tol(rtol, atol, self.y)
 
         # starting step size
-        self.yp = self.fun(self.t, self.y)                 # initial evaluation
+        self.yp = self.fun(self.t, self.y).copy()          # initial evaluation
         if first_step is None:
             b = self.t + copysign(min(abs(self.t_bound - self.t),
                                       self.max_step), self.direction)
-- 
2.43.0


From 7b192ad448aaa689600bb02d5a8a084908f7cee6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:26 +0000
Subject: [PATCH 05/28] fix: stiffness detection with nfev_stiff_detect smaller
 than n_stages

---
 extensisq/common.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/extensisq/common.py b/extensisq/common.py
index 677484c..7befd7d 100644
--- a/extensisq/common.py
+++ b/extensisq/common.py
@@ -402,7 +402,7 @@ class RungeKutta(OdeSolver):
 
         # Test for stifness after each nfev_stiff_detect evaluations
         # then toomch = True
-        many_steps = self.nfev_stiff_detect//self.n_stages
+        many_steps = max(1, self.nfev_stiff_detect//self.n_stages)
         toomch = self.okstp % many_steps == many_steps - 1
 
         # If either too much work has been done or there are lots of failed
@@ -1356,7 +1356,7 @@ class RungeKuttaNystrom(RungeKutta):
 
         # Test for stifness after each nfev_stiff_detect evaluations
         # then toomch = True
-        many_steps = self.nfev_stiff_detect//self.n_stages
+        many_steps = max(1, self.nfev_stiff_detect//self.n_stages)
         toomch = self.okstp % many_steps == many_steps - 1
 
         # If either too much work has been done or there are lots of failed
-- 
2.43.0


From 28353427c8a17776329616eeb12622bc7ff27c4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:26 +0000
Subject: [PATCH 06/28] fix: the last step ends at t_bound, without round-off

---
 extensisq/bogacki.py   | 2 ++
 extensisq/calvo.py     | 2 ++
 extensisq/cash.py      | 5 ++++-
 extensisq/common.py    | 4 ++++
 extensisq/shampine.py  | 2 +-
 extensisq/sommeijer.py | 2 +-
 6 files changed, 14 insertions(+), 3 deletions(-)

diff --git a/extensisq/bogacki.py b/extensisq/bogacki.py
index 7f8a43b..d5c2929 100644
--- a/extensisq/bogacki.py
+++ b/extensisq/bogacki.py
@@ -253,6 +253,8 @@ class BS5(RungeKutta):
 
             h = h_abs * self.direction
             t_new = t + h
+            if h_abs == abs(self.t_bound - t):
+                t_new = self.t_bound                         # avoid round-off
 
             # calculate stages, except last two
             self.K[0] = self.f
diff --git a/extensisq/calvo.py b/extensisq/calvo.py
index 401240b..1b0f32a 100644
--- a/extensisq/calvo.py
+++ b/extensisq/calvo.py
@@ -165,6 +165,8 @@ class CFMR7osc(RungeKutta):
                 return False, self.TOO_SMALL_STEP
             h = h_abs * self.direction
             t_new = t + h
+            if h_abs == abs(self.t_bound - t):
+                t_new = self.t_bound                         # avoid round-off
 
             # calculate stages needed for error evaluation
             self.K[0] = self.f
diff --git a/extensisq/cash.py b/extensisq/cash.py
index 2a4a976..4743217 100644
--- a/extensisq/cash.py
+++ b/extensisq/cash.py
@@ -266,6 +266,8 @@ class CKdisc(RungeKutta):
                 return False, self.TOO_SMALL_STEP
             h = h_abs * self.direction
             t_new = t + h
+            if h_abs == abs(self.t_bound - t):
+                t_new = self.t_bound                         # avoid round-off
 
             # start the integration, two stages at a time
             self.K[0] = self.f                                        # stage 0
@@ -377,7 +379,8 @@ class CKdisc(RungeKutta):
 
         # calculate the derivative of the accepted solution
         # for first stage of next step and for interpolation
-        t_new = t + h
+        if order_accepted != 4:
+            t_new = t + h
         f_new = self.fun(t_new, y_new)
         self.K[-1, :] = f_new
 
diff --git a/extensisq/common.py b/extensisq/common.py
index 7befd7d..42a53b0 100644
--- a/extensisq/common.py
+++ b/extensisq/common.py
@@ -235,6 +235,8 @@ class RungeKutta(OdeSolver):
                 return False, self.TOO_SMALL_STEP
             h = h_abs * self.direction
             t_new = t + h
+            if h_abs == abs(self.t_bound - t):
+                t_new = self.t_bound                         # avoid round-off
 
             # calculate stages needed for output
             self.K[0] = self.f
@@ -2028,6 +2030,8 @@ class ESDIRK(OdeSolver):
                 return False, self.TOO_SMALL_STEP
             h = h_abs * self.direction
             t_new = t + h
+            if h_abs == abs(self.t_bound - t):
+                t_new = self.t_bound                         # avoid round-off
 
             if (LU is None) or self.jac_each_step or (
                                             self.linear and (h != self.h_LU)):
diff --git a/extensisq/shampine.py b/extensisq/shampine.py
index 0da4b3b..57ec9ba 100644
--- a/extensisq/shampine.py
+++ b/extensisq/shampine.py
@@ -331,7 +331,7 @@ class SWAG(OdeSolver):
             p = h * (phi[:, :k] @ g[:k]) + y
             phi[:, km1::-1] = np.cumsum(phi[:, km1::-1], axis=1)
             xold = x
-            x += h
+            x = self.t_bound if h == d else x + h
             absh = abs(h)
             yp[:] = self.fun(x, p)                                   # evaluate
 
diff --git a/extensisq/sommeijer.py b/extensisq/sommeijer.py
index e52d95f..fe6268a 100644
--- a/extensisq/sommeijer.py
+++ b/extensisq/sommeijer.py
@@ -235,7 +235,7 @@ class SSV2stab(OdeSolver):
                     self.absh = absh
 
         # Step is accepted.
-        t += h
+        t = self.t_bound if absh == abs(self.t_bound - t) else t + h
         self.jacatt = self.const_jac
         self.nstsig = (self.nstsig + 1) % 25
         self.newspc = False
-- 
2.43.0


From c2b028fb9aab58ab4119cf3de0219991ad1ea807 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:00 +0000
Subject: [PATCH 07/28] fix: max_step is respected by the first and final steps

---
 extensisq/common.py    | 3 ++-
 extensisq/sommeijer.py | 7 +++++--
 2 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/extensisq/common.py b/extensisq/common.py
index 42a53b0..e81eb18 100644
--- a/extensisq/common.py
+++ b/extensisq/common.py
@@ -2180,7 +2180,8 @@ class ESDIRK(OdeSolver):
         d = abs(self.t_bound - t)                          # remaining interval
         if (abs(d/h_abs - 1) < 1e-2) or (d < h_abs):
             # d <= h_abs: Don't step over t_bound or stop just below it.
-            h_abs = d
+            # If d exceeds max_step, then split it over the last two steps.
+            h_abs = d if d <= self.max_step else 0.5 * d
 
         return h_abs, min_step
 
diff --git a/extensisq/sommeijer.py b/extensisq/sommeijer.py
index fe6268a..103d54c 100644
--- a/extensisq/sommeijer.py
+++ b/extensisq/sommeijer.py
@@ -139,6 +139,8 @@ class SSV2stab(OdeSolver):
         self.W[1] = self.fun(self.t, self.y)                         # evaluate
         max_step = min(self.max_step, abs(self.t_bound - self.t))
         self.max_step = min(max_step, sqrt(np.finfo(self.y.dtype).max))
+        if self.absh is not None:
+            self.absh = min(self.absh, self.max_step)
         hmin = abs(self.t)
         if self.t_bound != np.inf:
             hmin = max(hmin, abs(self.max_step))
@@ -187,8 +189,9 @@ class SSV2stab(OdeSolver):
                 absh = self._init_step_size(t, yn, fn, vtemp1, vtemp2)
 
             #  Adjust the step size and determine the number of stages m.
-            if 1.1 * absh >= abs(self.t_bound - t):
-                absh = abs(self.t_bound - t)
+            d = abs(self.t_bound - t)
+            if 1.1 * absh >= d:
+                absh = d if d <= self.max_step else 0.5 * d
             m = 1 + int(sqrt(1.54 * absh * self.sprad + 1.0))
 
             # Limit m to mmax to control the growth of roundoff error.
-- 
2.43.0


From 86c648ef078c5756bd36ccbd494802ac0ed432d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:00 +0000
Subject: [PATCH 08/28] fix: SSV2stab first step estimate uses the direction of
 integration

---
 extensisq/sommeijer.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/extensisq/sommeijer.py b/extensisq/sommeijer.py
index 103d54c..29fbe64 100644
--- a/extensisq/sommeijer.py
+++ b/extensisq/sommeijer.py
@@ -151,8 +151,9 @@ class SSV2stab(OdeSolver):
         if self.sprad * absh > 1.0:
             absh = 1.0 / self.sprad
         absh = max(absh, self.hmin)
-        vtemp1[:] = yn + absh * fn
-        vtemp2[:] = self.fun(t + absh, vtemp1)                       # evaluate
+        h = self.direction * absh
+        vtemp1[:] = yn + h * fn
+        vtemp2[:] = self.fun(t + h, vtemp1)                          # evaluate
         wt = self.atol + self.rtol * np.abs(yn)
         est = absh * norm((vtemp2 - fn) / wt)
         if 0.1 * absh < self.max_step * sqrt(est):
-- 
2.43.0


From 2365e3f65c45f9e6d7638b2c25ea3290e2ee3703 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:00 +0000
Subject: [PATCH 09/28] fix: Nystrom methods only use the wrapped function
 (array_like, vectorized, nfev)

---
 extensisq/common.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/extensisq/common.py b/extensisq/common.py
index e81eb18..98b917c 100644
--- a/extensisq/common.py
+++ b/extensisq/common.py
@@ -1256,7 +1256,7 @@ class RungeKuttaNystrom(RungeKutta):
             y_test = self.y.copy()
             y_test[self.n:] *= 1 + 1e-8
             y_test[self.n:] += 1e-8
-            if not np.all(fun(t0, y_test)[:self.n] == y_test[self.n:]):
+            if not np.all(self.fun(t0, y_test)[:self.n] == y_test[self.n:]):
                 raise AssertionError(msg)
         if self.Ap is NotImplemented:
             msg = ("This method is for velocity independent ODEs, "
@@ -1264,7 +1264,7 @@ class RungeKuttaNystrom(RungeKutta):
             y_test = self.y.copy()
             y_test[self.n:] *= 1 + 1e-8
             y_test[self.n:] += 1e-8
-            if not np.all(fun(t0, y_test)[self.n:] == self.f[self.n:]):
+            if not np.all(self.fun(t0, y_test)[self.n:] == self.f[self.n:]):
                 raise AssertionError(msg)
             self.Ap = np.zeros((self.n_stages, self.n_stages))          # dummy
         # check Ep, (E is already checked)
@@ -1273,7 +1273,7 @@ class RungeKuttaNystrom(RungeKutta):
         # need storage for accelerations only
         self.K = np.empty((self.n_stages + 1, self.n), self.y.dtype)
         self.f = self.f[self.n:]
-        self.fun_first_order = fun
+        self.fun_first_order = self.fun
 
         def fun(*args, fun=self.fun, n=self.n):
             return fun(*args)[n:]
-- 
2.43.0


From c5908c90ea131982b8ade06996a5e0d31a85d18c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:00 +0000
Subject: [PATCH 10/28] fix: SWAG resets the failed step counter

---
 extensisq/shampine.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/extensisq/shampine.py b/extensisq/shampine.py
index 57ec9ba..bcd7ac0 100644
--- a/extensisq/shampine.py
+++ b/extensisq/shampine.py
@@ -176,6 +176,7 @@ class SWAG(OdeSolver):
 
         # from ddes.f, for stiffness detection
         self.kle4 = 0
+        NFS[()] = 0                                # global failed step counter
 
     def _step_impl(self):
 
-- 
2.43.0


From 7efe8400faa08ea63f1cd1789ddd333416fb9493 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:42 +0000
Subject: [PATCH 11/28] fix: dense output of BS5 (best), TRBDF2 and TRX2 knows
 the time interval of its step

---
 extensisq/bogacki.py | 2 +-
 extensisq/common.py  | 5 +++--
 extensisq/hosea.py   | 8 ++++----
 3 files changed, 8 insertions(+), 7 deletions(-)

diff --git a/extensisq/bogacki.py b/extensisq/bogacki.py
index d5c2929..900ae40 100644
--- a/extensisq/bogacki.py
+++ b/extensisq/bogacki.py
@@ -392,4 +392,4 @@ class BS5(RungeKutta):
         # RKSuite's, polynomial definition is different from scipy's: looking
         # back from the end of the step instead of forward from the start.
         # The call is modified to accomodate:
-        return HornerDenseOutput(self.t, self.t+h, self.y, Q)
+        return HornerDenseOutput(self.t_old, self.t, self.y, Q, t_ref=self.t)
diff --git a/extensisq/common.py b/extensisq/common.py
index 98b917c..b46b226 100644
--- a/extensisq/common.py
+++ b/extensisq/common.py
@@ -768,16 +768,17 @@ def h_start(df, a, b, y, yprime, morder, rtol, atol,
 class HornerDenseOutput(DenseOutput):
     """use Horner's rule for the evaluation of the dense output polynomials.
     """
-    def __init__(self, t_old, t, y_old, Q):
+    def __init__(self, t_old, t, y_old, Q, t_ref=None):
         super().__init__(t_old, t)
         self.h = t - t_old
         self.Q = Q * self.h
         self.y_old = y_old
+        self.t_ref = t_old if t_ref is None else t_ref     # time at y_old
 
     def _call_impl(self, t):
 
         # scaled time
-        x = (t - self.t_old) / self.h
+        x = (t - self.t_ref) / self.h
 
         # Horner's rule:
         y = self.Q.T[-1, :, np.newaxis] * x
diff --git a/extensisq/hosea.py b/extensisq/hosea.py
index 8da8dfe..982a19f 100644
--- a/extensisq/hosea.py
+++ b/extensisq/hosea.py
@@ -20,10 +20,7 @@ class HS(ESDIRK):
         T = [self.t_old, t_mid, self.t]
         Y = np.array([self.y_old, y_mid, self.y])
         dY = self.K.copy()
-        if self.direction > 0:
-            return PiecewiseCubicDenseOutput(T, Y, dY)
-        else:
-            return PiecewiseCubicDenseOutput(T[::-1], Y[::-1], dY[::-1])
+        return PiecewiseCubicDenseOutput(T, Y, dY)
 
 
 class PiecewiseCubicDenseOutput(DenseOutput):
@@ -34,6 +31,9 @@ class PiecewiseCubicDenseOutput(DenseOutput):
         t_old = T[0]
         t = T[-1]
         super().__init__(t_old, t)
+        if t < t_old:
+            # the spline needs increasing times
+            T, Y, dY = T[::-1], Y[::-1], dY[::-1]
         self.interpolant = CubicHermiteSpline(T, Y, dY)
 
     def _call_impl(self, t):
-- 
2.43.0


From 982ecc620f095c994808bff59ddee91d2813f161 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:19 +0000
Subject: [PATCH 12/28] fix: first step estimate from t=0 with infinite t_bound

---
 extensisq/common.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/extensisq/common.py b/extensisq/common.py
index b46b226..4d697fc 100644
--- a/extensisq/common.py
+++ b/extensisq/common.py
@@ -617,7 +617,7 @@ def h_start(df, a, b, y, yprime, morder, rtol, atol,
     # equation with respect to the independent variable.  protect against an
     # overflow.  also compute a bound (fbnd) on the first derivative locally.
     da = copysign(max(min(relper * abs(a), absdx), 100. * small * abs(a)), dx)
-    da = da or relper * dx
+    da = da or copysign(relper * (absdx if absdx < np.inf else 1.), dx)
     if T is None:
         sf = df(a + da, y)                                           # evaluate
     else:
-- 
2.43.0


From e1cb941087d887e15b9322a1ede6283b615cc937 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:19 +0000
Subject: [PATCH 13/28] fix: ESDIRK default dense output uses the derivative at
 the start of the step

---
 extensisq/common.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/extensisq/common.py b/extensisq/common.py
index 4d697fc..b046d31 100644
--- a/extensisq/common.py
+++ b/extensisq/common.py
@@ -2098,7 +2098,7 @@ class ESDIRK(OdeSolver):
 
         # step accepted, set or store for next step
         self.y_old = y.copy()
-        self.yp_old = self.f.copy()
+        self.yp_old = K[0, :].copy()
         self.yp = K[-1, :].copy()
         self.error_norm_old = error_norm
         self.h_previous = h
-- 
2.43.0


From 41edafe3a61ae5fcedfc0196fb126f29def5dbdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:35 +0000
Subject: [PATCH 14/28] fix: SWAG has a minimum step size at t=0

---
 extensisq/shampine.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/extensisq/shampine.py b/extensisq/shampine.py
index bcd7ac0..19e86cb 100644
--- a/extensisq/shampine.py
+++ b/extensisq/shampine.py
@@ -122,6 +122,7 @@ class SWAG(OdeSolver):
         small = np.nextafter(np.finfo(self.y.dtype).epsneg, 1)
         self.twou = 2.0 * small
         self.fouru = 4.0 * small
+        self.tiny_step = sqrt(np.finfo(self.y.dtype).tiny)              # added
         self.two = (2.0, 4.0, 8.0, 16.0, 32.0, 64.0, 128.0, 256.0, 512.0,
                     1024.0, 2048.0, 4096.0, 8192.0)
         self.gstr = (0.5, 0.0833, 0.0417, 0.0264, 0.0188, 0.0143, 0.0114,
@@ -194,7 +195,7 @@ class SWAG(OdeSolver):
           self.gi, self.gstr, self.iqq, self.eps, self.p5eps)
 
         # from *** ddes.f ***
-        min_step = self.fouru * abs(x)                                  # added
+        min_step = max(self.fouru * abs(x), self.tiny_step)             # added
 
         # stiffness detection
         if kold > 4:
-- 
2.43.0


From 29fc8f07211a7c9dcbe7e23926d98b044bc9def9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:50 +0000
Subject: [PATCH 15/28] fix: SSV2stab accepts t_bound=-inf (minimum step was
 huge)

---
 extensisq/sommeijer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/extensisq/sommeijer.py b/extensisq/sommeijer.py
index 29fbe64..051d13b 100644
--- a/extensisq/sommeijer.py
+++ b/extensisq/sommeijer.py
@@ -142,7 +142,7 @@ class SSV2stab(OdeSolver):
         if self.absh is not None:
             self.absh = min(self.absh, self.max_step)
         hmin = abs(self.t)
-        if self.t_bound != np.inf:
+        if np.isfinite(self.t_bound):
             hmin = max(hmin, abs(self.max_step))
         self.hmin = max(self.sqrtmin, 10.0 * self.uround * hmin)
 
-- 
2.43.0


From d6879f3ba2cf306d51b91ebb550d6f0f6ddb2981 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:57 +0000
Subject: [PATCH 16/28] fix: ESDIRK accepts jac_sparsity as list (array_like)

---
 extensisq/common.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/extensisq/common.py b/extensisq/common.py
index b046d31..c173b37 100644
--- a/extensisq/common.py
+++ b/extensisq/common.py
@@ -1713,6 +1713,8 @@ class ESDIRK(OdeSolver):
             if sparsity is not None:
                 if issparse(sparsity):
                     sparsity = csc_array(sparsity)
+                else:
+                    sparsity = np.asarray(sparsity)
                 groups = group_columns(sparsity)
                 sparsity = (sparsity, groups)
 
-- 
2.43.0


From 7d210130c1d8bf5b61cfffbf606c6360cc08c529 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:15 +0000
Subject: [PATCH 17/28] fix: DAEs with atol given per component (first step
 estimate)

---
 extensisq/common.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/extensisq/common.py b/extensisq/common.py
index c173b37..3d349fc 100644
--- a/extensisq/common.py
+++ b/extensisq/common.py
@@ -1918,7 +1918,12 @@ class ESDIRK(OdeSolver):
         S = Guv @ np.linalg.solve(Gvv, Gvu)
         Tr = np.diag(1/s[s_u]) @ (gudot + Guv @ vdot)
         Jr = np.diag(1/s[s_u]) @ (Guu + S)
-        kwargs_hstart = {'y': u, 'yprime': udot, 'J': Jr, 'T': Tr}
+        # absolute tolerance of u. Vh is orthogonal
+        atol = self.atol
+        if atol.ndim:
+            atol = np.sqrt(abs(Vh)[s_u]**2 @ atol**2)
+        kwargs_hstart = {'y': u, 'yprime': udot, 'J': Jr, 'T': Tr,
+                         'atol': atol}
 
         if self.sparse:
             J = csc_array(J)
@@ -1997,7 +2002,7 @@ class ESDIRK(OdeSolver):
                 # _consistent_ICs.
                 self.h_abs = abs(h_start(
                     fun, self.t, b, morder=order,
-                    rtol=self.rtol, atol=self.atol, **kwargs_hstart))
+                    rtol=self.rtol, **kwargs_hstart))
             else:
 
                 def fun_ext(t, y, LU_M=LU_M):
-- 
2.43.0


From 02e2a85728567fbbc9b4e73f989eec551bfc04fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:42 +0000
Subject: [PATCH 18/28] fix: DAEs of higher index are recognised in spite of
 rounding

---
 extensisq/common.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/extensisq/common.py b/extensisq/common.py
index 3d349fc..3f292eb 100644
--- a/extensisq/common.py
+++ b/extensisq/common.py
@@ -1851,7 +1851,12 @@ class ESDIRK(OdeSolver):
         s_u = np.s_[:s_v.start]
         U, s, Vh = self.M_details['svd']
         Gvv = (U.T @ J @ Vh.T)[s_v, s_v]
-        index1 = np.linalg.matrix_rank(Gvv) == Gvv.shape[1]
+        # entries that can not be told apart from errors are zero
+        eps = np.finfo(self.y.dtype).eps
+        eps = 10*self.n*(eps if self.jac_factor is None else eps**0.5)
+        noise = eps*(abs(U.T) @ np.abs(J) @ abs(Vh.T))[s_v, s_v]
+        rank = np.linalg.matrix_rank(np.where(np.abs(Gvv) > noise, Gvv, 0.))
+        index1 = rank == Gvv.shape[1]
         if not index1:
             raise ValueError(
                 "The index of the DAE seems to be larger than 1."
-- 
2.43.0


From e777fcb251cdbde15f21786c025a9af09d84bade Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:41 +0000
Subject: [PATCH 19/28] fix: the filtered error estimate of TRBDF2/TRX2
 accounts for the mass matrix

---
 extensisq/common.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/extensisq/common.py b/extensisq/common.py
index 3f292eb..4788831 100644
--- a/extensisq/common.py
+++ b/extensisq/common.py
@@ -2100,7 +2100,7 @@ class ESDIRK(OdeSolver):
             scale = calculate_scale(self.atol, self.rtol, y, y_new)
             err = h * (K.T @ self.E)                                      # est
             if self.filter_error:
-                err = self.M_mat @ self.solve_lu(LU, Sc @ err)            # Est
+                err = self.solve_lu(LU, Sc @ (self.M_mat @ err))          # Est
             error_norm = norm(err/scale)
 
             # propose new stepsize
-- 
2.43.0


From ee93f6eec1368edc271444248897a3421f11f6fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:05 +0000
Subject: [PATCH 20/28] fix: consistent initial conditions are found if v0 is
 tiny or root stagnates

---
 extensisq/common.py | 24 +++++++++++++++---------
 1 file changed, 15 insertions(+), 9 deletions(-)

diff --git a/extensisq/common.py b/extensisq/common.py
index 4788831..fe259de 100644
--- a/extensisq/common.py
+++ b/extensisq/common.py
@@ -1873,24 +1873,30 @@ class ESDIRK(OdeSolver):
             v0 = z0[s_v]
             u = z0[s_u]     # fixed
 
-            def funC(v, u=u, t=t, U=U, Vh=Vh):
-                y = Vh.T @ np.r_[u, v]
+            # Solve for a change of v relative to the first Newton update. root
+            # makes no progress from values of v0 that are tiny but not zero.
+            b_v = np.linalg.norm(b[s_v])
+            d_v = np.linalg.norm(np.linalg.solve(Gvv, b[s_v]))
+
+            def funC(x, u=u, t=t, U=U, Vh=Vh):
+                y = Vh.T @ np.r_[u, v0 + d_v*x]
                 f = fun(t, y)
                 gv = (U.T @ f)[s_v]
-                return gv
+                return gv/b_v
 
-            def jacC(v, u=u, t=t, U=U, Vh=Vh):
-                y = Vh.T @ np.r_[u, v]
+            def jacC(x, u=u, t=t, U=U, Vh=Vh):
+                y = Vh.T @ np.r_[u, v0 + d_v*x]
                 Gvv = (U.T @ jac(t, y) @ Vh.T)[s_v, s_v]
                 self.njev -= 1                  # don't count these evaluations
-                return Gvv
+                return Gvv*(d_v/b_v)
 
-            solC = root(funC, v0, jac=jacC)
-            if not solC.success:
+            solC = root(funC, np.zeros_like(v0), jac=jacC)
+            # root may stagnate on rounding errors once it is at the solution
+            if not (solC.success or np.allclose(solC.fun*b_v, 0.)):
                 raise ValueError(
                     "Cannot find consistent initial conditions."
                     " Try to give a better y0")
-            v = solC.x
+            v = v0 + d_v*solC.x
             y = Vh.T @ np.r_[u, v]
             f = fun(t, y)
             J = jac(t, y)              # J at updated y0
-- 
2.43.0


From 781f3ce7834dbea2d6a49276803bdd06703f00a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:23:26 +0000
Subject: [PATCH 21/28] fix: KC4Ia solves algebraic variables accurately enough
 for its error estimate

---
 extensisq/kennedy.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/extensisq/kennedy.py b/extensisq/kennedy.py
index 0487056..4bfafd3 100644
--- a/extensisq/kennedy.py
+++ b/extensisq/kennedy.py
@@ -576,6 +576,13 @@ class KC4Ia(KC):
     order_secondary = 3
     kappa = 0.2
 
+    def __init__(self, *args, **kwargs):
+        super().__init__(*args, **kwargs)
+        if self.isDAE:
+            # Errors in the algebraic variables have a large effect on the
+            # error estimate, that does not diminish with the step size.
+            self.kappa = 1/100
+
     # coefficients
     d = 1/8
     C = np.array(
-- 
2.43.0


From beaffe09b13516f88d149165c00a56ae559050ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:13 +0000
Subject: [PATCH 22/28] fix: recognition of DAEs of higher index does not
 depend on scaling or mixing

---
 extensisq/common.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/extensisq/common.py b/extensisq/common.py
index fe259de..9b7fb36 100644
--- a/extensisq/common.py
+++ b/extensisq/common.py
@@ -1851,12 +1851,16 @@ class ESDIRK(OdeSolver):
         s_u = np.s_[:s_v.start]
         U, s, Vh = self.M_details['svd']
         Gvv = (U.T @ J @ Vh.T)[s_v, s_v]
-        # entries that can not be told apart from errors are zero
+        # The index is 1 if Gvv and all matrices that can not be told apart from
+        # it are regular: the spectral radius of |Gvv^-1| @ noise is below 1.
         eps = np.finfo(self.y.dtype).eps
-        eps = 10*self.n*(eps if self.jac_factor is None else eps**0.5)
+        eps = self.n*(100*eps if self.jac_factor is None else 10*eps**0.5)
         noise = eps*(abs(U.T) @ np.abs(J) @ abs(Vh.T))[s_v, s_v]
-        rank = np.linalg.matrix_rank(np.where(np.abs(Gvv) > noise, Gvv, 0.))
-        index1 = rank == Gvv.shape[1]
+        try:
+            radius = abs(np.linalg.eigvals(abs(np.linalg.inv(Gvv)) @ noise))
+            index1 = np.max(radius) < 1
+        except np.linalg.LinAlgError:
+            index1 = False
         if not index1:
             raise ValueError(
                 "The index of the DAE seems to be larger than 1."
-- 
2.43.0


From b4c01366263e3428159a5064dbe625bb9e8a2182 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:13 +0000
Subject: [PATCH 23/28] fix: SSV2stab perturbs the state as intended to
 estimate the spectral radius

---
 extensisq/sommeijer.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/extensisq/sommeijer.py b/extensisq/sommeijer.py
index 051d13b..58e016f 100644
--- a/extensisq/sommeijer.py
+++ b/extensisq/sommeijer.py
@@ -358,7 +358,7 @@ class SSV2stab(OdeSolver):
             v[:] = yn + v * (dynrm/vnrm)
         elif ynrm != 0.0:
             dynrm = ynrm * self.sqrtu
-            v[:] *= 1.0 + self.sqrtu
+            v[:] = yn * (1.0 + self.sqrtu)
         elif vnrm != 0.0:
             dynrm = self.uround
             v[:] *= dynrm/vnrm
@@ -396,7 +396,7 @@ class SSV2stab(OdeSolver):
                 # current approximation to the eigenvector by changing
                 # the sign of one component.
                 index = iter % self.n
-                v[index] = -v[index]
+                v[index] = yn[index] - (v[index] - yn[index])
 
         # return None to report a convergence failure.
         return None
-- 
2.43.0


From 1c7549972d7d9def7d94563fe6c2b29b0f6884a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:39:46 +0000
Subject: [PATCH 24/28] fix: recognise a wrongly structured second-order
 problem that starts at rest

The structure of fun was tested with perturbed velocities only if all
velocities equal the positions. With a velocity of zero, [c*v, a] passed
as [v, a] too, and a different problem was solved.
---
 extensisq/common.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/extensisq/common.py b/extensisq/common.py
index 9b7fb36..92a3f68 100644
--- a/extensisq/common.py
+++ b/extensisq/common.py
@@ -1253,7 +1253,8 @@ class RungeKuttaNystrom(RungeKutta):
                ' and `fun` should have signature: [v, a] = fun(t, [x, v]).')
         if (self.y.size % 2) or not np.all(self.y[self.n:] == self.f[:self.n]):
             raise AssertionError(msg)
-        elif np.all(self.y[self.n:] == self.y[:self.n]):
+        elif np.any((self.y[self.n:] == self.y[:self.n]) |
+                    (self.y[self.n:] == 0.)):
             y_test = self.y.copy()
             y_test[self.n:] *= 1 + 1e-8
             y_test[self.n:] += 1e-8
-- 
2.43.0


From 6bc7381acfe23d13dc60480913613c43a59b1278 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:27:48 +0000
Subject: [PATCH 25/28] fix: accept a list or tuple for atol in sens_forward

The documentation allows a sequence of length ny, but the division by the
size of the parameter only worked for arrays.
---
 extensisq/sensitivity.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/extensisq/sensitivity.py b/extensisq/sensitivity.py
index e4f683c..de38836 100644
--- a/extensisq/sensitivity.py
+++ b/extensisq/sensitivity.py
@@ -162,6 +162,7 @@ def sens_forward(fun, t_span, y0, jac, dfdp, dy0dp, p, atol=1e-6, rtol=1e-3,
     assert isinstance(rtol, float), 'rtol should be a float'
     assert isinstance(atol, float) or len(atol) == Ny, \
         '`atol` should be a float or a sequence of floats of length Ny'
+    atol = np.asarray(atol)
     total_atol = np.empty((Np+1)*Ny)
     total_atol[:Ny] = atol
     for i, _p in enumerate(p, start=1):
-- 
2.43.0


From 367fe458bc648d2819cbae915d75b58f41d916e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:27:48 +0000
Subject: [PATCH 26/28] fix: intended errors for functions without __name__ in
 the sensitivity routines

jac=None, or a partial or callable object that returns an array of a wrong
shape, raised an AttributeError from formatting the error message.
---
 extensisq/sensitivity.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/extensisq/sensitivity.py b/extensisq/sensitivity.py
index de38836..44017b8 100644
--- a/extensisq/sensitivity.py
+++ b/extensisq/sensitivity.py
@@ -17,7 +17,8 @@ def _test_functions(fun, t0, y0, ndim, args=None, Np=None):
     """test the functions and embed args.
     if np is an integer, the size of the last axis should be np
     """
-    assert callable(fun), f"{fun.__name__} should be a function"
+    name = getattr(fun, "__name__", repr(fun))
+    assert callable(fun), f"{name} should be a function"
     n = y0.size
 
     # test args
@@ -37,12 +38,12 @@ def _test_functions(fun, t0, y0, ndim, args=None, Np=None):
         test_value = _fun(t0, y0)
     except Exception:
         raise AssertionError(
-            f"the function {fun.__name__} should have signature " +
+            f"the function {name} should have signature " +
             "f(t, y, *args) where *args is optional")
 
     # test returned ndim
     if test_value.ndim != ndim:
-        raise ValueError(f"{fun.__name__} should return a {ndim}D array")
+        raise ValueError(f"{name} should return a {ndim}D array")
 
     # test returned shape
     expected_shape = ndim * [n]
@@ -50,7 +51,7 @@ def _test_functions(fun, t0, y0, ndim, args=None, Np=None):
         expected_shape[-1] = Np
     for s, s_ex in zip(test_value.shape, expected_shape):
         if s != s_ex:
-            raise ValueError(f"the array returned by {fun.__name__} " +
+            raise ValueError(f"the array returned by {name} " +
                              f"should have shape {expected_shape}")
 
     # return function with embedded args (and B) (and p)
-- 
2.43.0


From 663561718187671b637097fea0bf8cd9921cd952 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:27:53 +0000
Subject: [PATCH 27/28] fix: CKdisc warns about nfev_stiff_detect instead of
 failing

The option of the other explicit methods raised a TypeError (multiple
values for keyword argument), while all other options without effect only
give a warning.
---
 extensisq/cash.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/extensisq/cash.py b/extensisq/cash.py
index 4743217..a4f0ccb 100644
--- a/extensisq/cash.py
+++ b/extensisq/cash.py
@@ -1,4 +1,5 @@
 import numpy as np
+from scipy.integrate._ivp.common import warn_extraneous
 from extensisq.common import (RungeKutta, HornerDenseOutput, CubicDenseOutput,
                               NFS, calculate_scale, norm)
 
@@ -244,6 +245,10 @@ class CKdisc(RungeKutta):
         [0, 3/2, -4, 5/2]])
 
     def __init__(self, fun, t0, y0, t_bound, **extraneous):
+        # this method does not implement stiffness detection
+        if "nfev_stiff_detect" in extraneous:
+            warn_extraneous(
+                {"nfev_stiff_detect": extraneous.pop("nfev_stiff_detect")})
         super().__init__(
             fun, t0, y0, t_bound, nfev_stiff_detect=0, **extraneous)
         # adaptive weighing factors:
-- 
2.43.0


From 148dcfdf8f78a9b104748abd59e48020cdc389ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:22:51 +0000
Subject: [PATCH 28/28] fix: h_start returned an infinite step at rest with an
 infinite interval

---
 extensisq/common.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/extensisq/common.py b/extensisq/common.py
index 92a3f68..c221b69 100644
--- a/extensisq/common.py
+++ b/extensisq/common.py
@@ -734,12 +734,14 @@ def h_start(df, a, b, y, yprime, morder, rtol, atol,
 
     # restrict the step length to be not bigger than abs(b-a).
     # (unless b is too close to a)
+    # an infinite interval can not be used if the derivatives are zero
     h = absdx
     if ydpb == 0.0 and fbnd == 0.0:
         # both first derivative term (fbnd) and second derivative term (ydpb)
         # are zero
+        h = absdx if absdx < np.inf else 1.0
         if tolp < 1.0:
-            h = absdx * tolp
+            h *= tolp
     elif ydpb == 0.0:
         #  only second derivative term (ydpb) is zero
         if tolp < fbnd * absdx:
-- 
2.43.0

