From 5115481ccaaebfc05465fb5370bd9c0e7f248ae3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:11 +0000
Subject: [PATCH 01/33] fix: EKF predict_update linearizes at and records the
 predicted state

---
 filterpy/kalman/EKF.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/filterpy/kalman/EKF.py b/filterpy/kalman/EKF.py
index 5e83aec..f0a3f25 100644
--- a/filterpy/kalman/EKF.py
+++ b/filterpy/kalman/EKF.py
@@ -219,17 +219,16 @@ class ExtendedKalmanFilter(object):
         R = self.R
         x = self.x
 
-        H = HJacobian(x, *args)
-
         # predict step
         x = dot(F, x) + dot(B, u)
         P = dot(F, P).dot(F.T) + Q
 
         # save prior
-        self.x_prior = np.copy(self.x)
-        self.P_prior = np.copy(self.P)
+        self.x_prior = np.copy(x)
+        self.P_prior = np.copy(P)
 
-        # update step
+        # update step, linearized around the predicted state
+        H = HJacobian(x, *args)
         PHT = dot(P, H.T)
         self.S = dot(H, PHT) + R
         self.SI = linalg.inv(self.S)
-- 
2.43.0


From a8faaca342a36d9e5dc049822766bec5cc83428d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:11 +0000
Subject: [PATCH 02/33] fix: procedural update functions accept plain floats
 for the state

---
 filterpy/kalman/kalman_filter.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/filterpy/kalman/kalman_filter.py b/filterpy/kalman/kalman_filter.py
index 994b596..9566373 100644
--- a/filterpy/kalman/kalman_filter.py
+++ b/filterpy/kalman/kalman_filter.py
@@ -1471,7 +1471,7 @@ def update(x, P, z, R, H=None, return_all=False):
         H = np.array([H])
 
     Hx = np.atleast_1d(dot(H, x))
-    z = reshape_z(z, Hx.shape[0], x.ndim)
+    z = reshape_z(z, Hx.shape[0], np.ndim(x))
 
     # error (residual) between measurement and prediction
     y = z - Hx
@@ -1559,7 +1559,7 @@ def update_steadystate(x, z, K, H=None):
         H = np.array([H])
 
     Hx = np.atleast_1d(dot(H, x))
-    z = reshape_z(z, Hx.shape[0], x.ndim)
+    z = reshape_z(z, Hx.shape[0], np.ndim(x))
 
     # error (residual) between measurement and prediction
     y = z - Hx
-- 
2.43.0


From 2d6f495e1ff2e66d0267d5713f45d44837249e55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:44 +0000
Subject: [PATCH 03/33] fix: SquareRootKalmanFilter.P_post returns the
 posterior covariance

---
 filterpy/kalman/square_root.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/filterpy/kalman/square_root.py b/filterpy/kalman/square_root.py
index d776182..f24833c 100644
--- a/filterpy/kalman/square_root.py
+++ b/filterpy/kalman/square_root.py
@@ -300,7 +300,7 @@ class SquareRootKalmanFilter(object):
     @property
     def P_post(self):
         """ covariance matrix of the posterior"""
-        return dot(self._P1_2_prior, self._P1_2_prior.T)
+        return dot(self._P1_2_post, self._P1_2_post.T)
 
     @property
     def P1_2(self):
-- 
2.43.0


From 1b5158c9c51ac64c5393623f0063eb13c1ddfb8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:18 +0000
Subject: [PATCH 04/33] fix: batch filters accept None among vector
 measurements

---
 filterpy/hinfinity/hinfinity_filter.py | 2 +-
 filterpy/kalman/fading_memory.py       | 2 +-
 filterpy/kalman/kalman_filter.py       | 4 ++--
 3 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/filterpy/hinfinity/hinfinity_filter.py b/filterpy/hinfinity/hinfinity_filter.py
index 9ed320e..c2ec121 100644
--- a/filterpy/hinfinity/hinfinity_filter.py
+++ b/filterpy/hinfinity/hinfinity_filter.py
@@ -185,7 +185,7 @@ class HInfinityFilter(object):
             `covariance[k, :, :]` is the covariance at step `k`.
         """
 
-        n = np.size(Zs, 0)
+        n = len(Zs)
 
         # mean estimates from H-Infinity Filter
         means = zeros((n, self.dim_x, 1))
diff --git a/filterpy/kalman/fading_memory.py b/filterpy/kalman/fading_memory.py
index 36c9dcc..2bce646 100644
--- a/filterpy/kalman/fading_memory.py
+++ b/filterpy/kalman/fading_memory.py
@@ -314,7 +314,7 @@ class FadingKalmanFilter(object):
             In other words `covariance[k,:,:]` is the covariance at step `k`.
         """
 
-        n = np.size(zs, 0)
+        n = len(zs)
         if Rs is None:
             Rs = [None] * n
 
diff --git a/filterpy/kalman/kalman_filter.py b/filterpy/kalman/kalman_filter.py
index 9566373..b1a6a01 100644
--- a/filterpy/kalman/kalman_filter.py
+++ b/filterpy/kalman/kalman_filter.py
@@ -937,7 +937,7 @@ class KalmanFilter(object):
         """
 
         #pylint: disable=too-many-statements
-        n = np.size(zs, 0)
+        n = len(zs)
         if Fs is None:
             Fs = [self.F] * n
         if Qs is None:
@@ -1741,7 +1741,7 @@ def batch_filter(x, P, zs, Fs, Qs, Hs, Rs, Bs=None, us=None,
 
     """
 
-    n = np.size(zs, 0)
+    n = len(zs)
     dim_x = x.shape[0]
 
     # mean estimates from Kalman Filter
-- 
2.43.0


From e1d39de1cca2c5befb08ee6693861d2468151dab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:18 +0000
Subject: [PATCH 05/33] fix: HInfinityFilter.batch_filter works without a saver

---
 filterpy/hinfinity/hinfinity_filter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/filterpy/hinfinity/hinfinity_filter.py b/filterpy/hinfinity/hinfinity_filter.py
index c2ec121..9968eb7 100644
--- a/filterpy/hinfinity/hinfinity_filter.py
+++ b/filterpy/hinfinity/hinfinity_filter.py
@@ -157,7 +157,7 @@ class HInfinityFilter(object):
         self.x = dot(self.F, self.x) + dot(self.B, u)
 
 
-    def batch_filter(self, Zs,update_first=False, saver=False):
+    def batch_filter(self, Zs,update_first=False, saver=None):
         """ Batch processes a sequences of measurements.
 
         Parameters
-- 
2.43.0


From c8c82a70b85b54a10434a3b16839241ca80ed7d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:25 +0000
Subject: [PATCH 06/33] fix: UKF batch_filter accepts a missing first
 measurement

---
 filterpy/kalman/UKF.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/filterpy/kalman/UKF.py b/filterpy/kalman/UKF.py
index f8baf19..4493469 100644
--- a/filterpy/kalman/UKF.py
+++ b/filterpy/kalman/UKF.py
@@ -595,7 +595,9 @@ class UnscentedKalmanFilter(object):
         except TypeError:
             raise TypeError('zs must be list-like')
 
-        if self._dim_z == 1:
+        if z is None:
+            pass   # missing measurement, nothing to validate
+        elif self._dim_z == 1:
             if not(isscalar(z) or (z.ndim == 1 and len(z) == 1)):
                 raise TypeError('zs must be a list of scalars or 1D, 1 element arrays')
         else:
-- 
2.43.0


From 6c5a3002a50bdd5d7c37d76dc4f451db2ee30f58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:21 +0000
Subject: [PATCH 07/33] fix: MMAE covariance uses the spread about the whole
 mean of every filter

---
 filterpy/kalman/mmae.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/filterpy/kalman/mmae.py b/filterpy/kalman/mmae.py
index f28d9de..d00ed72 100644
--- a/filterpy/kalman/mmae.py
+++ b/filterpy/kalman/mmae.py
@@ -201,8 +201,8 @@ class MMAEFilterBank(object):
             for f, p in zip(self.filters, self.p):
                 self.x += np.dot(f.x, p)
 
-        for x, f, p in zip(self.x, self.filters, self.p):
-            y = f.x - x
+        for f, p in zip(self.filters, self.p):
+            y = f.x - self.x
             self.P += p*(np.outer(y, y) + f.P)
 
 
-- 
2.43.0


From 4cfca7e9b2c473d8573f2cb3f7d5c0040d151e29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:21 +0000
Subject: [PATCH 08/33] fix: MMAE keeps its own float copy of the model
 probabilities

---
 filterpy/kalman/mmae.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/filterpy/kalman/mmae.py b/filterpy/kalman/mmae.py
index d00ed72..3adb352 100644
--- a/filterpy/kalman/mmae.py
+++ b/filterpy/kalman/mmae.py
@@ -110,7 +110,7 @@ class MMAEFilterBank(object):
             raise ValueError('dim_x must be >= 1')
 
         self.filters = filters
-        self.p = np.asarray(p)
+        self.p = np.array(p, dtype=float)
         self.dim_x = dim_x
         if H is None:
             self.H = None
-- 
2.43.0


From 351e74e8cc071952768b0b3dc2b5e2fd6b6e6fdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:21 +0000
Subject: [PATCH 09/33] fix: procedural rts_smoother uses the model of the
 predicted epoch

---
 filterpy/kalman/kalman_filter.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/filterpy/kalman/kalman_filter.py b/filterpy/kalman/kalman_filter.py
index b1a6a01..d3a09ca 100644
--- a/filterpy/kalman/kalman_filter.py
+++ b/filterpy/kalman/kalman_filter.py
@@ -1848,11 +1848,11 @@ def rts_smoother(Xs, Ps, Fs, Qs):
     x, P, pP = Xs.copy(), Ps.copy(), Ps.copy()
 
     for k in range(n-2, -1, -1):
-        pP[k] = dot(dot(Fs[k], P[k]), Fs[k].T) + Qs[k]
+        pP[k] = dot(dot(Fs[k+1], P[k]), Fs[k+1].T) + Qs[k+1]
 
         #pylint: disable=bad-whitespace
-        K[k]  = dot(dot(P[k], Fs[k].T), linalg.inv(pP[k]))
-        x[k] += dot(K[k], x[k+1] - dot(Fs[k], x[k]))
+        K[k]  = dot(dot(P[k], Fs[k+1].T), linalg.inv(pP[k]))
+        x[k] += dot(K[k], x[k+1] - dot(Fs[k+1], x[k]))
         P[k] += dot(dot(K[k], P[k+1] - pP[k]), K[k].T)
 
     return (x, P, K, pP)
-- 
2.43.0


From d92b27da0233a2bc295e53c91fc6e2dc08674b92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:51 +0000
Subject: [PATCH 10/33] fix: UKF rts_smoother honours Qs and the time step of
 the predicted epoch

---
 filterpy/kalman/UKF.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/filterpy/kalman/UKF.py b/filterpy/kalman/UKF.py
index 4493469..15a6d4d 100644
--- a/filterpy/kalman/UKF.py
+++ b/filterpy/kalman/UKF.py
@@ -717,10 +717,10 @@ class UnscentedKalmanFilter(object):
             # create sigma points from state estimate, pass through state func
             sigmas = self.points_fn.sigma_points(xs[k], ps[k])
             for i in range(num_sigmas):
-                sigmas_f[i] = self.fx(sigmas[i], dts[k])
+                sigmas_f[i] = self.fx(sigmas[i], dts[k+1])
 
             xb, Pb = UT(
-                sigmas_f, self.Wm, self.Wc, self.Q,
+                sigmas_f, self.Wm, self.Wc, Qs[k+1],
                 self.x_mean, self.residual_x)
 
             # compute cross variance
-- 
2.43.0


From 7b74c3b41bcb0ca9e89c39ffe37cd8cfa5bae0c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:51 +0000
Subject: [PATCH 11/33] fix: procedural update reports the log-likelihood of
 the innovation

---
 filterpy/kalman/kalman_filter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/filterpy/kalman/kalman_filter.py b/filterpy/kalman/kalman_filter.py
index d3a09ca..7462f09 100644
--- a/filterpy/kalman/kalman_filter.py
+++ b/filterpy/kalman/kalman_filter.py
@@ -1503,7 +1503,7 @@ def update(x, P, z, R, H=None, return_all=False):
 
     if return_all:
         # compute log likelihood
-        log_likelihood = logpdf(z, dot(H, x), S)
+        log_likelihood = logpdf(x=y, cov=S)
         return x, P, y, K, S, log_likelihood
     return x, P
 
-- 
2.43.0


From d2c92f301ae71e507abdab8efe8f3687b1c4c30d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:51 +0000
Subject: [PATCH 12/33] fix: CKF updates from cubature points of the predicted
 distribution

---
 filterpy/kalman/CubatureKalmanFilter.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/filterpy/kalman/CubatureKalmanFilter.py b/filterpy/kalman/CubatureKalmanFilter.py
index bae2a1a..480ed99 100644
--- a/filterpy/kalman/CubatureKalmanFilter.py
+++ b/filterpy/kalman/CubatureKalmanFilter.py
@@ -322,6 +322,9 @@ class CubatureKalmanFilter(object):
 
         self.x, self.P = ckf_transform(self.sigmas_f, self.Q)
 
+        # redraw the cubature points from the predicted distribution
+        self.sigmas_f = spherical_radial_sigmas(self.x, self.P)
+
         # save prior
         self.x_prior = self.x.copy()
         self.P_prior = self.P.copy()
-- 
2.43.0


From 42542145e1853b19f9e5135da33d6b40abea0e81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:51 +0000
Subject: [PATCH 13/33] fix: CKF accepts one dimensional measurements

---
 filterpy/kalman/CubatureKalmanFilter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/filterpy/kalman/CubatureKalmanFilter.py b/filterpy/kalman/CubatureKalmanFilter.py
index 480ed99..013cb94 100644
--- a/filterpy/kalman/CubatureKalmanFilter.py
+++ b/filterpy/kalman/CubatureKalmanFilter.py
@@ -376,7 +376,7 @@ class CubatureKalmanFilter(object):
         Pxz = outer_product_sum(self.sigmas_f - xf, self.sigmas_h - zpf) / m
 
         self.K = dot(Pxz, self.SI)        # Kalman gain
-        self.y = self.residual_z(z, zp)   # residual
+        self.y = self.residual_z(np.reshape(z, zp.shape), zp)   # residual
 
         self.x = self.x + dot(self.K, self.y)
         self.P = self.P - dot(self.K, self.S).dot(self.K.T) # pylint: disable=no-member
-- 
2.43.0


From 52733c9fe5318ef10cf49ab33d34c8184516ffa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:51 +0000
Subject: [PATCH 14/33] fix: residual_resample draws the rest in proportion to
 the fractional parts

---
 filterpy/monte_carlo/resampling.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/filterpy/monte_carlo/resampling.py b/filterpy/monte_carlo/resampling.py
index e657871..05f2817 100644
--- a/filterpy/monte_carlo/resampling.py
+++ b/filterpy/monte_carlo/resampling.py
@@ -67,7 +67,7 @@ def residual_resample(weights):
 
     # use multinormal resample on the residual to fill up the rest. This
     # maximizes the variance of the samples
-    residual = weights - num_copies     # get fractional part
+    residual = N*np.asarray(weights) - num_copies     # get fractional part
     residual /= sum(residual)           # normalize
     cumulative_sum = np.cumsum(residual)
     cumulative_sum[-1] = 1. # avoid round-off errors: ensures sum is exactly one
-- 
2.43.0


From ae50f5562c81bfd01fa171bdfca7e67907ba51a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:51 +0000
Subject: [PATCH 15/33] fix: stratified and systematic resampling cannot run
 past the last weight

---
 filterpy/monte_carlo/resampling.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/filterpy/monte_carlo/resampling.py b/filterpy/monte_carlo/resampling.py
index 05f2817..2ab6dc4 100644
--- a/filterpy/monte_carlo/resampling.py
+++ b/filterpy/monte_carlo/resampling.py
@@ -106,7 +106,8 @@ def stratified_resample(weights):
     cumulative_sum = np.cumsum(weights)
     i, j = 0, 0
     while i < N:
-        if positions[i] < cumulative_sum[j]:
+        # round-off: whatever lies past the sum belongs to the last weight
+        if j == N-1 or positions[i] < cumulative_sum[j]:
             indexes[i] = j
             i += 1
         else:
@@ -142,7 +143,8 @@ def systematic_resample(weights):
     cumulative_sum = np.cumsum(weights)
     i, j = 0, 0
     while i < N:
-        if positions[i] < cumulative_sum[j]:
+        # round-off: whatever lies past the sum belongs to the last weight
+        if j == N-1 or positions[i] < cumulative_sum[j]:
             indexes[i] = j
             i += 1
         else:
-- 
2.43.0


From 07fdef3afd2b05f97d93bfe3ed720b4f4ea2df16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:51 +0000
Subject: [PATCH 16/33] fix: compare_kf returns the differing attributes

---
 filterpy/common/helpers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/filterpy/common/helpers.py b/filterpy/common/helpers.py
index 108a3ae..0a38e6e 100644
--- a/filterpy/common/helpers.py
+++ b/filterpy/common/helpers.py
@@ -466,7 +466,7 @@ def compare_kf(kf1, kf2, log=True, **kwargs):
             different_keys.append(attr)
 
     if len(different_keys) > 0:
-        return different
+        return different_keys
     else:
         return None
 
-- 
2.43.0


From f10ac4322513a0865c5619785356385ca86a330e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:51 +0000
Subject: [PATCH 17/33] fix: Saver stores copies of property values

---
 filterpy/common/helpers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/filterpy/common/helpers.py b/filterpy/common/helpers.py
index 0a38e6e..01f8f5c 100644
--- a/filterpy/common/helpers.py
+++ b/filterpy/common/helpers.py
@@ -127,7 +127,7 @@ class Saver(object):
         # if the class uses properties that compute data only when
         # accessed
         for prop in self.properties:
-            self._DL[prop[0]].append(getattr(kf, prop[0]))
+            self._DL[prop[0]].append(copy.deepcopy(getattr(kf, prop[0])))
 
         v = copy.deepcopy(kf.__dict__)
 
-- 
2.43.0


From 36704da28d04d64d354bb7769cbd77e1cc5434c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:06 +0000
Subject: [PATCH 18/33] fix: GHKFilter.batch_filter uses the acceleration and
 the gain k

---
 filterpy/gh/gh_filter.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/filterpy/gh/gh_filter.py b/filterpy/gh/gh_filter.py
index 260109f..fcad0e3 100644
--- a/filterpy/gh/gh_filter.py
+++ b/filterpy/gh/gh_filter.py
@@ -716,6 +716,7 @@ class GHKFilter(object):
 
         x = self.x
         dx = self.dx
+        ddx = self.ddx
         n = len(data)
 
         results = np.zeros((n+1, 2))
@@ -730,11 +731,13 @@ class GHKFilter(object):
 
         for i, z in enumerate(data):
             #prediction step
-            x_est = x + (dx*self.dt)
+            x_est = x + dx*self.dt + 0.5*ddx*self.dt**2
+            dx_est = dx + ddx*self.dt
 
             # update step
             residual = z - x_est
-            dx = dx    + h_dt   * residual # i.e. dx = dx + h * residual / dt
+            ddx = ddx + 2*self.k*residual / self.dt**2
+            dx = dx_est + h_dt  * residual # i.e. dx = dx + h * residual / dt
             x  = x_est + self.g * residual
 
             results[i+1, 0] = x
-- 
2.43.0


From 9e0e4b82fa7cf14b9e35bb8373f3dd1eeccafea3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:06 +0000
Subject: [PATCH 19/33] fix: sequential and square root updates do not write
 into the caller's state array

---
 filterpy/kalman/kalman_filter.py | 2 +-
 filterpy/kalman/square_root.py   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/filterpy/kalman/kalman_filter.py b/filterpy/kalman/kalman_filter.py
index 7462f09..b57951b 100644
--- a/filterpy/kalman/kalman_filter.py
+++ b/filterpy/kalman/kalman_filter.py
@@ -813,7 +813,7 @@ class KalmanFilter(object):
 
         # x = x + K_i @ y_i
         # update state estimation with residual scaled by the kalman gain
-        self.x += dot(K_i, y_i)
+        self.x = self.x + dot(K_i, y_i)
 
         # compute the posterior covariance
         self.P = dot(dot(I_KH, self.P), I_KH.T) + dot(dot(K_i, R_i), K_i.T)
diff --git a/filterpy/kalman/square_root.py b/filterpy/kalman/square_root.py
index f24833c..e7aec86 100644
--- a/filterpy/kalman/square_root.py
+++ b/filterpy/kalman/square_root.py
@@ -216,7 +216,7 @@ class SquareRootKalmanFilter(object):
 
         # x = x + Ky
         # predict new x with residual scaled by the kalman gain
-        self.x += dot(self.K, self.y)
+        self.x = self.x + dot(self.K, self.y)
         self._P1_2 = r_decomp[dim_z:, dim_z:].T
 
         self.z = deepcopy(z)
-- 
2.43.0


From 8bd48ae0a9e26e082401ed5ee6cd3a87f6d112d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:06 +0000
Subject: [PATCH 20/33] fix: reported likelihood is never below the smallest
 normal float

---
 filterpy/kalman/CubatureKalmanFilter.py | 2 +-
 filterpy/kalman/EKF.py                  | 2 +-
 filterpy/kalman/UKF.py                  | 2 +-
 filterpy/kalman/fading_memory.py        | 2 +-
 filterpy/kalman/information_filter.py   | 2 +-
 filterpy/kalman/kalman_filter.py        | 2 +-
 6 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/filterpy/kalman/CubatureKalmanFilter.py b/filterpy/kalman/CubatureKalmanFilter.py
index 013cb94..392da04 100644
--- a/filterpy/kalman/CubatureKalmanFilter.py
+++ b/filterpy/kalman/CubatureKalmanFilter.py
@@ -412,7 +412,7 @@ class CubatureKalmanFilter(object):
         """
         if self._likelihood is None:
             self._likelihood = exp(self.log_likelihood)
-            if self._likelihood == 0:
+            if self._likelihood < sys.float_info.min:
                 self._likelihood = sys.float_info.min
         return self._likelihood
 
diff --git a/filterpy/kalman/EKF.py b/filterpy/kalman/EKF.py
index f0a3f25..936216c 100644
--- a/filterpy/kalman/EKF.py
+++ b/filterpy/kalman/EKF.py
@@ -390,7 +390,7 @@ class ExtendedKalmanFilter(object):
         """
         if self._likelihood is None:
             self._likelihood = exp(self.log_likelihood)
-            if self._likelihood == 0:
+            if self._likelihood < sys.float_info.min:
                 self._likelihood = sys.float_info.min
         return self._likelihood
 
diff --git a/filterpy/kalman/UKF.py b/filterpy/kalman/UKF.py
index 15a6d4d..3da82e7 100644
--- a/filterpy/kalman/UKF.py
+++ b/filterpy/kalman/UKF.py
@@ -760,7 +760,7 @@ class UnscentedKalmanFilter(object):
         """
         if self._likelihood is None:
             self._likelihood = exp(self.log_likelihood)
-            if self._likelihood == 0:
+            if self._likelihood < sys.float_info.min:
                 self._likelihood = sys.float_info.min
         return self._likelihood
 
diff --git a/filterpy/kalman/fading_memory.py b/filterpy/kalman/fading_memory.py
index 2bce646..ec1803c 100644
--- a/filterpy/kalman/fading_memory.py
+++ b/filterpy/kalman/fading_memory.py
@@ -423,7 +423,7 @@ class FadingKalmanFilter(object):
         """
         if self._likelihood is None:
             self._likelihood = exp(self.log_likelihood)
-            if self._likelihood == 0:
+            if self._likelihood < sys.float_info.min:
                 self._likelihood = sys.float_info.min
         return self._likelihood
 
diff --git a/filterpy/kalman/information_filter.py b/filterpy/kalman/information_filter.py
index 46724d3..751daa0 100644
--- a/filterpy/kalman/information_filter.py
+++ b/filterpy/kalman/information_filter.py
@@ -234,7 +234,7 @@ class InformationFilter(object):
             if self.compute_log_likelihood:
                 self.log_likelihood = logpdf(x=self.y, cov=self.S)
                 self.likelihood = math.exp(self.log_likelihood)
-                if self.likelihood == 0:
+                if self.likelihood < sys.float_info.min:
                     self.likelihood = sys.float_info.min
 
         # save measurement and posterior state
diff --git a/filterpy/kalman/kalman_filter.py b/filterpy/kalman/kalman_filter.py
index b57951b..6be3db1 100644
--- a/filterpy/kalman/kalman_filter.py
+++ b/filterpy/kalman/kalman_filter.py
@@ -1220,7 +1220,7 @@ class KalmanFilter(object):
         """
         if self._likelihood is None:
             self._likelihood = exp(self.log_likelihood)
-            if self._likelihood == 0:
+            if self._likelihood < sys.float_info.min:
                 self._likelihood = sys.float_info.min
         return self._likelihood
 
-- 
2.43.0


From 50db9e506a350ec1e87d44b2e8c56330571b9f8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:06 +0000
Subject: [PATCH 21/33] fix: information filter computes the likelihood from
 the innovation covariance

---
 filterpy/kalman/information_filter.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/filterpy/kalman/information_filter.py b/filterpy/kalman/information_filter.py
index 751daa0..a1cc3c3 100644
--- a/filterpy/kalman/information_filter.py
+++ b/filterpy/kalman/information_filter.py
@@ -232,9 +232,16 @@ class InformationFilter(object):
             self.z = np.copy(reshape_z(z, self.dim_z, np.ndim(self.x)))
 
             if self.compute_log_likelihood:
-                self.log_likelihood = logpdf(x=self.y, cov=self.S)
-                self.likelihood = math.exp(self.log_likelihood)
-                if self.likelihood < sys.float_info.min:
+                try:
+                    # covariance of the innovation
+                    cov = dot(H, self.inv(P_inv)).dot(H_T) + self.inv(R_inv)
+                    self.log_likelihood = logpdf(x=self.y, cov=cov)
+                    self.likelihood = math.exp(self.log_likelihood)
+                    if self.likelihood < sys.float_info.min:
+                        self.likelihood = sys.float_info.min
+                except np.linalg.LinAlgError:
+                    # no prior information
+                    self.log_likelihood = math.log(sys.float_info.min)
                     self.likelihood = sys.float_info.min
 
         # save measurement and posterior state
-- 
2.43.0


From 063fc2a15135d76c7ce818a48f3117ba7f89250a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:06 +0000
Subject: [PATCH 22/33] fix: no control input means no contribution for any
 shape of B

---
 filterpy/kalman/kalman_filter.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/filterpy/kalman/kalman_filter.py b/filterpy/kalman/kalman_filter.py
index 6be3db1..3bc7b68 100644
--- a/filterpy/kalman/kalman_filter.py
+++ b/filterpy/kalman/kalman_filter.py
@@ -560,7 +560,7 @@ class KalmanFilter(object):
         self.x_post = self.x.copy()
         self.P_post = self.P.copy()
 
-    def predict_steadystate(self, u=0, B=None):
+    def predict_steadystate(self, u=None, B=None):
         """
         Predict state (prior) using the Kalman filter state propagation
         equations. Only x is updated, P is left unchanged. See
@@ -583,7 +583,7 @@ class KalmanFilter(object):
             B = self.B
 
         # x = Fx + Bu
-        if B is not None:
+        if B is not None and u is not None:
             self.x = dot(self.F, self.x) + dot(B, u)
         else:
             self.x = dot(self.F, self.x)
@@ -949,7 +949,7 @@ class KalmanFilter(object):
         if Bs is None:
             Bs = [self.B] * n
         if us is None:
-            us = [0] * n
+            us = [None] * n
 
         # mean estimates from Kalman Filter
         if self.x.ndim == 1:
-- 
2.43.0


From 87b663a513779d9ab89969b6a9b4ff60a78c98ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:06 +0000
Subject: [PATCH 23/33] fix: KalmanFilter reshapes the measurement also when H
 is passed

---
 filterpy/kalman/kalman_filter.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/filterpy/kalman/kalman_filter.py b/filterpy/kalman/kalman_filter.py
index 3bc7b68..3232436 100644
--- a/filterpy/kalman/kalman_filter.py
+++ b/filterpy/kalman/kalman_filter.py
@@ -527,6 +527,8 @@ class KalmanFilter(object):
         if H is None:
             z = reshape_z(z, self.dim_z, self.x.ndim)
             H = self.H
+        else:
+            z = reshape_z(z, shape(H)[0], self.x.ndim)
 
         # y = z - Hx
         # error (residual) between measurement and prediction
@@ -718,6 +720,8 @@ class KalmanFilter(object):
         if H is None:
             z = reshape_z(z, self.dim_z, self.x.ndim)
             H = self.H
+        else:
+            z = reshape_z(z, shape(H)[0], self.x.ndim)
 
         # handle special case: if z is in form [[z]] but x is not a column
         # vector dimensions will not match
-- 
2.43.0


From 8df684f12fbd3014746f961432b03f773c4b4542 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:06 +0000
Subject: [PATCH 24/33] fix: SquareRootKalmanFilter validates dim_x

---
 filterpy/kalman/square_root.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/filterpy/kalman/square_root.py b/filterpy/kalman/square_root.py
index e7aec86..a753ee1 100644
--- a/filterpy/kalman/square_root.py
+++ b/filterpy/kalman/square_root.py
@@ -125,10 +125,10 @@ class SquareRootKalmanFilter(object):
     """
 
     def __init__(self, dim_x, dim_z, dim_u=0):
-        if dim_z < 1:
+        if dim_x < 1:
             raise ValueError('dim_x must be 1 or greater')
         if dim_z < 1:
-            raise ValueError('dim_x must be 1 or greater')
+            raise ValueError('dim_z must be 1 or greater')
         if dim_u < 0:
             raise ValueError('dim_x must be 0 or greater')
 
-- 
2.43.0


From 0d91a3a0e5c4caf53b9f3ff72fb812d1db79dbb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:06 +0000
Subject: [PATCH 25/33] fix: LeastSquaresFilter.errors does not divide by zero
 for few measurements

---
 filterpy/leastsq/least_squares.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/filterpy/leastsq/least_squares.py b/filterpy/leastsq/least_squares.py
index 2610b14..0074423 100644
--- a/filterpy/leastsq/least_squares.py
+++ b/filterpy/leastsq/least_squares.py
@@ -185,8 +185,8 @@ class LeastSquaresFilter(object):
             if n > 1:
                 error[0] = sigma * sqrt(2*(2*n-1) / (n*(n+1)))
                 error[1] = sigma * sqrt(12. / (n*(n*n-1)*dt*dt))
-            std[0] = sigma * sqrt((2*(2*n-1)) / (n*(n+1)))
-            std[1] = (sigma/dt) * sqrt(12. / (n*(n*n-1)))
+                std[0] = sigma * sqrt((2*(2*n-1)) / (n*(n+1)))
+                std[1] = (sigma/dt) * sqrt(12. / (n*(n*n-1)))
 
         elif order == 2:
             dt2 = dt * dt
@@ -197,10 +197,10 @@ class LeastSquaresFilter(object):
                                         (n*(n*n-1)*(n*n-4)*dt2))
                 error[2] = sigma * sqrt(720/(n*(n*n-1)*(n*n-4)*dt2*dt2))
 
-            std[0] = sigma * sqrt((3*(3*n*n - 3*n + 2)) / (n*(n+1)*(n+2)))
-            std[1] = (sigma/dt) * sqrt((12*(16*n*n - 30*n + 11)) /
-                                       (n*(n*n - 1)*(n*n - 4)))
-            std[2] = (sigma/dt2) * sqrt(720 / (n*(n*n-1)*(n*n-4)))
+                std[0] = sigma * sqrt((3*(3*n*n - 3*n + 2)) / (n*(n+1)*(n+2)))
+                std[1] = (sigma/dt) * sqrt((12*(16*n*n - 30*n + 11)) /
+                                           (n*(n*n - 1)*(n*n - 4)))
+                std[2] = (sigma/dt2) * sqrt(720 / (n*(n*n-1)*(n*n-4)))
 
         return error, std
 
-- 
2.43.0


From 5497a7da86519994129bef919607c0b5ff7ae497 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:35 +0000
Subject: [PATCH 26/33] fix: GHKFilter variance reduction factors are the
 stationary variances

---
 filterpy/gh/gh_filter.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/filterpy/gh/gh_filter.py b/filterpy/gh/gh_filter.py
index fcad0e3..457901b 100644
--- a/filterpy/gh/gh_filter.py
+++ b/filterpy/gh/gh_filter.py
@@ -774,7 +774,7 @@ class GHKFilter(object):
         k = self.k
         gh2 = 2*g + h
         return ((g*k*(gh2-4)+ h*(g*gh2+2*h)) /
-                (2*k - (g*(h+k)*(gh2-4))))
+                ((2*k - g*(h+k)) * (gh2-4)))
 
 
     def bias_error(self, dddx):
@@ -832,8 +832,8 @@ class GHKFilter(object):
         hg4 = 4- 2*g - h
         ghk = g*h + g*k - 2*k
 
-        vx = (2*h*(2*(g**2) + 2*h - 3*g*h) - 2*g*k*hg4) / (2*k - g*(h+k) * hg4)
-        vdx = (2*(h**3) - 4*(h**2)*k + 4*(k**2)*(2-g)) / (2*hg4*ghk)
+        vx = (2*h*(2*(g**2) + 2*h - 3*g*h) - 2*g*k*hg4) / (2*hg4*ghk)
+        vdx = (2*(h**3) - 4*(h**2)*k + 4*(k**2)*(2-g)) / ((self.dt**2)*hg4*ghk)
         vddx = 8*h*(k**2) / ((self.dt**4)*hg4*ghk)
 
         return (vx, vdx, vddx)
-- 
2.43.0


From 8bf8c4c7a6a92d2251608f879ebc2151f6446cd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:45 +0000
Subject: [PATCH 27/33] fix: FadingMemoryFilter order 1 velocity variance and
 truncation error scale with dt

---
 filterpy/memory/fading_memory.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/filterpy/memory/fading_memory.py b/filterpy/memory/fading_memory.py
index 8b2f66e..2cdebc8 100644
--- a/filterpy/memory/fading_memory.py
+++ b/filterpy/memory/fading_memory.py
@@ -120,10 +120,10 @@ class FadingMemoryFilter(object):
 
         elif order == 1:
             p11 = (1-beta) * (1+4*beta+5*beta**2) / (1+beta)**3
-            p22 = 2*(1-beta)**3 / (1+beta)**3
+            p22 = 2*(1-beta)**3 / ((1+beta)**3 * dt**2)
             self.P = np.array([p11, p22], dtype=float)
 
-            e = 2*dt*2 * (beta / (1-beta))**2
+            e = 2*dt**2 * (beta / (1-beta))**2
             de = dt*((1+3*beta)/(1-beta))
             self.e = np.array([e, de], dtype=float)
 
-- 
2.43.0


From cc4244b7376b0ecbb57f37a3074fae0598c8e20c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:08 +0000
Subject: [PATCH 28/33] fix: compare_kf compares attributes that are not
 numeric

---
 filterpy/common/helpers.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/filterpy/common/helpers.py b/filterpy/common/helpers.py
index 01f8f5c..f025c9d 100644
--- a/filterpy/common/helpers.py
+++ b/filterpy/common/helpers.py
@@ -457,7 +457,13 @@ def compare_kf(kf1, kf2, log=True, **kwargs):
         if attr[0] == "_":
             continue
 
-        if not np.allclose(v1[attr], v2[attr], **kwargs):
+        try:
+            same = np.allclose(v1[attr], v2[attr], **kwargs)
+        except (TypeError, ValueError):
+            # not numeric (None, function, ...), or incompatible shapes
+            same = np.array_equal(v1[attr], v2[attr])
+
+        if not same:
             if log:
                 print(attr, "is different")
                 print(pretty_str(attr, v1[attr]))
-- 
2.43.0


From 765dd9d4ee71043b304596d69b4bacccd69dcab6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:33 +0000
Subject: [PATCH 29/33] fix: IMMEstimator does not write into estimates
 obtained earlier

---
 filterpy/kalman/IMM.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/filterpy/kalman/IMM.py b/filterpy/kalman/IMM.py
index 84808fa..51a9971 100644
--- a/filterpy/kalman/IMM.py
+++ b/filterpy/kalman/IMM.py
@@ -229,11 +229,11 @@ class IMMEstimator(object):
         Computes the IMM's mixed state estimate from each filter using
         the the mode probability self.mu to weight the estimates.
         """
-        self.x.fill(0)
+        self.x = zeros(self.x.shape)
         for f, mu in zip(self.filters, self.mu):
             self.x += f.x * mu
 
-        self.P.fill(0)
+        self.P = zeros(self.P.shape)
         for f, mu in zip(self.filters, self.mu):
             y = f.x - self.x
             self.P += mu * (outer(y, y) + f.P)
-- 
2.43.0


From f9e9bfc40e4e5aa75e342d9dba9ea9a954ce792a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:33 +0000
Subject: [PATCH 30/33] fix: LeastSquaresFilter does not write into estimates
 returned earlier

---
 filterpy/leastsq/least_squares.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/filterpy/leastsq/least_squares.py b/filterpy/leastsq/least_squares.py
index 0074423..d5553c2 100644
--- a/filterpy/leastsq/least_squares.py
+++ b/filterpy/leastsq/least_squares.py
@@ -123,7 +123,7 @@ class LeastSquaresFilter(object):
         # rename for readability
         n = self.n
         dt = self.dt
-        x = self.x
+        x = self.x = self.x.copy()
         K = self.K
         y = self.y
 
-- 
2.43.0


From ab816a27b48944919f68724d3db69a672598d93a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:33 +0000
Subject: [PATCH 31/33] fix: LeastSquaresFilter records the residual

---
 filterpy/leastsq/least_squares.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/filterpy/leastsq/least_squares.py b/filterpy/leastsq/least_squares.py
index d5553c2..0c591a9 100644
--- a/filterpy/leastsq/least_squares.py
+++ b/filterpy/leastsq/least_squares.py
@@ -125,11 +125,10 @@ class LeastSquaresFilter(object):
         dt = self.dt
         x = self.x = self.x.copy()
         K = self.K
-        y = self.y
 
         if self._order == 0:
             K[0] = 1. / n
-            y = z - x
+            y = z - x[0]
             x[0] += K[0] * y
 
         elif self._order == 1:
@@ -152,6 +151,8 @@ class LeastSquaresFilter(object):
             x[0] += (K[0] * y) + (x[1] * dt) + (.5 * dt**2 * x[2])
             x[1] += (K[1] * y) + (x[2] * dt)
             x[2] += (K[2] * y)
+
+        self.y = y
         return self.x
 
     def errors(self):
-- 
2.43.0


From 47c3aaa5ef50732935396bfc7d214ae9cd0ce360 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:33 +0000
Subject: [PATCH 32/33] fix: FadingMemoryFilter does not truncate an integer
 initial state

---
 filterpy/memory/fading_memory.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/filterpy/memory/fading_memory.py b/filterpy/memory/fading_memory.py
index 2cdebc8..72cc043 100644
--- a/filterpy/memory/fading_memory.py
+++ b/filterpy/memory/fading_memory.py
@@ -108,7 +108,7 @@ class FadingMemoryFilter(object):
             self.x = np.zeros(order+1)
             self.x[0] = x0
         else:
-            self.x = np.copy(x0)
+            self.x = np.array(x0, dtype=float)
 
         self.dt = dt
         self.order = order
-- 
2.43.0


From fa5d23a9f237b14d1501f9b10000681a4db2157e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:48 +0000
Subject: [PATCH 33/33] fix: GHFilterOrder and FadingMemoryFilter do not write
 into states obtained earlier

---
 filterpy/gh/gh_filter.py         | 2 ++
 filterpy/memory/fading_memory.py | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/filterpy/gh/gh_filter.py b/filterpy/gh/gh_filter.py
index 457901b..32d4d04 100644
--- a/filterpy/gh/gh_filter.py
+++ b/filterpy/gh/gh_filter.py
@@ -139,6 +139,8 @@ class GHFilterOrder(object):
         or treatable as the same type as self.x[0].
         """
 
+        self.x = self.x.copy()
+
         if self.order == 0:
             if g is None:
                 g = self.g
diff --git a/filterpy/memory/fading_memory.py b/filterpy/memory/fading_memory.py
index 72cc043..d3f9089 100644
--- a/filterpy/memory/fading_memory.py
+++ b/filterpy/memory/fading_memory.py
@@ -161,6 +161,8 @@ class FadingMemoryFilter(object):
         (or treatable as the same type) as self.x[0].
         """
 
+        self.x = self.x.copy()
+
         if self.order == 0:
             G = 1 - self.beta
             self.x = self.x + dot(G, (z - self.x))
-- 
2.43.0

