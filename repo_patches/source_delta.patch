From ea4c89dab4f46eabde772974ea385000995193a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:11 +0000
Subject: [PATCH 01/61] fix: L2.prox no longer modifies its input in place when
 q is given

---
 pyproximal/proximal/L2.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyproximal/proximal/L2.py b/pyproximal/proximal/L2.py
index f38f53b..fa53e5f 100644
--- a/pyproximal/proximal/L2.py
+++ b/pyproximal/proximal/L2.py
@@ -265,7 +265,7 @@ class L2(ProxOperator):
             else:
                 y = x
                 if self.q is not None:
-                    y -= tau * self.alpha * self.q
+                    y = y - tau * self.alpha * self.q
                 x = regularized_inversion(
                     np.sqrt(tau * self.sigma) * self.Op,
                     np.sqrt(tau * self.sigma) * self.b,
@@ -290,7 +290,7 @@ class L2(ProxOperator):
         else:
             num = x
             if self.q is not None:
-                num -= tau * self.alpha * self.q
+                num = num - tau * self.alpha * self.q
             x = num / (1.0 + tau * self.sigma)
         return x
 
-- 
2.43.0


From d527c8c9cdd15fcf05ed772584e4ce222cee693d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:26 +0000
Subject: [PATCH 02/61] fix: IntersectionProj no longer modifies its input in
 place

---
 pyproximal/projection/Intersection.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyproximal/projection/Intersection.py b/pyproximal/projection/Intersection.py
index bdd765d..86202d9 100644
--- a/pyproximal/projection/Intersection.py
+++ b/pyproximal/projection/Intersection.py
@@ -52,7 +52,7 @@ class IntersectionProj:
         self.tol = tol
 
     def __call__(self, x: NDArray) -> NDArray:
-        x = x.reshape(self.k, self.n)
+        x = x.reshape(self.k, self.n).copy()
         x12 = np.zeros((self.k, self.k, self.n))
         for _ in range(self.niter):
             xold = x.copy()
-- 
2.43.0


From 4a3ea0f5d1fb6c0a085c1de55055817556f9d0cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:26 +0000
Subject: [PATCH 03/61] fix: Huber.prox switches branch at alpha+tau, as
 required by its definition

---
 pyproximal/proximal/Huber.py | 22 +++++-----------------
 1 file changed, 5 insertions(+), 17 deletions(-)

diff --git a/pyproximal/proximal/Huber.py b/pyproximal/proximal/Huber.py
index 2085c5b..2ab35f4 100644
--- a/pyproximal/proximal/Huber.py
+++ b/pyproximal/proximal/Huber.py
@@ -1,8 +1,6 @@
 import numpy as np
 from pylops.utils.typing import NDArray
 
-from pyproximal.proximal.L1 import L1
-from pyproximal.proximal.L2 import L2
 from pyproximal.ProxOperator import ProxOperator, _check_tau
 
 
@@ -36,8 +34,8 @@ class Huber(ProxOperator):
 
         \prox_{\tau H_\alpha(\cdot)}(\mathbf{x}) =
         \begin{cases}
-        \prox_{\frac{\tau}{2 \alpha} |x_i|^2}(x_i), & |x_i| \leq \alpha \\
-        \prox_{\tau |x_i|}(x_i), & |x_i| > \alpha
+        \prox_{\frac{\tau}{2 \alpha} |x_i|^2}(x_i), & |x_i| \leq \alpha + \tau \\
+        \prox_{\tau |x_i|}(x_i), & |x_i| > \alpha + \tau
         \end{cases}
 
     """
@@ -45,8 +43,6 @@ class Huber(ProxOperator):
     def __init__(self, alpha: float) -> None:
         super().__init__(None, False)
         self.alpha = alpha
-        self.l2 = L2(sigma=1.0 / self.alpha)
-        self.l1 = L1()
 
     def __call__(self, x: NDArray) -> float:
         h = np.zeros_like(x)
@@ -58,17 +54,9 @@ class Huber(ProxOperator):
 
     @_check_tau
     def prox(self, x: NDArray, tau: float) -> NDArray:
-        y = np.zeros_like(x)
-        xabs = np.abs(x)
-        mask = xabs > self.alpha
-        y[~mask] = self.l2.prox(x[~mask], tau)
-        y[mask] = self.l1.prox(x[mask], tau)
-        # alternative from https://math.stackexchange.com/questions/1650411/
-        # proximal-operator-of-the-huber-loss-function... currently commented
-        # as it does not provide the same result
-        # y = (1. - tau / np.maximum(np.abs(x), tau + self.alpha)) * x
-
-        return y
+        # see https://math.stackexchange.com/questions/1650411/
+        # proximal-operator-of-the-huber-loss-function
+        return (1.0 - tau / np.maximum(np.abs(x), tau + self.alpha)) * x
 
 
 class HuberCircular(ProxOperator):
-- 
2.43.0


From da856b4765cc747f47a2ec5edc63355f30a815dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:05 +0000
Subject: [PATCH 04/61] fix: L1BallProj leaves points inside of the ball
 unchanged

---
 pyproximal/projection/L1.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/pyproximal/projection/L1.py b/pyproximal/projection/L1.py
index e6991fd..997a693 100644
--- a/pyproximal/projection/L1.py
+++ b/pyproximal/projection/L1.py
@@ -30,7 +30,11 @@ class L1BallProj:
 
     .. math::
 
-        P_{L1_{r}} (\mathbf{x}) = sign(\mathbf{x}) P_{\operatorname{Simplex}(r)}(\mathbf{x})
+        P_{L1_{r}} (\mathbf{x}) =
+        \begin{cases}
+        \mathbf{x}, & ||\mathbf{x}||_1 \leq r \\
+        sign(\mathbf{x}) P_{\operatorname{Simplex}(r)}(|\mathbf{x}|), & \text{otherwise}
+        \end{cases}
 
     Note that this is the proximal operator of the corresponding
     indicator function :math:`\mathcal{I}_{L1_{r}}`.
@@ -49,6 +53,9 @@ class L1BallProj:
         self.simplex = SimplexProj(n, radius, maxiter, xtol)
 
     def __call__(self, x: NDArray) -> NDArray:
+        if np.sum(np.abs(x)) <= self.radius:
+            # points inside of the ball are their own projection
+            return x.copy()
         if np.iscomplexobj(x):
             return np.exp(1j * np.angle(x)) * self.simplex(np.abs(x))
         else:
-- 
2.43.0


From 805d1a02d83b9184f8976bedaf6aea71698a6a0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:05 +0000
Subject: [PATCH 05/61] fix: L0 and L1,0 ball projections with zero radius
 return the null vector

---
 pyproximal/projection/L0.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyproximal/projection/L0.py b/pyproximal/projection/L0.py
index e470d28..d1c2c5b 100644
--- a/pyproximal/projection/L0.py
+++ b/pyproximal/projection/L0.py
@@ -34,7 +34,7 @@ class L0BallProj:
     def __call__(self, x: NDArray) -> NDArray:
         xshape = x.shape
         xf = x.copy().flatten()
-        xf[np.argsort(np.abs(xf))[: -self.radius]] = 0
+        xf[np.argsort(np.abs(xf))[: max(xf.size - self.radius, 0)]] = 0
         return xf.reshape(xshape)
 
 
@@ -71,7 +71,7 @@ class L10BallProj:
     def __call__(self, x: NDArray) -> NDArray:
         xc = x.copy()
         xf = np.linalg.norm(x, axis=0, ord=1)
-        xc[:, np.argsort(np.abs(xf))[: -self.radius]] = 0
+        xc[:, np.argsort(np.abs(xf))[: max(xf.size - self.radius, 0)]] = 0
         return xc
 
 
-- 
2.43.0


From 18d3869152d504e7680464a341f8639c8454e657 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:05 +0000
Subject: [PATCH 06/61] fix: L10BallProj ranks columns by their L2 norm, giving
 the nearest point of the set

---
 pyproximal/projection/L0.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyproximal/projection/L0.py b/pyproximal/projection/L0.py
index d1c2c5b..a8a564e 100644
--- a/pyproximal/projection/L0.py
+++ b/pyproximal/projection/L0.py
@@ -57,7 +57,7 @@ class L10BallProj:
         ||\mathbf{x}_2||_1, ..., ||\mathbf{x}_1||_1] \ne 0) \leq r \}
 
     its orthogonal projection is computed by finding the :math:`r` highest
-    largest entries of a vector obtained by applying the :math:`L_1` norm to each
+    largest entries of a vector obtained by applying the :math:`L_2` norm to each
     column of a matrix :math:`\mathbf{x}` (in absolute value), keeping those
     and zero-ing all the other entries.
     Note that this is the proximal operator of the corresponding
@@ -70,7 +70,7 @@ class L10BallProj:
 
     def __call__(self, x: NDArray) -> NDArray:
         xc = x.copy()
-        xf = np.linalg.norm(x, axis=0, ord=1)
+        xf = np.linalg.norm(x, axis=0, ord=2)
         xc[:, np.argsort(np.abs(xf))[: max(xf.size - self.radius, 0)]] = 0
         return xc
 
-- 
2.43.0


From 35dd59a0b35280f1986c4762557d5ee9469fb1af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:05 +0000
Subject: [PATCH 07/61] fix: HankelProj keeps the imaginary part of complex
 matrices

---
 pyproximal/projection/Hankel.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/pyproximal/projection/Hankel.py b/pyproximal/projection/Hankel.py
index 1d131d8..0381683 100644
--- a/pyproximal/projection/Hankel.py
+++ b/pyproximal/projection/Hankel.py
@@ -23,7 +23,10 @@ class HankelProj:
     def __call__(self, X: NDArray) -> NDArray:
         m, n = X.shape
         ind = hankel(np.arange(m, dtype=np.int32), m - 1 + np.arange(n, dtype=np.int32))
-        mean_values = np.bincount(ind.ravel(), weights=X.ravel()) / np.bincount(
-            ind.ravel()
-        )
+        sum_values = np.bincount(ind.ravel(), weights=X.real.ravel())
+        if np.iscomplexobj(X):
+            sum_values = sum_values + 1j * np.bincount(
+                ind.ravel(), weights=X.imag.ravel()
+            )
+        mean_values = sum_values / np.bincount(ind.ravel())
         return mean_values[ind]
-- 
2.43.0


From 12ea963278e7b940deadc2095c5d56ec141378f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:50 +0000
Subject: [PATCH 08/61] fix: parallel Dykstra prox no longer modifies the
 weights of the user

---
 pyproximal/proximal/_Dykstra.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyproximal/proximal/_Dykstra.py b/pyproximal/proximal/_Dykstra.py
index 3596435..683b030 100644
--- a/pyproximal/proximal/_Dykstra.py
+++ b/pyproximal/proximal/_Dykstra.py
@@ -104,7 +104,7 @@ def parallel_dykstra_prox(
     m = len(prox_ops)
     z = ncp.stack([x0.copy() for _ in range(m)])
     w = ncp.asarray(weights, dtype=float)
-    w /= w.sum()
+    w = w / w.sum()
 
     for _ in range(niter):
         x_old = x.copy()
-- 
2.43.0


From 4deb5026ff3dd53e6e72e3d3edbd74d9878c2068 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:50 +0000
Subject: [PATCH 09/61] fix: prox and proxdual accept tau as keyword argument

---
 pyproximal/ProxOperator.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyproximal/ProxOperator.py b/pyproximal/ProxOperator.py
index f32d07c..33a3ed7 100644
--- a/pyproximal/ProxOperator.py
+++ b/pyproximal/ProxOperator.py
@@ -19,7 +19,8 @@ def _check_tau(func: Callable[..., NDArray]) -> Callable[..., NDArray]:
     """
 
     def wrapper(*args: Any, **kwargs: Any) -> Any:
-        if np.any(args[2] <= 0):
+        tau = kwargs["tau"] if "tau" in kwargs else args[2]
+        if np.any(tau <= 0):
             msg = "tau must be positive"
             raise ValueError(msg)
         return func(*args, **kwargs)
-- 
2.43.0


From 4844264268d599f590b77e7003b497d8f87466ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:50 +0000
Subject: [PATCH 10/61] fix: operators can be multiplied by integers

---
 pyproximal/ProxOperator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyproximal/ProxOperator.py b/pyproximal/ProxOperator.py
index 33a3ed7..8d44c62 100644
--- a/pyproximal/ProxOperator.py
+++ b/pyproximal/ProxOperator.py
@@ -304,7 +304,7 @@ class ProxOperator:
 
     def __rmul__(self, sigma: Union[float, int, "ProxOperator"]) -> "ProxOperator":
         if isinstance(sigma, (int, float)):
-            return self.postcomposition(sigma)
+            return self.postcomposition(float(sigma))
         else:
             return self.chain(sigma)
 
-- 
2.43.0


From b3e9144de68ede82c1a1102879e8905b6444b152 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:50 +0000
Subject: [PATCH 11/61] fix: L1.proxdual uses the current sigma and is valid
 for complex vectors

---
 pyproximal/proximal/L1.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/pyproximal/proximal/L1.py b/pyproximal/proximal/L1.py
index 42129ae..f0081fd 100644
--- a/pyproximal/proximal/L1.py
+++ b/pyproximal/proximal/L1.py
@@ -113,10 +113,6 @@ class L1(ProxOperator):
         self.sigma = sigma
         self.g = g
         self.gdual = 0 if g is None else g
-        if not callable(sigma):
-            self.box = BoxProj(-sigma, sigma)
-        else:
-            self.box = BoxProj(-sigma(0), sigma(0))
         self.count = 0
 
     def __call__(self, x: NDArray) -> float:
@@ -148,7 +144,11 @@ class L1(ProxOperator):
     @_check_tau
     def proxdual(self, x: NDArray, tau: float) -> NDArray:
         if not isinstance(self.gdual, np.ndarray):
-            x = self.box(x)
+            sigma = _current_sigma(self.sigma, self.count)
+            if np.iscomplexobj(x):
+                x = x - _softthreshold(x, sigma)
+            else:
+                x = BoxProj(-sigma, sigma)(x)
         else:
             x = self._proxdual_moreau(x, tau)
         return x
-- 
2.43.0


From b6e13678ea6e2db9ef8eb222f1262ac04d9ddd77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:50 +0000
Subject: [PATCH 12/61] fix: L21 value, prox and dual prox of complex vectors

---
 pyproximal/proximal/L21.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pyproximal/proximal/L21.py b/pyproximal/proximal/L21.py
index bf59462..5cf2f17 100644
--- a/pyproximal/proximal/L21.py
+++ b/pyproximal/proximal/L21.py
@@ -65,13 +65,13 @@ class L21(ProxOperator):
 
     def __call__(self, x: NDArray) -> float:
         x = x.reshape(self.ndim, len(x) // self.ndim)
-        f = self.sigma * np.sum(np.sqrt(np.sum(x**2, axis=0)))
+        f = self.sigma * np.sum(np.sqrt(np.sum(np.abs(x) ** 2, axis=0)))
         return float(f)
 
     @_check_tau
     def prox(self, x: NDArray, tau: float) -> NDArray:
         x = x.reshape(self.ndim, len(x) // self.ndim)
-        aux = np.sqrt(np.sum(x**2, axis=0))
+        aux = np.sqrt(np.sum(np.abs(x) ** 2, axis=0))
         aux = np.vstack([aux] * self.ndim).ravel()
         x = (1 - (tau * self.sigma) / np.maximum(aux, tau * self.sigma)) * x.ravel()
         return x
@@ -79,7 +79,7 @@ class L21(ProxOperator):
     @_check_tau
     def proxdual(self, x: NDArray, tau: float) -> NDArray:
         x = x.reshape(self.ndim, len(x) // self.ndim)
-        aux = np.sqrt(np.sum(x**2, axis=0))
+        aux = np.sqrt(np.sum(np.abs(x) ** 2, axis=0))
         aux = np.vstack([aux] * self.ndim).ravel()
         x = self.sigma * x.ravel() / np.maximum(aux, self.sigma)
         return x
-- 
2.43.0


From c74a35744dcd79057bb9c56ee15b560e7992176a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:50 +0000
Subject: [PATCH 13/61] fix: L21_plus_L1 value of complex arrays, prox with
 rho=1 and any axis

---
 pyproximal/proximal/L21_plus_L1.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/pyproximal/proximal/L21_plus_L1.py b/pyproximal/proximal/L21_plus_L1.py
index 10dcbd4..7852b2c 100644
--- a/pyproximal/proximal/L21_plus_L1.py
+++ b/pyproximal/proximal/L21_plus_L1.py
@@ -38,7 +38,7 @@ class L21_plus_L1(ProxOperator):
     def __call__(self, x: NDArray) -> float:
         return float(
             self.rho * self.sigma * np.sum(np.abs(x))
-            + (1 - self.rho) * self.sigma * np.sum(np.sqrt(np.sum(x**2, axis=0)))
+            + (1 - self.rho) * self.sigma * np.sum(np.sqrt(np.sum(np.abs(x) ** 2, axis=0)))
         )
 
     @_check_tau
@@ -46,9 +46,10 @@ class L21_plus_L1(ProxOperator):
         thresh = self.sigma * tau
         l1 = np.maximum(np.abs(x) - thresh * self.rho, 0)
         # Axis defines what dimension to perform grouping over
-        aux_l21 = np.sqrt(
-            np.sum(np.maximum(np.abs(x) - thresh * self.rho, 0) ** 2, axis=axis)
-        )
+        aux_l21 = np.sqrt(np.sum(l1**2, axis=axis, keepdims=True))
+        aux_l21[aux_l21 == 0] = 1.0  # l1 is also zero for these groups
         l21 = np.maximum(1 - thresh * (1 - self.rho) / aux_l21, 0)
-        x = np.nan_to_num(x / np.abs(x)) * l1 * l21
+        absx = np.abs(x)
+        absx[absx == 0] = 1.0
+        x = x / absx * l1 * l21
         return x
-- 
2.43.0


From 1fa2a93ffdbe33bdca5a84c17e432609df676b3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:42 +0000
Subject: [PATCH 14/61] fix: QuadraticEnvelopeCardIndicator can be evaluated
 with r0=1

---
 pyproximal/proximal/QuadraticEnvelope.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyproximal/proximal/QuadraticEnvelope.py b/pyproximal/proximal/QuadraticEnvelope.py
index a07ee16..3c35657 100644
--- a/pyproximal/proximal/QuadraticEnvelope.py
+++ b/pyproximal/proximal/QuadraticEnvelope.py
@@ -174,8 +174,8 @@ class QuadraticEnvelopeCardIndicator(ProxOperator):
         sums = np.cumsum(xs[::-1])
         sums = sums[-self.r0 :] / np.arange(1, self.r0 + 1)
         tmp = np.diff(sums) > 0
-        k_star = int(np.argmax(tmp))
-        if k_star == 0 and not tmp[k_star]:
+        k_star = int(np.argmax(tmp)) if tmp.size > 0 else 0
+        if k_star == 0 and not np.any(tmp):
             k_star = self.r0 - 1
         return float(
             0.5
-- 
2.43.0


From f1021d1534a6c2b46d1fe60b7263b3309e764607 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:42 +0000
Subject: [PATCH 15/61] fix: QuadraticEnvelopeCardIndicator.prox with tau>=1
 keeps the r0 largest elements

---
 pyproximal/proximal/QuadraticEnvelope.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/pyproximal/proximal/QuadraticEnvelope.py b/pyproximal/proximal/QuadraticEnvelope.py
index 3c35657..0d01dfc 100644
--- a/pyproximal/proximal/QuadraticEnvelope.py
+++ b/pyproximal/proximal/QuadraticEnvelope.py
@@ -1,5 +1,4 @@
 import numpy as np
-from pylops.optimization.cls_sparsity import _hardthreshold
 from pylops.utils.typing import IntNDArray, NDArray, ShapeLike
 
 from pyproximal.ProxOperator import ProxOperator, _check_tau
@@ -188,10 +187,13 @@ class QuadraticEnvelopeCardIndicator(ProxOperator):
     @_check_tau
     def prox(self, y: NDArray, tau: float) -> NDArray:
         rho = 1 / tau
-        if rho <= 1:
-            return _hardthreshold(y, tau)
         if y.size <= self.r0:
             return y
+        if rho <= 1:
+            # minimizers belong to the set of vectors with up to r0 non-zeros
+            x = y.copy()
+            x[np.argsort(np.abs(y))[: y.size - self.r0]] = 0
+            return x
 
         r = np.abs(y)
         theta = np.sign(y)
-- 
2.43.0


From 2e6f57131f04163e2d54ceae74b2f1860e58d380 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:42 +0000
Subject: [PATCH 16/61] fix: Nuclear and SingularValuePenalty values of complex
 and non-square matrices

---
 pyproximal/proximal/Nuclear.py              | 10 +++++++---
 pyproximal/proximal/SingularValuePenalty.py |  5 ++---
 2 files changed, 9 insertions(+), 6 deletions(-)

diff --git a/pyproximal/proximal/Nuclear.py b/pyproximal/proximal/Nuclear.py
index 149c5c0..3fcade9 100644
--- a/pyproximal/proximal/Nuclear.py
+++ b/pyproximal/proximal/Nuclear.py
@@ -62,9 +62,13 @@ class Nuclear(ProxOperator):
 
     def __call__(self, x: NDArray) -> float:
         X = x.reshape(self.dim)
-        eigs = np.linalg.eigvalsh(X.T @ X)
-        eigs[eigs < 0] = 0  # ensure all eigenvalues at positive
-        return float(np.sum(np.flip(self.sigma) * np.sqrt(eigs)))
+        S = np.linalg.svd(X, compute_uv=False)
+        sigma = (
+            self.sigma[: S.size]
+            if isinstance(self.sigma, np.ndarray) and self.sigma.size > 1
+            else self.sigma
+        )
+        return float(np.sum(sigma * S))
 
     @_check_tau
     def prox(self, x: NDArray, tau: float) -> NDArray:
diff --git a/pyproximal/proximal/SingularValuePenalty.py b/pyproximal/proximal/SingularValuePenalty.py
index 9019327..6ec0a03 100644
--- a/pyproximal/proximal/SingularValuePenalty.py
+++ b/pyproximal/proximal/SingularValuePenalty.py
@@ -47,9 +47,8 @@ class SingularValuePenalty(ProxOperator):
 
     def __call__(self, x: NDArray) -> float:
         X = x.reshape(self.dim)
-        eigs = np.linalg.eigvalsh(X.T @ X)
-        eigs[eigs < 0] = 0  # ensure all eigenvalues at positive
-        return float(np.sum(self.penalty(np.sqrt(eigs))))
+        S = np.linalg.svd(X, compute_uv=False)
+        return float(np.sum(self.penalty(S)))
 
     @_check_tau
     def prox(self, x: NDArray, tau: float) -> NDArray:
-- 
2.43.0


From b91d7ff186b76559b33a9699082d6a71da6782d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:39 +0000
Subject: [PATCH 17/61] fix: QuadraticEnvelopeRankL2.prox no longer runs past
 the last singular value

---
 pyproximal/proximal/QuadraticEnvelope.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyproximal/proximal/QuadraticEnvelope.py b/pyproximal/proximal/QuadraticEnvelope.py
index 0d01dfc..feb4a4c 100644
--- a/pyproximal/proximal/QuadraticEnvelope.py
+++ b/pyproximal/proximal/QuadraticEnvelope.py
@@ -301,7 +301,7 @@ class QuadraticEnvelopeRankL2(ProxOperator):
         n = yk.size
         r = np.concatenate((yk[: self.r0], (1 + rho) * yk[self.r0 :]))
         ind = np.argsort(r, kind="quicksort")
-        p = r[ind]
+        p = np.append(r[ind], np.inf)
 
         a = (n - self.r0) / rho
         b = (rho + 1) / rho * np.sum(yk[self.r0 :])
-- 
2.43.0


From 444a4c07dedfe6c382bf1a217403b9d8e724c4e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:39 +0000
Subject: [PATCH 18/61] fix: Log1.prox for delta above the threshold and for
 complex vectors

---
 pyproximal/proximal/Log.py | 30 +++++++++---------------------
 1 file changed, 9 insertions(+), 21 deletions(-)

diff --git a/pyproximal/proximal/Log.py b/pyproximal/proximal/Log.py
index 5a9d10b..3cb3571 100644
--- a/pyproximal/proximal/Log.py
+++ b/pyproximal/proximal/Log.py
@@ -164,27 +164,15 @@ class Log1(ProxOperator):
         tau1 = self.sigma * tau
         thresh = np.sqrt(2 * tau1) - self.delta
         x1 = np.zeros_like(x, dtype=x.dtype)
+        absx = np.abs(x)
+        idx = absx > max(thresh, 0.0)
+        absx = absx[idx]
+        x1[idx] = np.maximum(
+            0.5 * (absx - self.delta + np.sqrt((absx + self.delta) ** 2 - 2 * tau1)),
+            0.0,
+        )
         if np.iscomplexobj(x):
-            x1[np.abs(x) > thresh] = (
-                0.5
-                * np.exp(1j * np.angle(x[np.abs(x) > thresh]))
-                * (
-                    np.abs(x[np.abs(x) > thresh])
-                    - self.delta
-                    + np.sqrt(
-                        np.abs(x[np.abs(x) > thresh] + self.delta) ** 2 - 2 * tau1
-                    )
-                )
-            )
+            x1[idx] *= np.exp(1j * np.angle(x[idx]))
         else:
-            x1[x > thresh] = 0.5 * (
-                x[x > thresh]
-                - self.delta
-                + np.sqrt(np.abs(x[x > thresh] + self.delta) ** 2 - 2 * tau1)
-            )
-            x1[x < -thresh] = 0.5 * (
-                x[x < -thresh]
-                + self.delta
-                - np.sqrt(np.abs(x[x < -thresh] - self.delta) ** 2 - 2 * tau1)
-            )
+            x1[idx] *= np.sign(x[idx])
         return x1
-- 
2.43.0


From 5cf457256aca68e01af0b9a1f08915ae0505a4b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:46 +0000
Subject: [PATCH 19/61] fix: evaluating Orthogonal no longer modifies its input
 when Q returns it as is

---
 pyproximal/proximal/Orthogonal.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/pyproximal/proximal/Orthogonal.py b/pyproximal/proximal/Orthogonal.py
index b284d5c..d770612 100644
--- a/pyproximal/proximal/Orthogonal.py
+++ b/pyproximal/proximal/Orthogonal.py
@@ -76,8 +76,7 @@ class Orthogonal(ProxOperator):
         self.b = b if b is not None else 0.0
 
     def __call__(self, x: NDArray) -> bool | float | int:
-        y = self.Q.matvec(x)
-        y += self.b
+        y = self.Q.matvec(x) + self.b
         f = self.f(y)
         return f
 
-- 
2.43.0


From 3cdf4a222fc7b1b98ef59b1e9bf08756379b44b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:46 +0000
Subject: [PATCH 20/61] fix: SCAD value of complex vectors

---
 pyproximal/proximal/SCAD.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyproximal/proximal/SCAD.py b/pyproximal/proximal/SCAD.py
index 9e7ef77..19e2b0f 100644
--- a/pyproximal/proximal/SCAD.py
+++ b/pyproximal/proximal/SCAD.py
@@ -64,13 +64,13 @@ class SCAD(ProxOperator):
         return float(np.sum(self.elementwise(x)))
 
     def elementwise(self, x: NDArray) -> NDArray:
-        f = np.zeros_like(x)
         absx = np.abs(x)
+        f = np.zeros_like(absx)
         ind = absx <= self.sigma
         f[ind] = self.sigma * absx[ind]
         ind = np.logical_and(self.sigma < absx, absx <= self.a * self.sigma)
         f[ind] = (
-            -(x[ind] ** 2) + 2 * self.a * self.sigma * absx[ind] - self.sigma**2
+            -(absx[ind] ** 2) + 2 * self.a * self.sigma * absx[ind] - self.sigma**2
         ) / (2 * (self.a - 1))
         ind = absx > self.a * self.sigma
         f[ind] = (self.a + 1) * self.sigma**2 / 2
-- 
2.43.0


From 31eaf28deb1cf9ff6601a9ef5bf7c0eda8f7b70a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:46 +0000
Subject: [PATCH 21/61] fix: ETP.prox of complex vectors

---
 pyproximal/proximal/ETP.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyproximal/proximal/ETP.py b/pyproximal/proximal/ETP.py
index 8643114..2ffb348 100644
--- a/pyproximal/proximal/ETP.py
+++ b/pyproximal/proximal/ETP.py
@@ -83,8 +83,8 @@ class ETP(ProxOperator):
 
         # Check which stationary points are global minima
         idx_minima = (
-            tau * self.elementwise(stat_points) + (stat_points - x[idx]) ** 2 / 2
-            < x[idx] ** 2 / 2
+            tau * self.elementwise(stat_points) + np.abs(stat_points - x[idx]) ** 2 / 2
+            < np.abs(x[idx]) ** 2 / 2
         )
         idx[idx] = idx_minima
         out[idx] = stat_points[idx_minima]
-- 
2.43.0


From f2a42f3b831c7c325056880b06dfde2aae31b0f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:46 +0000
Subject: [PATCH 22/61] fix: Quadratic.grad always returns a new array of the
 size of its input

---
 pyproximal/proximal/Quadratic.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyproximal/proximal/Quadratic.py b/pyproximal/proximal/Quadratic.py
index 07ce21d..6631b49 100644
--- a/pyproximal/proximal/Quadratic.py
+++ b/pyproximal/proximal/Quadratic.py
@@ -133,7 +133,7 @@ class Quadratic(ProxOperator):
         if self.Op is not None and self.b is not None:
             g = self.Op.matvec(x) + self.b
         elif self.b is not None:
-            g = self.b
+            g = self.b.copy()
         else:
-            g = 0.0
+            g = np.zeros_like(x)
         return g
-- 
2.43.0


From 6a7bd360d58f0d99e2f96dc5ba1cf6a081f70951 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:46 +0000
Subject: [PATCH 23/61] fix: L2Convolve prox and gradient of real vectors are
 real

---
 pyproximal/proximal/L2.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/pyproximal/proximal/L2.py b/pyproximal/proximal/L2.py
index fa53e5f..6a587df 100644
--- a/pyproximal/proximal/L2.py
+++ b/pyproximal/proximal/L2.py
@@ -381,6 +381,9 @@ class L2Convolve(ProxOperator):
                 for _ in range(ndims - self.dir - 1):
                     self.hf = np.expand_dims(self.hf, axis=-1)
 
+        # real vectors are returned for real inputs if data and filter are real
+        self.isreal = np.isrealobj(b) and np.isrealobj(h)
+
         # precompute terms for prox
         self.hbf = np.conj(self.hf) * self.bf
         self.h2f = np.abs(self.hf) ** 2
@@ -401,6 +404,8 @@ class L2Convolve(ProxOperator):
         xf = np.fft.fft(x, self.nfft, axis=self.dir)
         yf = (xf + self.sigma * tau * self.hbf) / (1.0 + self.sigma * tau * self.h2f)
         y = np.fft.ifft(yf, axis=self.dir)
+        if self.isreal and np.isrealobj(x):
+            y = y.real
         if self.dims is None:
             y = y[: len(x)]
         else:
@@ -415,6 +420,8 @@ class L2Convolve(ProxOperator):
         g = self.sigma * np.fft.ifft(
             np.conj(self.hf) * (self.hf * xf - self.bf), axis=self.dir
         )
+        if self.isreal and np.isrealobj(x):
+            g = g.real
         g = np.take(g, range(x.shape[self.dir]), axis=self.dir).ravel()
 
         return g
-- 
2.43.0


From 6b121c8fce48115049fa0de1c5f3154a6d93d999 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:33 +0000
Subject: [PATCH 24/61] fix: TV can be used with dims=None

---
 pyproximal/proximal/TV.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pyproximal/proximal/TV.py b/pyproximal/proximal/TV.py
index 2fd6035..df8d1a2 100644
--- a/pyproximal/proximal/TV.py
+++ b/pyproximal/proximal/TV.py
@@ -48,7 +48,7 @@ class TV(ProxOperator):
         **kwargs: Any,
     ) -> None:
         super().__init__(None, True)
-        self.dims = (0,) if dims is None else dims
+        self.dims = (-1,) if dims is None else dims
         self.ndim = 1 if dims is None else len(dims)
         self.sigma = sigma
         self.niter = niter
@@ -60,7 +60,7 @@ class TV(ProxOperator):
         x = x.reshape(self.dims)
         if self.ndim == 1:
             derivOp = FirstDerivative(
-                dims=self.dims[0], axis=0, edge=False, dtype=x.dtype, kind="forward"
+                dims=x.shape[0], axis=0, edge=False, dtype=x.dtype, kind="forward"
             )
             dx = derivOp @ x
             y = np.sum(np.abs(dx), axis=0)
@@ -101,7 +101,7 @@ class TV(ProxOperator):
         sol = x
         if self.ndim == 1:
             derivOp = FirstDerivative(
-                dims=self.dims[0], axis=0, edge=False, dtype=x.dtype, kind="forward"
+                dims=x.shape[0], axis=0, edge=False, dtype=x.dtype, kind="forward"
             )
         else:
             gradOp = Gradient(x.shape, edge=False, dtype=x.dtype, kind="forward")
-- 
2.43.0


From 493278848660606708e0a7f64eac3ea666af9e63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:33 +0000
Subject: [PATCH 25/61] fix: Segment uses admissible steps for images with more
 than 2 dimensions

---
 pyproximal/optimization/segmentation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyproximal/optimization/segmentation.py b/pyproximal/optimization/segmentation.py
index 5063220..5b7cae6 100644
--- a/pyproximal/optimization/segmentation.py
+++ b/pyproximal/optimization/segmentation.py
@@ -116,7 +116,7 @@ def Segment(
     )
 
     # Steps
-    L = 8.0 / sampling**2
+    L = 4.0 * ndims / sampling**2
     tau = 1.0
     mu = 1.0 / (tau * L)
 
-- 
2.43.0


From b822945d1b00bfe7b59cae26e52c7532eef289b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:30 +0000
Subject: [PATCH 26/61] fix: ProximalGradient applies the documented relaxation
 with acceleration and backtracking

---
 pyproximal/optimization/primal.py | 14 ++++----------
 1 file changed, 4 insertions(+), 10 deletions(-)

diff --git a/pyproximal/optimization/primal.py b/pyproximal/optimization/primal.py
index fad1fe7..062e322 100644
--- a/pyproximal/optimization/primal.py
+++ b/pyproximal/optimization/primal.py
@@ -376,20 +376,14 @@ def ProximalGradient(
 
         # proximal step
         if not backtracking:
-            if eta == 1.0:
-                x = proxg.prox(y - tau * proxf.grad(y), epsg[iiter] * tau)
-            else:
-                x = x + eta * (
-                    proxg.prox(x - tau * proxf.grad(x), epsg[iiter] * tau) - x
-                )
+            x = proxg.prox(y - tau * proxf.grad(y), epsg[iiter] * tau)
         else:
             x, tau = _backtracking(
                 y, tau, proxf, proxg, epsg[iiter], beta=beta, niterback=niterback
             )
-            if eta != 1.0:
-                x = x + eta * (
-                    proxg.prox(x - tau * proxf.grad(x), epsg[iiter] * tau) - x
-                )
+        # relaxation
+        if eta != 1.0:
+            x = y + eta * (x - y)
 
         # update internal parameters for bilinear operator
         if isinstance(proxf, BilinearOperator):
-- 
2.43.0


From 486629d9bb21bea7901c852889878fc43042b108 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:30 +0000
Subject: [PATCH 27/61] fix: backtracking of ProximalGradient with complex or
 multi-dimensional models

---
 pyproximal/optimization/primal.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pyproximal/optimization/primal.py b/pyproximal/optimization/primal.py
index 062e322..e2b3de5 100644
--- a/pyproximal/optimization/primal.py
+++ b/pyproximal/optimization/primal.py
@@ -37,7 +37,9 @@ def _backtracking(
     def ftilde(x: NDArray, y: NDArray, f: ProxOperator, tau: float) -> float:
         xy = x - y
         return float(
-            f(y) + np.dot(f.grad(y), xy) + (1.0 / (2.0 * tau)) * np.linalg.norm(xy) ** 2
+            f(y)
+            + np.real(np.vdot(f.grad(y), xy))
+            + (1.0 / (2.0 * tau)) * np.linalg.norm(xy) ** 2
         )
 
     iiterback = 0
-- 
2.43.0


From d01c185ba40414fe42490418e459e43687fc2c05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:30 +0000
Subject: [PATCH 28/61] fix: AndersonProximalGradient history, regularization
 and safeguard

---
 pyproximal/optimization/primal.py | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/pyproximal/optimization/primal.py b/pyproximal/optimization/primal.py
index e2b3de5..94a310e 100644
--- a/pyproximal/optimization/primal.py
+++ b/pyproximal/optimization/primal.py
@@ -622,13 +622,12 @@ def AndersonProximalGradient(
     r = g - x0
     R, G = (
         [
-            g,
+            r,
         ],
         [
-            r,
+            g,
         ],
     )
-    pf = proxf(x)
     pfg = np.inf
     tolbreak = False
 
@@ -647,7 +646,10 @@ def AndersonProximalGradient(
 
         # solve for alpha coefficients
         Rstack = np.vstack(R)
-        Rinv = np.linalg.pinv(Rstack @ Rstack.T + epsr * np.linalg.norm(Rstack) ** 2)
+        Rinv = np.linalg.pinv(
+            Rstack @ Rstack.T
+            + epsr * np.linalg.norm(Rstack) ** 2 * np.eye(Rstack.shape[0])
+        )
         ones = np.ones(min(nhistory, iiter + 2))
         Rinvones = Rinv @ ones
         alpha = Rinvones / (ones[None] @ Rinvones)
@@ -667,8 +669,10 @@ def AndersonProximalGradient(
             xtest = proxg.prox(ytest, epsg[iiter] * tau)
 
             # check if function is decreased, otherwise do basic PG step
-            pfold, pf = pf, proxf(xtest)
-            if pf <= pfold - tau * np.linalg.norm(proxf.grad(x)) ** 2 / 2:
+            if (
+                proxf(xtest)
+                <= proxf(x) - tau * np.linalg.norm(proxf.grad(x)) ** 2 / 2
+            ):
                 y = ytest
                 x = xtest
             else:
-- 
2.43.0


From 041ba828fa4ddc04d80f0a6f7a342f3f5401ecf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:30 +0000
Subject: [PATCH 29/61] fix: GeneralizedProximalGradient accepts weights
 summing to one up to round-off

---
 pyproximal/optimization/primal.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyproximal/optimization/primal.py b/pyproximal/optimization/primal.py
index 94a310e..81ae2cd 100644
--- a/pyproximal/optimization/primal.py
+++ b/pyproximal/optimization/primal.py
@@ -805,7 +805,7 @@ def GeneralizedProximalGradient(
     # check if weights sum to 1
     if weights is None:
         weights = np.ones(len(proxgs)) / len(proxgs)
-    if len(weights) != len(proxgs) or np.sum(weights) != 1.0:
+    if len(weights) != len(proxgs) or not np.isclose(np.sum(weights), 1.0):
         msg = f"omega={weights} must be an array of size {len(proxgs)} summing to 1"
         raise ValueError(msg)
 
-- 
2.43.0


From 6c0f199b3edb66f51d68e790e2c55b043f660af8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:00 +0000
Subject: [PATCH 30/61] fix: show progress of solvers with vector steps or
 complex models

---
 pyproximal/optimization/primal.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/pyproximal/optimization/primal.py b/pyproximal/optimization/primal.py
index 81ae2cd..c31660c 100644
--- a/pyproximal/optimization/primal.py
+++ b/pyproximal/optimization/primal.py
@@ -195,7 +195,11 @@ def ProximalPoint(
             if iiter < 10 or niter - iiter < 10 or iiter % (niter // 10) == 0:
                 if tol is None:
                     pf = prox(x)
-                msg = "%6g  %12.5e  %10.3e" % (iiter + 1, x[0], pf)
+                msg = "%6g  %12.5e  %10.3e" % (
+                    iiter + 1,
+                    np.real(to_numpy(x[0])),
+                    pf,
+                )
                 print(msg)
 
         # break if tolerance condition is met
@@ -431,7 +435,7 @@ def ProximalGradient(
                     pf,
                     pg,
                     pfg,
-                    tau,
+                    np.max(to_numpy(tau)),
                 )
                 print(msg)
 
@@ -708,7 +712,7 @@ def AndersonProximalGradient(
                     pf,
                     pg,
                     pfg,
-                    tau,
+                    np.max(to_numpy(tau)),
                 )
                 print(msg)
 
-- 
2.43.0


From 6dee7f8f29982cc910e0a96bb95fd3402826015c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:52 +0000
Subject: [PATCH 31/61] fix: ADMML2 with gfirst=True updates u with the current
 x

---
 pyproximal/optimization/primal.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pyproximal/optimization/primal.py b/pyproximal/optimization/primal.py
index c31660c..ec32610 100644
--- a/pyproximal/optimization/primal.py
+++ b/pyproximal/optimization/primal.py
@@ -1340,6 +1340,7 @@ def ADMML2(
                 ],
                 **kwargs_solver,
             )[0]
+            Ax = A @ x
         else:
             # solve augumented system
             x = regularized_inversion(
-- 
2.43.0


From 7ab76873bc6cc23e2bef849bdd2f4c5370d48db8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:52 +0000
Subject: [PATCH 32/61] fix: LinearizedADMM uses Ax0 in the first iteration
 when z0 is provided

---
 pyproximal/optimization/primal.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyproximal/optimization/primal.py b/pyproximal/optimization/primal.py
index ec32610..576aafd 100644
--- a/pyproximal/optimization/primal.py
+++ b/pyproximal/optimization/primal.py
@@ -1472,7 +1472,7 @@ def LinearizedADMM(
     """
     # initialize variables
     x, z = _x0z0_init(x0, z0, A, Opname="A")
-    Ax = A.matvec(x) if z0 is None else z
+    Ax = A.matvec(x)
     ncp = get_array_module(x)
     u = ncp.zeros_like(z)
 
-- 
2.43.0


From 31fd25399cf8226110ae75cd5b5b8c3698246613 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:52 +0000
Subject: [PATCH 33/61] fix: PPXA starts from the weighted average of the
 initial vectors

---
 pyproximal/optimization/primal.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyproximal/optimization/primal.py b/pyproximal/optimization/primal.py
index 576aafd..e22f651 100644
--- a/pyproximal/optimization/primal.py
+++ b/pyproximal/optimization/primal.py
@@ -1945,7 +1945,7 @@ def PPXA(  # pylint: disable=invalid-name
     else:
         y = ncp.full((m, x0.size), x0)  # y1_0 = y2_0 = ... = ym_0 = x0
 
-    x = ncp.mean(y, axis=0)
+    x = ncp.sum(w[:, None] * y, axis=0)
     x_old = x.copy()
 
     # iterate
-- 
2.43.0


From 1ebce573fcad9b7460ca946834d5596b668ca98b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:52 +0000
Subject: [PATCH 34/61] fix: PPXA and ConsensusADMM accept tol=None

---
 pyproximal/optimization/primal.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pyproximal/optimization/primal.py b/pyproximal/optimization/primal.py
index e22f651..dbdc10b 100644
--- a/pyproximal/optimization/primal.py
+++ b/pyproximal/optimization/primal.py
@@ -1859,7 +1859,7 @@ def PPXA(  # pylint: disable=invalid-name
         Number of iterations of iterative scheme.
     tol : :obj:`float`, optional
         Tolerance on change of the solution (used as stopping criterion).
-        If ``tol=0``, run until ``niter`` is reached.
+        If ``tol=0`` or ``tol=None``, run until ``niter`` is reached.
     callback : :obj:`callable`, optional
         Function with signature (``callback(x)``) to call after each iteration
         where ``x`` is the current model vector
@@ -1966,7 +1966,7 @@ def PPXA(  # pylint: disable=invalid-name
                 print(f"{iiter + 1:6d}  {ncp.real(to_numpy(x[0])):12.5e}  {pf:10.3e}")
 
         # break if tolerance condition is met
-        if ncp.abs(x - x_old).max() < tol:
+        if tol is not None and ncp.abs(x - x_old).max() < tol:
             break
 
         x_old = x
@@ -2012,7 +2012,7 @@ def ConsensusADMM(  # pylint: disable=invalid-name
         Number of iterations of iterative scheme.
     tol : :obj:`float`, optional
         Tolerance on change of the solution (used as stopping criterion).
-        If ``tol=0``, run until ``niter`` is reached.
+        If ``tol=0`` or ``tol=None``, run until ``niter`` is reached.
     callback : :obj:`callable`, optional
         Function with signature (``callback(x)``) to call after each iteration
         where ``x`` is the current model vector
@@ -2100,7 +2100,7 @@ def ConsensusADMM(  # pylint: disable=invalid-name
                 )
 
         # break if tolerance condition is met
-        if ncp.abs(x_bar - x_bar_old).max() < tol:
+        if tol is not None and ncp.abs(x_bar - x_bar_old).max() < tol:
             break
 
         x_bar_old = x_bar
-- 
2.43.0


From 63797205d113e0da3fd376573317999e24514661 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:52 +0000
Subject: [PATCH 35/61] fix: TwIST estimates alpha and beta from the
 eigenvalues of A^H A

---
 pyproximal/optimization/primal.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/pyproximal/optimization/primal.py b/pyproximal/optimization/primal.py
index dbdc10b..bd3d9c9 100644
--- a/pyproximal/optimization/primal.py
+++ b/pyproximal/optimization/primal.py
@@ -1618,14 +1618,18 @@ def TwIST(
     # find alpha and beta
     if alpha is None or beta is None:
         if eigs is None:
-            emin = A.eigs(neigs=1, which="SM")
-            emax = max([1, A.eigs(neigs=1, which="LM")])
+            AHA = A.H * A
+            emin = max(0.0, AHA.eigs(neigs=1, symmetric=True, which="SA")[0])
+            emax = AHA.eigs(neigs=1, symmetric=True, which="LA")[0]
         else:
             emax, emin = eigs
+        emax = max(1.0, emax)
         k = emin / emax
         rho = (1 - sqrt(k)) / (1 + sqrt(k))
-        alpha = 1 + rho**2
-        beta = 2 * alpha / (emax + emin)
+        if alpha is None:
+            alpha = 1 + rho**2
+        if beta is None:
+            beta = 2 * alpha / (emax + emin)
 
     # compute proximal of g on initial guess (x_1)
     xold = x0.copy()
-- 
2.43.0


From c45539fb96872c3b9e2c0aa2f81f36f9a80c2fbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:52 +0000
Subject: [PATCH 36/61] fix: PrimalDual with complex vectors

---
 pyproximal/optimization/primaldual.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pyproximal/optimization/primaldual.py b/pyproximal/optimization/primaldual.py
index d98491b..93509aa 100644
--- a/pyproximal/optimization/primaldual.py
+++ b/pyproximal/optimization/primaldual.py
@@ -138,10 +138,10 @@ def PrimalDual(
     # check if tau and mu are scalars or arrays
     fixedtau = fixedmu = False
     if isinstance(tau, (int, float)):
-        tau = tau * ncp.ones(niter, dtype=x0.dtype)
+        tau = tau * ncp.ones(niter, dtype=x0.real.dtype)
         fixedtau = True
     if isinstance(mu, (int, float)):
-        mu = mu * ncp.ones(niter, dtype=x0.dtype)
+        mu = mu * ncp.ones(niter, dtype=x0.real.dtype)
         fixedmu = True
 
     if show:
@@ -202,7 +202,7 @@ def PrimalDual(
                 pf, pg = proxf(x), proxg(A.matvec(x))
                 pf = 0.0 if isinstance(pf, bool) else pf
                 pg = 0.0 if isinstance(pg, bool) else pg
-                zx = 0.0 if z is None else np.dot(z, x)
+                zx = 0.0 if z is None else float(np.real(np.vdot(z, x)))
                 msg = "%6g  %12.5e  %10.3e  %10.3e  %10.3e      %10.3e" % (
                     iiter + 1,
                     np.real(to_numpy(x[0])),
@@ -402,7 +402,7 @@ def AdaptivePrimalDual(
                 pf, pg = proxf(x), proxg(A.matvec(x))
                 pf = 0.0 if isinstance(pf, bool) else pf
                 pg = 0.0 if isinstance(pg, bool) else pg
-                zx = 0.0 if z is None else np.dot(z, x)
+                zx = 0.0 if z is None else float(np.real(np.vdot(z, x)))
                 msg = "%6g  %12.5e  %10.3e  %10.3e  %10.3e      %10.3e" % (
                     iiter + 1,
                     np.real(to_numpy(x[0])),
-- 
2.43.0


From e28726649f0079fffef529f9a27b962ed0d7bc94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:52 +0000
Subject: [PATCH 37/61] fix: primal-dual solvers no longer add z to the dual
 variable when A returns its input

---
 pyproximal/optimization/primaldual.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pyproximal/optimization/primaldual.py b/pyproximal/optimization/primaldual.py
index 93509aa..2d2add9 100644
--- a/pyproximal/optimization/primaldual.py
+++ b/pyproximal/optimization/primaldual.py
@@ -180,13 +180,13 @@ def PrimalDual(
             y = proxg.proxdual(y + mu[iiter] * A.matvec(xhat), mu[iiter])
             ATy = A.rmatvec(y)
             if z is not None:
-                ATy += z
+                ATy = ATy + z
             x = proxf.prox(x - tau[iiter] * ATy, tau[iiter])
             xhat = x + theta * (x - xold)
         else:
             ATy = A.rmatvec(y)
             if z is not None:
-                ATy += z
+                ATy = ATy + z
             x = proxf.prox(x - tau[iiter] * ATy, tau[iiter])
             xhat = x + theta * (x - xold)
             y = proxg.proxdual(y + mu[iiter] * A.matvec(xhat), mu[iiter])
@@ -360,7 +360,7 @@ def AdaptivePrimalDual(
 
         # proxf
         if z is not None:
-            ATy += z
+            ATy = ATy + z
         x = proxf.prox(x - tau * ATy, tau)
         Ax = A.matvec(x)
         Axhat = 2 * Ax - Axold
-- 
2.43.0


From 9cd83d29a7ce1b76ebdc243f678042c1dec9274f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:52 +0000
Subject: [PATCH 38/61] fix: AdaptivePrimalDual primal residual with additional
 vector z

---
 pyproximal/optimization/primaldual.py | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/pyproximal/optimization/primaldual.py b/pyproximal/optimization/primaldual.py
index 2d2add9..622faa5 100644
--- a/pyproximal/optimization/primaldual.py
+++ b/pyproximal/optimization/primaldual.py
@@ -370,12 +370,7 @@ def AdaptivePrimalDual(
         ATy = A.rmatvec(y)
 
         # update steps
-        if z is not None:
-            p = float(
-                np.linalg.norm((xold - x) / tau - (ATyold - ATy) - A.rmatvec(z) + z)
-            )
-        else:
-            p = float(np.linalg.norm((xold - x) / tau - (ATyold - ATy)))
+        p = float(np.linalg.norm((xold - x) / tau - (ATyold - ATy)))
         d = float(np.linalg.norm((yold - y) / mu - (Axold - Ax)))
 
         if p > s * d * delta:
-- 
2.43.0


From 6f78c66492544cb4844fac723f227be905dba995 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:52 +0000
Subject: [PATCH 39/61] fix: AdaptivePrimalDual starts from the forward of the
 initial guess

---
 pyproximal/optimization/primaldual.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyproximal/optimization/primaldual.py b/pyproximal/optimization/primaldual.py
index 622faa5..f2787f0 100644
--- a/pyproximal/optimization/primaldual.py
+++ b/pyproximal/optimization/primaldual.py
@@ -342,7 +342,7 @@ def AdaptivePrimalDual(
     # initialization
     x = x0.copy()
     y = np.zeros(A.shape[0], dtype=x.dtype)
-    Ax = np.zeros(A.shape[0], dtype=x.dtype)
+    Ax = A.matvec(x)
     ATy = np.zeros(A.shape[1], dtype=x.dtype)
     taus = np.zeros(niter + 1)
     mus = np.zeros(niter + 1)
-- 
2.43.0


From 3ed45e5e6b32e80c55eb3bb62314d3031208805b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:52 +0000
Subject: [PATCH 40/61] fix: AdaptivePrimalDual stops when both residuals are
 below tolerance

---
 pyproximal/optimization/primaldual.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyproximal/optimization/primaldual.py b/pyproximal/optimization/primaldual.py
index f2787f0..65b7d1f 100644
--- a/pyproximal/optimization/primaldual.py
+++ b/pyproximal/optimization/primaldual.py
@@ -351,7 +351,7 @@ def AdaptivePrimalDual(
     p = d = tol + 1.0
 
     iiter = 0
-    while iiter < niter and p > tol and d > tol:
+    while iiter < niter and (p > tol or d > tol):
         # store old values
         xold = x.copy()
         yold = y.copy()
-- 
2.43.0


From 0c50ada24acc7c7657bd3d843a20b4453b81fb86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:52 +0000
Subject: [PATCH 41/61] fix: PALM and iPALM backtracking of y uses g and its
 own step and starting point

---
 pyproximal/optimization/palm.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pyproximal/optimization/palm.py b/pyproximal/optimization/palm.py
index a8bca32..93a7352 100644
--- a/pyproximal/optimization/palm.py
+++ b/pyproximal/optimization/palm.py
@@ -188,7 +188,7 @@ def PALM(
                 y = proxg.prox(y, 1.0 / dk)
         else:
             y, taug = _backtracking(
-                [x, y], taug, H, proxf, 1, beta=beta, niterback=niterback
+                [x, y], taug, H, proxg, 1, beta=beta, niterback=niterback
             )
         # update y parameter in H function
         H.updatey(y.copy())
@@ -339,7 +339,7 @@ def iPALM(
     if gammaf is None:
         tauf = 1.0
         ck = 0.0
-    if gammaf is None:
+    if gammag is None:
         taug = 1.0
         dk = 0.0
 
@@ -373,7 +373,7 @@ def iPALM(
         else:
             yold = y.copy()
             y, taug = _backtracking(
-                [x, y], taug, H, proxf, 1, beta=beta, niterback=niterback
+                [x, z], taug, H, proxg, 1, beta=beta, niterback=niterback
             )
         # update y parameter in H function
         H.updatey(y.copy())
-- 
2.43.0


From e2cb94dd592ba79c12aa34542c15f82169a2ef47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:52 +0000
Subject: [PATCH 42/61] fix: PALM and iPALM with complex vectors

---
 pyproximal/optimization/palm.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/pyproximal/optimization/palm.py b/pyproximal/optimization/palm.py
index 93a7352..920dbdc 100644
--- a/pyproximal/optimization/palm.py
+++ b/pyproximal/optimization/palm.py
@@ -35,7 +35,9 @@ def _backtracking(
     ) -> float:
         xy = x - y[ix]
         return float(
-            f(*y) + np.dot(g, xy) + (1.0 / (2.0 * tau)) * np.linalg.norm(xy) ** 2
+            f(*y)
+            + np.real(np.vdot(g, xy))
+            + (1.0 / (2.0 * tau)) * np.linalg.norm(xy) ** 2
         )
 
     iiterback = 0
@@ -203,8 +205,8 @@ def PALM(
             if iiter < 10 or niter - iiter < 10 or iiter % (niter // 10) == 0:
                 msg = "%6g  %5.5e  %5.2e  %5.2e  %5.2e  %5.2e  %5.2e  %5.2e" % (
                     iiter + 1,
-                    x[0],
-                    y[0],
+                    np.real(x[0]),
+                    np.real(y[0]),
                     pf,
                     pg,
                     H(x, y),
@@ -388,8 +390,8 @@ def iPALM(
             if iiter < 10 or niter - iiter < 10 or iiter % (niter // 10) == 0:
                 msg = "%6g  %5.5e  %5.2e  %5.2e  %5.2e  %5.2e  %5.2e  %5.2e" % (
                     iiter + 1,
-                    x[0],
-                    y[0],
+                    np.real(x[0]),
+                    np.real(y[0]),
                     pf,
                     pg,
                     H(x, y),
-- 
2.43.0


From 46ded3fb8a3770dbb13f0f06667eebfb7b86136c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:52 +0000
Subject: [PATCH 43/61] fix: PALM and iPALM start from the provided initial
 vectors

---
 pyproximal/optimization/palm.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pyproximal/optimization/palm.py b/pyproximal/optimization/palm.py
index 920dbdc..5b82c8f 100644
--- a/pyproximal/optimization/palm.py
+++ b/pyproximal/optimization/palm.py
@@ -168,6 +168,8 @@ def PALM(
         dk = 0.0
 
     x, y = x0.copy(), y0.copy()
+    H.updatex(x.copy())
+    H.updatey(y.copy())
     for iiter in range(niter):
         # x step
         if gammaf is not None:
@@ -347,6 +349,8 @@ def iPALM(
 
     x, y = x0.copy(), y0.copy()
     xold, yold = x0.copy(), y0.copy()
+    H.updatex(x.copy())
+    H.updatey(y.copy())
     for iiter in range(niter):
         # x step
         z = x + a[0] * (x - xold)
-- 
2.43.0


From 0f03714d0850640003e0c8907137286d57ca177b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:52 +0000
Subject: [PATCH 44/61] fix: gradient tests always perturb the vector and leave
 inputs unchanged

---
 pyproximal/utils/gradtest.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/pyproximal/utils/gradtest.py b/pyproximal/utils/gradtest.py
index 96ec9c7..c9a84ad 100644
--- a/pyproximal/utils/gradtest.py
+++ b/pyproximal/utils/gradtest.py
@@ -85,6 +85,10 @@ def gradtest_proximal(
         if complexflag:
             x = x + 1j * ncp.random.normal(0.0, 1.0, n).astype(dtype)
 
+    else:
+        # avoid modifying the input vector when perturbing it
+        x = x.copy()
+
     # compute function
     f = Op(x)
 
@@ -93,7 +97,7 @@ def gradtest_proximal(
 
     # choose location of perturbation, whether to act on x or y and on real or imag part
     iqx = np.random.randint(0, n)
-    r_or_i = np.random.randint(0, 2)
+    r_or_i = np.random.randint(0, 2) if ncp.iscomplexobj(x) else 0
 
     delta1: float | complex = delta
     if r_or_i != 0:
@@ -202,7 +206,7 @@ def gradtest_bilinear(
     ny = Op.sizey
 
     # extract x and y from Op
-    x, y = Op.x.ravel(), Op.y.ravel()
+    x, y = Op.x.flatten(), Op.y.flatten()
 
     # compute function at x and y
     f = Op(x, y)
-- 
2.43.0


From 91e97ec9faf9ae71e1f638b5fa932cbf4572bb63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:52 +0000
Subject: [PATCH 45/61] fix: gradient tests use their relative tolerance

---
 pyproximal/utils/gradtest.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/pyproximal/utils/gradtest.py b/pyproximal/utils/gradtest.py
index c9a84ad..8973930 100644
--- a/pyproximal/utils/gradtest.py
+++ b/pyproximal/utils/gradtest.py
@@ -112,8 +112,8 @@ def gradtest_proximal(
 
     # evaluate if gradient test passed
     grad_delta = (fdelta - f) / ncp.abs(delta)
-    grad_diff = grad_delta - (grad.real if r_or_i == 0 else grad.imag)
-    passed = bool(ncp.isclose(grad_diff, 0, rtol, atol))
+    grad_exp = grad.real if r_or_i == 0 else grad.imag
+    passed = bool(ncp.isclose(grad_delta, grad_exp, rtol, atol))
 
     # verbosity or error raising
     if (not passed and raiseerror) or verb:
@@ -240,10 +240,8 @@ def gradtest_bilinear(
 
     # evaluate if gradient test passed
     grad_delta = (fdelta - f) / ncp.abs(delta)
-    grad_diff = grad_delta - (
-        grad.real if not complexflag or r_or_i == 0 else grad.imag
-    )
-    passed = bool(ncp.isclose(grad_diff, 0, rtol, atol))
+    grad_exp = grad.real if not complexflag or r_or_i == 0 else grad.imag
+    passed = bool(ncp.isclose(grad_delta, grad_exp, rtol, atol))
 
     # verbosity or error raising
     if (not passed and raiseerror) or verb:
-- 
2.43.0


From b0b85aa112ec772497bf960dd95461304991e070 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:25 +0000
Subject: [PATCH 46/61] fix: SR3 inner solver no longer returns NaN when it
 reaches the exact solution

---
 pyproximal/optimization/sr3.py | 419 +++++++++++++++++----------------
 1 file changed, 215 insertions(+), 204 deletions(-)

diff --git a/pyproximal/optimization/sr3.py b/pyproximal/optimization/sr3.py
index 10f3381..8f3a7e5 100644
--- a/pyproximal/optimization/sr3.py
+++ b/pyproximal/optimization/sr3.py
@@ -1,204 +1,215 @@
-from typing import TYPE_CHECKING
-
-import numpy as np
-import pylops
-from pylops.utils.typing import NDArray
-from scipy.sparse.linalg import lsqr as sp_lsqr
-
-if TYPE_CHECKING:
-    from pylops.linearoperator import LinearOperator
-
-
-def _lsqr(
-    Op: "LinearOperator",
-    data: NDArray,
-    iter_lim: int,
-    z_old: NDArray,
-    x0: NDArray,
-    kappa: float,
-    eps: float,
-    Reg: "LinearOperator",
-) -> NDArray:
-    r"""LSQR
-
-    This function uses LSQR to solve the inner iteration of SR3, given by
-
-    .. math::
-        \min_x \dfrac{1}{2}\Vert\begin{bmatrix}A\\ \sqrt{kappa}L\end{bmatrix}x
-        - \begin{bmatrix}b\\ \sqrt{kappa}w\Vert_2^2
-
-    LSQR is stopped when the maximum amount of iterations are reached or when
-    the stopping criterion is satisfied. There are no other stopping criteria,
-    hence the solver should not be used outside of the context of solving the
-    inner iteration of SR3.
-
-    Parameters
-    ----------
-    Op: :obj:`pylops.LinearOperator`
-        Forward operator. This is the stacked operator
-        :math:`\begin{bmatrix}A\\ \sqrt{kappa}L\end{bmatrix}`
-    data: :obj:`numpy.ndarray`
-        Data
-    iter_lim: :obj:`int`
-        Maximum number of iterations
-    z_old: :obj:`numpy.ndarray`
-        The previous outer iteration
-    x0: :obj:`numpy.ndarray`
-       initial guess
-    kappa: :obj:`float`
-        The regularization parameter for the inner iteration
-    eps: :obj:`float`
-        The regularization parameter for the outer iteration
-    Reg: :obj:`numpy.ndarray`
-        The regularization operator L
-
-    Returns
-    -------
-    x: :obj:`numpy.ndarray`
-        Approximate solution
-
-    """
-    data -= Op.matvec(x0)
-    x = x0
-    beta = np.linalg.norm(data)
-    u = data / beta
-    v = Op.rmatvec(u)
-    alpha = np.linalg.norm(v)
-    v = v / alpha
-    w = v
-    phi_bar = beta
-    rho_bar = alpha
-    for _ in range(iter_lim):
-        u = Op.matvec(v) - alpha * u
-        beta = np.linalg.norm(u)
-        u = u / beta
-        v = Op.rmatvec(u) - beta * v
-        alpha = np.linalg.norm(v)
-        v = v / alpha
-        rho = np.sqrt(rho_bar**2 + beta**2)
-        c = rho_bar / rho
-        s = beta / rho
-        theta = s * alpha
-        rho_bar = -c * alpha
-        phi = c * phi_bar
-        phi_bar = s * phi_bar
-        x += (phi / rho) * w
-        temp = Reg.matvec(x)
-        z = np.sign(temp) * np.maximum(abs(temp) - eps / kappa, 0)
-        if np.linalg.norm(z - z_old) < 1e-6 * np.linalg.norm(z_old):
-            return x
-        w = v - (theta / rho) * w
-        z_old = z
-    return x
-
-
-def SR3(
-    Op: "LinearOperator",
-    Reg: "LinearOperator",
-    data: NDArray,
-    kappa: float,
-    eps: float,
-    x0: NDArray | None = None,
-    adaptive: bool = True,
-    iter_lim_outer: int = 100,
-    iter_lim_inner: int = 100,
-) -> NDArray:
-    r"""Sparse Relaxed Regularized Regression
-
-    Applies the Sparse Relaxed Regularized Regression (SR3) algorithm to
-    an inverse problem with a sparsity constraint of the form
-
-    .. math::
-
-        \min_x \dfrac{1}{2}\Vert \mathbf{Ax} - \mathbf{b}\Vert_2^2 +
-        \lambda\Vert \mathbf{Lx}\Vert_1
-
-    SR3 introduces an auxiliary variable :math:`\mathbf{z} = \mathbf{Lx}`,
-    and instead solves
-
-    .. math::
-
-        \min_{\mathbf{x},\mathbf{z}} \dfrac{1}{2}\Vert \mathbf{Ax} -
-        \mathbf{b}\Vert_2^2 + \lambda\Vert \mathbf{z}\Vert_1 +
-        \dfrac{\kappa}{2}\Vert \mathbf{Lx} - \mathbf{z}\Vert_2^2
-
-    Parameters
-    ----------
-    Op : :obj:`pylops.LinearOperator`
-        Forward operator
-    Reg : :obj:`numpy.ndarray`
-        Regularization operator
-    data : :obj:`numpy.ndarray`
-        Data
-    kappa : :obj:`float`
-        Parameter controlling the difference between :math:`\mathbf{z}`
-        and :math:`\mathbf{Lx}`
-    eps : :obj:`float`
-        Regularization parameter
-    x0 : :obj:`numpy.ndarray`, optional
-        Initial guess
-    adaptive : :obj:`bool`, optional
-        Use adaptive SR3 with a stopping criterion for the inner iterations
-        or not
-    iter_lim_outer : :obj:`int`, optional
-        Maximum number of iterations for the outer iteration
-    iter_lim_inner : :obj:`int`, optional
-        Maximum number of iterations for the inner iteration
-
-    Returns
-    -------
-    x: :obj:`numpy.ndarray`
-        Approximate solution.
-
-    Notes
-    -----
-    SR3 uses the following algorithm:
-
-        .. math::
-            \mathbf{x}_{k+1} = (\mathbf{A}^T\mathbf{A} + \kappa
-            \mathbf{L}^T\mathbf{L})^{-1}(\mathbf{A}^T\mathbf{b} +
-            \kappa \mathbf{L}^T\mathbf{y}_k) \\
-            \mathbf{y}_{k+1} = \prox_{\lambda/\kappa\mathcal{R}}
-            (\mathbf{Lx}_{k+1})
-
-    """
-    (m, n) = Op.shape
-    if x0 is None:
-        x0 = np.zeros(n)
-    x = x0.copy()
-    p = Reg.shape[0]
-    v = np.zeros(p)
-    w = v
-    eta = 1 / kappa
-    theta = 1
-    AL = pylops.VStack([Op, np.sqrt(kappa) * Reg])
-    for _ in range(iter_lim_outer):
-        # Compute the inner iteration
-        if adaptive:
-            x = _lsqr(
-                AL,
-                np.concatenate((data, np.sqrt(kappa) * v)),
-                iter_lim_inner,
-                v,
-                x,
-                kappa,
-                eps,
-                Reg,
-            )
-        else:
-            x = sp_lsqr(
-                AL,
-                np.concatenate((data, np.sqrt(kappa) * v)),
-                iter_lim=iter_lim_inner,
-                x0=x,
-            )[0]
-        # Compute the outer iteration
-        w_old = w
-        temp = Reg.matvec(x)
-        w = np.sign(temp) * np.maximum(abs(temp) - eta * eps, 0)
-        err1 = float(np.linalg.norm(v - w)) / max(1.0, float(np.linalg.norm(w)))
-        if err1 < 1e-6:
-            return x
-        theta = 2 / (1 + np.sqrt(1 + 4 / (theta**2)))
-        v = w + (1 - theta) * (w - w_old)
-    return x
+from typing import TYPE_CHECKING
+
+import numpy as np
+import pylops
+from pylops.utils.typing import NDArray
+from scipy.sparse.linalg import lsqr as sp_lsqr
+
+if TYPE_CHECKING:
+    from pylops.linearoperator import LinearOperator
+
+
+def _lsqr(
+    Op: "LinearOperator",
+    data: NDArray,
+    iter_lim: int,
+    z_old: NDArray,
+    x0: NDArray,
+    kappa: float,
+    eps: float,
+    Reg: "LinearOperator",
+) -> NDArray:
+    r"""LSQR
+
+    This function uses LSQR to solve the inner iteration of SR3, given by
+
+    .. math::
+        \min_x \dfrac{1}{2}\Vert\begin{bmatrix}A\\ \sqrt{kappa}L\end{bmatrix}x
+        - \begin{bmatrix}b\\ \sqrt{kappa}w\Vert_2^2
+
+    LSQR is stopped when the maximum amount of iterations are reached or when
+    the stopping criterion is satisfied. There are no other stopping criteria,
+    hence the solver should not be used outside of the context of solving the
+    inner iteration of SR3.
+
+    Parameters
+    ----------
+    Op: :obj:`pylops.LinearOperator`
+        Forward operator. This is the stacked operator
+        :math:`\begin{bmatrix}A\\ \sqrt{kappa}L\end{bmatrix}`
+    data: :obj:`numpy.ndarray`
+        Data
+    iter_lim: :obj:`int`
+        Maximum number of iterations
+    z_old: :obj:`numpy.ndarray`
+        The previous outer iteration
+    x0: :obj:`numpy.ndarray`
+       initial guess
+    kappa: :obj:`float`
+        The regularization parameter for the inner iteration
+    eps: :obj:`float`
+        The regularization parameter for the outer iteration
+    Reg: :obj:`numpy.ndarray`
+        The regularization operator L
+
+    Returns
+    -------
+    x: :obj:`numpy.ndarray`
+        Approximate solution
+
+    """
+    data -= Op.matvec(x0)
+    x = x0
+    beta = np.linalg.norm(data)
+    if beta == 0.0:
+        # x0 solves the system exactly
+        return x
+    u = data / beta
+    v = Op.rmatvec(u)
+    alpha = np.linalg.norm(v)
+    if alpha == 0.0:
+        # x0 is already a least-squares solution
+        return x
+    v = v / alpha
+    w = v
+    phi_bar = beta
+    rho_bar = alpha
+    for _ in range(iter_lim):
+        u = Op.matvec(v) - alpha * u
+        beta = np.linalg.norm(u)
+        if beta > 0.0:
+            u = u / beta
+        v = Op.rmatvec(u) - beta * v
+        alpha = np.linalg.norm(v)
+        if alpha > 0.0:
+            v = v / alpha
+        rho = np.sqrt(rho_bar**2 + beta**2)
+        c = rho_bar / rho
+        s = beta / rho
+        theta = s * alpha
+        rho_bar = -c * alpha
+        phi = c * phi_bar
+        phi_bar = s * phi_bar
+        x += (phi / rho) * w
+        temp = Reg.matvec(x)
+        z = np.sign(temp) * np.maximum(abs(temp) - eps / kappa, 0)
+        if np.linalg.norm(z - z_old) < 1e-6 * np.linalg.norm(z_old):
+            return x
+        if beta == 0.0 or alpha == 0.0:
+            # exact solution found
+            return x
+        w = v - (theta / rho) * w
+        z_old = z
+    return x
+
+
+def SR3(
+    Op: "LinearOperator",
+    Reg: "LinearOperator",
+    data: NDArray,
+    kappa: float,
+    eps: float,
+    x0: NDArray | None = None,
+    adaptive: bool = True,
+    iter_lim_outer: int = 100,
+    iter_lim_inner: int = 100,
+) -> NDArray:
+    r"""Sparse Relaxed Regularized Regression
+
+    Applies the Sparse Relaxed Regularized Regression (SR3) algorithm to
+    an inverse problem with a sparsity constraint of the form
+
+    .. math::
+
+        \min_x \dfrac{1}{2}\Vert \mathbf{Ax} - \mathbf{b}\Vert_2^2 +
+        \lambda\Vert \mathbf{Lx}\Vert_1
+
+    SR3 introduces an auxiliary variable :math:`\mathbf{z} = \mathbf{Lx}`,
+    and instead solves
+
+    .. math::
+
+        \min_{\mathbf{x},\mathbf{z}} \dfrac{1}{2}\Vert \mathbf{Ax} -
+        \mathbf{b}\Vert_2^2 + \lambda\Vert \mathbf{z}\Vert_1 +
+        \dfrac{\kappa}{2}\Vert \mathbf{Lx} - \mathbf{z}\Vert_2^2
+
+    Parameters
+    ----------
+    Op : :obj:`pylops.LinearOperator`
+        Forward operator
+    Reg : :obj:`numpy.ndarray`
+        Regularization operator
+    data : :obj:`numpy.ndarray`
+        Data
+    kappa : :obj:`float`
+        Parameter controlling the difference between :math:`\mathbf{z}`
+        and :math:`\mathbf{Lx}`
+    eps : :obj:`float`
+        Regularization parameter
+    x0 : :obj:`numpy.ndarray`, optional
+        Initial guess
+    adaptive : :obj:`bool`, optional
+        Use adaptive SR3 with a stopping criterion for the inner iterations
+        or not
+    iter_lim_outer : :obj:`int`, optional
+        Maximum number of iterations for the outer iteration
+    iter_lim_inner : :obj:`int`, optional
+        Maximum number of iterations for the inner iteration
+
+    Returns
+    -------
+    x: :obj:`numpy.ndarray`
+        Approximate solution.
+
+    Notes
+    -----
+    SR3 uses the following algorithm:
+
+        .. math::
+            \mathbf{x}_{k+1} = (\mathbf{A}^T\mathbf{A} + \kappa
+            \mathbf{L}^T\mathbf{L})^{-1}(\mathbf{A}^T\mathbf{b} +
+            \kappa \mathbf{L}^T\mathbf{y}_k) \\
+            \mathbf{y}_{k+1} = \prox_{\lambda/\kappa\mathcal{R}}
+            (\mathbf{Lx}_{k+1})
+
+    """
+    (m, n) = Op.shape
+    if x0 is None:
+        x0 = np.zeros(n)
+    x = x0.copy()
+    p = Reg.shape[0]
+    v = np.zeros(p)
+    w = v
+    eta = 1 / kappa
+    theta = 1
+    AL = pylops.VStack([Op, np.sqrt(kappa) * Reg])
+    for _ in range(iter_lim_outer):
+        # Compute the inner iteration
+        if adaptive:
+            x = _lsqr(
+                AL,
+                np.concatenate((data, np.sqrt(kappa) * v)),
+                iter_lim_inner,
+                v,
+                x,
+                kappa,
+                eps,
+                Reg,
+            )
+        else:
+            x = sp_lsqr(
+                AL,
+                np.concatenate((data, np.sqrt(kappa) * v)),
+                iter_lim=iter_lim_inner,
+                x0=x,
+            )[0]
+        # Compute the outer iteration
+        w_old = w
+        temp = Reg.matvec(x)
+        w = np.sign(temp) * np.maximum(abs(temp) - eta * eps, 0)
+        err1 = float(np.linalg.norm(v - w)) / max(1.0, float(np.linalg.norm(w)))
+        if err1 < 1e-6:
+            return x
+        theta = 2 / (1 + np.sqrt(1 + 4 / (theta**2)))
+        v = w + (1 - theta) * (w - w_old)
+    return x
-- 
2.43.0


From c990298b2880c1e50728352e03501ab153b4d508 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:52 +0000
Subject: [PATCH 47/61] fix: Geman.prox finds the minimum for large vectors and
 small weights

---
 pyproximal/proximal/Geman.py | 25 +++++++++++++------------
 1 file changed, 13 insertions(+), 12 deletions(-)

diff --git a/pyproximal/proximal/Geman.py b/pyproximal/proximal/Geman.py
index 371591d..3220410 100644
--- a/pyproximal/proximal/Geman.py
+++ b/pyproximal/proximal/Geman.py
@@ -65,10 +65,9 @@ class Geman(ProxOperator):
     @_check_tau
     def prox(self, x: NDArray, tau: float) -> NDArray:
         out = np.zeros_like(x)
-        b = 2 * self.gamma - np.abs(x)
-        c = self.gamma**2 - 2 * self.gamma * np.abs(x)
-        d = self.gamma * self.sigma * tau - self.gamma**2 * np.abs(x)
-        idx, loc_mins = self._find_local_minima(b, c, d)
+        idx, loc_mins = self._find_local_minima(
+            np.abs(x), self.gamma, self.gamma * self.sigma * tau
+        )
         global_min_idx = (
             tau * self.elementwise(loc_mins) + (loc_mins - np.abs(x[idx])) ** 2 / 2
             < np.abs(x[idx]) ** 2 / 2
@@ -79,12 +78,14 @@ class Geman(ProxOperator):
 
     @staticmethod
     def _find_local_minima(
-        b: NDArray, c: NDArray, d: NDArray
+        absx: NDArray, gamma: float, k: float
     ) -> tuple[NDArray, NDArray]:
-        f = -((c - b**2.0 / 3.0) ** 3.0) / 27.0
-        g = (2.0 * b**3.0 - 9.0 * b * c + 27.0 * d) / 27.0
-        idx = g**2.0 / 4.0 - f <= 0
-        sqrtf = np.sqrt(f[idx])
-        k = np.arccos(-(g[idx] / (2 * sqrtf)))
-        loc_mins = 2 * sqrtf ** (1 / 3.0) * np.cos(k / 3.0) - b[idx] / 3.0
-        return idx, loc_mins
+        # the stationary points y satisfy w^2 (r - w) = k, where w = y + gamma and
+        # r = |x| + gamma. The largest root of this cubic is a local minimum, and it
+        # exists when k does not exceed the maximum of the left-hand side
+        r = absx + gamma
+        idx = k <= 4.0 * r**3.0 / 27.0
+        r = r[idx]
+        theta = np.arccos(1.0 - 27.0 * k / (2.0 * r**3.0))
+        loc_mins = r / 3.0 * (1.0 + 2.0 * np.cos(theta / 3.0)) - gamma
+        return idx, np.maximum(loc_mins, 0.0)
-- 
2.43.0


From c8d3bdffa6191236a709ac80752d97467dc00f4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:52 +0000
Subject: [PATCH 48/61] fix: Huber value of complex vectors

---
 pyproximal/proximal/Huber.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyproximal/proximal/Huber.py b/pyproximal/proximal/Huber.py
index 2ab35f4..d1c104c 100644
--- a/pyproximal/proximal/Huber.py
+++ b/pyproximal/proximal/Huber.py
@@ -45,8 +45,8 @@ class Huber(ProxOperator):
         self.alpha = alpha
 
     def __call__(self, x: NDArray) -> float:
-        h = np.zeros_like(x)
         xabs = np.abs(x)
+        h = np.zeros_like(xabs, dtype=float)
         mask = xabs > self.alpha
         h[~mask] = xabs[~mask] ** 2 / (2.0 * self.alpha)
         h[mask] = xabs[mask] - self.alpha / 2.0
-- 
2.43.0


From dcbfd9fef551aa7eebf03039fd932bd6980180f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:52 +0000
Subject: [PATCH 49/61] fix: TV does not declare a gradient

---
 pyproximal/proximal/TV.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyproximal/proximal/TV.py b/pyproximal/proximal/TV.py
index df8d1a2..8a59871 100644
--- a/pyproximal/proximal/TV.py
+++ b/pyproximal/proximal/TV.py
@@ -47,7 +47,7 @@ class TV(ProxOperator):
         rtol: float = 1e-4,
         **kwargs: Any,
     ) -> None:
-        super().__init__(None, True)
+        super().__init__(None, False)
         self.dims = (-1,) if dims is None else dims
         self.ndim = 1 if dims is None else len(dims)
         self.sigma = sigma
-- 
2.43.0


From 57a190c3da25355c0b04d788ef9f2d32a651db5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:52 +0000
Subject: [PATCH 50/61] fix: QuadraticEnvelopeRankL2 value of complex matrices

---
 pyproximal/proximal/QuadraticEnvelope.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/pyproximal/proximal/QuadraticEnvelope.py b/pyproximal/proximal/QuadraticEnvelope.py
index feb4a4c..cb7723a 100644
--- a/pyproximal/proximal/QuadraticEnvelope.py
+++ b/pyproximal/proximal/QuadraticEnvelope.py
@@ -284,10 +284,9 @@ class QuadraticEnvelopeRankL2(ProxOperator):
 
     def __call__(self, x: NDArray) -> float:
         X = x.reshape(self.dim)
-        eigs = np.linalg.eigvalsh(X.T @ X)
-        eigs[eigs < 0] = 0  # ensure all eigenvalues at positive
+        S = np.linalg.svd(X, compute_uv=False)
         return float(
-            np.sum(self.penalty(np.sqrt(eigs)))
+            np.sum(self.penalty(S))
             + 0.5 * np.linalg.norm(X - self.M, "fro")
         )
 
-- 
2.43.0


From b810ad512ae1d3baa1b6275922cbf688c5dab9a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:16 +0000
Subject: [PATCH 51/61] fix: QuadraticEnvelopeCardIndicator.prox no longer
 fails on ties due to rounding

---
 pyproximal/proximal/QuadraticEnvelope.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pyproximal/proximal/QuadraticEnvelope.py b/pyproximal/proximal/QuadraticEnvelope.py
index cb7723a..353afb5 100644
--- a/pyproximal/proximal/QuadraticEnvelope.py
+++ b/pyproximal/proximal/QuadraticEnvelope.py
@@ -219,7 +219,9 @@ class QuadraticEnvelopeCardIndicator(ProxOperator):
                 sI = (rho * sum(rsort[istart1 : iend1 + 1])) / (
                     (self.r0 - istart1) * rho + (iend1 + 1 - self.r0) * 1
                 )
-                if z2 <= sI <= z1:
+                # allow for rounding errors in case of ties
+                eps = 10 * r.size * np.finfo(r.dtype).eps * z1
+                if z2 - eps <= sI <= z1 + eps:
                     x = np.concatenate(
                         (
                             np.maximum(rnew[: self.r0], sI),
-- 
2.43.0


From 3a61c7b1c521773971aeab9a329edf463af0a45c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:40 +0000
Subject: [PATCH 52/61] fix: Log1.prox no longer returns nan for entries on the
 threshold

---
 pyproximal/proximal/Log.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/pyproximal/proximal/Log.py b/pyproximal/proximal/Log.py
index 3cb3571..b9c386f 100644
--- a/pyproximal/proximal/Log.py
+++ b/pyproximal/proximal/Log.py
@@ -167,10 +167,9 @@ class Log1(ProxOperator):
         absx = np.abs(x)
         idx = absx > max(thresh, 0.0)
         absx = absx[idx]
-        x1[idx] = np.maximum(
-            0.5 * (absx - self.delta + np.sqrt((absx + self.delta) ** 2 - 2 * tau1)),
-            0.0,
-        )
+        # the radicand is non-negative up to rounding errors as absx > thresh
+        disc = np.maximum((absx + self.delta) ** 2 - 2 * tau1, 0.0)
+        x1[idx] = np.maximum(0.5 * (absx - self.delta + np.sqrt(disc)), 0.0)
         if np.iscomplexobj(x):
             x1[idx] *= np.exp(1j * np.angle(x[idx]))
         else:
-- 
2.43.0


From 91f5a0c370d8124f38c31d6f5b162358c3c7fa3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:02 +0000
Subject: [PATCH 53/61] fix: Simplex with axis=-2 projects along the first axis

---
 pyproximal/proximal/Simplex.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyproximal/proximal/Simplex.py b/pyproximal/proximal/Simplex.py
index 6a5a3ee..393cc39 100644
--- a/pyproximal/proximal/Simplex.py
+++ b/pyproximal/proximal/Simplex.py
@@ -42,8 +42,8 @@ class _Simplex(ProxOperator):
         self.n = n
         self.radius = radius
         self.dims = dims
-        self.axis = axis
-        self.otheraxis = 1 if axis == 0 else 0
+        self.axis = axis if axis >= 0 else axis + 2
+        self.otheraxis = 1 if self.axis == 0 else 0
         self.maxiter = maxiter
         self.xtol = xtol
         self.call = call
-- 
2.43.0


From d2716b95195ed9bc7b37a505d2dbd7fec8d3ba08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:33 +0000
Subject: [PATCH 54/61] fix: AndersonProximalGradient no longer divides by
 vanishing residuals

---
 pyproximal/optimization/primal.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/pyproximal/optimization/primal.py b/pyproximal/optimization/primal.py
index bd3d9c9..5cc06ee 100644
--- a/pyproximal/optimization/primal.py
+++ b/pyproximal/optimization/primal.py
@@ -649,10 +649,14 @@ def AndersonProximalGradient(
             G.pop(-1)
 
         # solve for alpha coefficients
+        # (which do not depend on the scale of the residuals; normalize them
+        # as they vanish when approaching convergence)
         Rstack = np.vstack(R)
+        Rnorm = np.linalg.norm(Rstack)
+        if Rnorm > 0:
+            Rstack = Rstack / Rnorm
         Rinv = np.linalg.pinv(
-            Rstack @ Rstack.T
-            + epsr * np.linalg.norm(Rstack) ** 2 * np.eye(Rstack.shape[0])
+            Rstack @ Rstack.T + epsr * np.eye(Rstack.shape[0])
         )
         ones = np.ones(min(nhistory, iiter + 2))
         Rinvones = Rinv @ ones
-- 
2.43.0


From 5d28f0bc5da8cc694bc9b59e5883ca622e6c2cfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:30 +0000
Subject: [PATCH 55/61] fix: Segment computes class distances of integer images
 in floating point

---
 pyproximal/optimization/segmentation.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pyproximal/optimization/segmentation.py b/pyproximal/optimization/segmentation.py
index 5b7cae6..ad9423e 100644
--- a/pyproximal/optimization/segmentation.py
+++ b/pyproximal/optimization/segmentation.py
@@ -95,7 +95,9 @@ def Segment(
     ncl = len(cl)
 
     # Data (difference between image and center of classes)
-    g = sigma / 2.0 * (y.reshape(1, dimsprod) - cl[:, np.newaxis]) ** 2
+    # (in floating point, as differences of unsigned integers wrap around)
+    yf = y.astype(np.result_type(y, cl, np.float64)).reshape(1, dimsprod)
+    g = sigma / 2.0 * (yf - cl[:, np.newaxis]) ** 2
     if clsigmas is not None:
         g /= clsigmas[:, np.newaxis]
     g = g.ravel()
-- 
2.43.0


From ed68057cf458b245fc22465eebff193f3bb00a6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:40 +0000
Subject: [PATCH 56/61] fix: SR3 inner solver fix keeps the line endings of its
 file

---
 pyproximal/optimization/sr3.py | 430 ++++++++++++++++-----------------
 1 file changed, 215 insertions(+), 215 deletions(-)

diff --git a/pyproximal/optimization/sr3.py b/pyproximal/optimization/sr3.py
index 8f3a7e5..64a0ea6 100644
--- a/pyproximal/optimization/sr3.py
+++ b/pyproximal/optimization/sr3.py
@@ -1,215 +1,215 @@
-from typing import TYPE_CHECKING
-
-import numpy as np
-import pylops
-from pylops.utils.typing import NDArray
-from scipy.sparse.linalg import lsqr as sp_lsqr
-
-if TYPE_CHECKING:
-    from pylops.linearoperator import LinearOperator
-
-
-def _lsqr(
-    Op: "LinearOperator",
-    data: NDArray,
-    iter_lim: int,
-    z_old: NDArray,
-    x0: NDArray,
-    kappa: float,
-    eps: float,
-    Reg: "LinearOperator",
-) -> NDArray:
-    r"""LSQR
-
-    This function uses LSQR to solve the inner iteration of SR3, given by
-
-    .. math::
-        \min_x \dfrac{1}{2}\Vert\begin{bmatrix}A\\ \sqrt{kappa}L\end{bmatrix}x
-        - \begin{bmatrix}b\\ \sqrt{kappa}w\Vert_2^2
-
-    LSQR is stopped when the maximum amount of iterations are reached or when
-    the stopping criterion is satisfied. There are no other stopping criteria,
-    hence the solver should not be used outside of the context of solving the
-    inner iteration of SR3.
-
-    Parameters
-    ----------
-    Op: :obj:`pylops.LinearOperator`
-        Forward operator. This is the stacked operator
-        :math:`\begin{bmatrix}A\\ \sqrt{kappa}L\end{bmatrix}`
-    data: :obj:`numpy.ndarray`
-        Data
-    iter_lim: :obj:`int`
-        Maximum number of iterations
-    z_old: :obj:`numpy.ndarray`
-        The previous outer iteration
-    x0: :obj:`numpy.ndarray`
-       initial guess
-    kappa: :obj:`float`
-        The regularization parameter for the inner iteration
-    eps: :obj:`float`
-        The regularization parameter for the outer iteration
-    Reg: :obj:`numpy.ndarray`
-        The regularization operator L
-
-    Returns
-    -------
-    x: :obj:`numpy.ndarray`
-        Approximate solution
-
-    """
-    data -= Op.matvec(x0)
-    x = x0
-    beta = np.linalg.norm(data)
-    if beta == 0.0:
-        # x0 solves the system exactly
-        return x
-    u = data / beta
-    v = Op.rmatvec(u)
-    alpha = np.linalg.norm(v)
-    if alpha == 0.0:
-        # x0 is already a least-squares solution
-        return x
-    v = v / alpha
-    w = v
-    phi_bar = beta
-    rho_bar = alpha
-    for _ in range(iter_lim):
-        u = Op.matvec(v) - alpha * u
-        beta = np.linalg.norm(u)
-        if beta > 0.0:
-            u = u / beta
-        v = Op.rmatvec(u) - beta * v
-        alpha = np.linalg.norm(v)
-        if alpha > 0.0:
-            v = v / alpha
-        rho = np.sqrt(rho_bar**2 + beta**2)
-        c = rho_bar / rho
-        s = beta / rho
-        theta = s * alpha
-        rho_bar = -c * alpha
-        phi = c * phi_bar
-        phi_bar = s * phi_bar
-        x += (phi / rho) * w
-        temp = Reg.matvec(x)
-        z = np.sign(temp) * np.maximum(abs(temp) - eps / kappa, 0)
-        if np.linalg.norm(z - z_old) < 1e-6 * np.linalg.norm(z_old):
-            return x
-        if beta == 0.0 or alpha == 0.0:
-            # exact solution found
-            return x
-        w = v - (theta / rho) * w
-        z_old = z
-    return x
-
-
-def SR3(
-    Op: "LinearOperator",
-    Reg: "LinearOperator",
-    data: NDArray,
-    kappa: float,
-    eps: float,
-    x0: NDArray | None = None,
-    adaptive: bool = True,
-    iter_lim_outer: int = 100,
-    iter_lim_inner: int = 100,
-) -> NDArray:
-    r"""Sparse Relaxed Regularized Regression
-
-    Applies the Sparse Relaxed Regularized Regression (SR3) algorithm to
-    an inverse problem with a sparsity constraint of the form
-
-    .. math::
-
-        \min_x \dfrac{1}{2}\Vert \mathbf{Ax} - \mathbf{b}\Vert_2^2 +
-        \lambda\Vert \mathbf{Lx}\Vert_1
-
-    SR3 introduces an auxiliary variable :math:`\mathbf{z} = \mathbf{Lx}`,
-    and instead solves
-
-    .. math::
-
-        \min_{\mathbf{x},\mathbf{z}} \dfrac{1}{2}\Vert \mathbf{Ax} -
-        \mathbf{b}\Vert_2^2 + \lambda\Vert \mathbf{z}\Vert_1 +
-        \dfrac{\kappa}{2}\Vert \mathbf{Lx} - \mathbf{z}\Vert_2^2
-
-    Parameters
-    ----------
-    Op : :obj:`pylops.LinearOperator`
-        Forward operator
-    Reg : :obj:`numpy.ndarray`
-        Regularization operator
-    data : :obj:`numpy.ndarray`
-        Data
-    kappa : :obj:`float`
-        Parameter controlling the difference between :math:`\mathbf{z}`
-        and :math:`\mathbf{Lx}`
-    eps : :obj:`float`
-        Regularization parameter
-    x0 : :obj:`numpy.ndarray`, optional
-        Initial guess
-    adaptive : :obj:`bool`, optional
-        Use adaptive SR3 with a stopping criterion for the inner iterations
-        or not
-    iter_lim_outer : :obj:`int`, optional
-        Maximum number of iterations for the outer iteration
-    iter_lim_inner : :obj:`int`, optional
-        Maximum number of iterations for the inner iteration
-
-    Returns
-    -------
-    x: :obj:`numpy.ndarray`
-        Approximate solution.
-
-    Notes
-    -----
-    SR3 uses the following algorithm:
-
-        .. math::
-            \mathbf{x}_{k+1} = (\mathbf{A}^T\mathbf{A} + \kappa
-            \mathbf{L}^T\mathbf{L})^{-1}(\mathbf{A}^T\mathbf{b} +
-            \kappa \mathbf{L}^T\mathbf{y}_k) \\
-            \mathbf{y}_{k+1} = \prox_{\lambda/\kappa\mathcal{R}}
-            (\mathbf{Lx}_{k+1})
-
-    """
-    (m, n) = Op.shape
-    if x0 is None:
-        x0 = np.zeros(n)
-    x = x0.copy()
-    p = Reg.shape[0]
-    v = np.zeros(p)
-    w = v
-    eta = 1 / kappa
-    theta = 1
-    AL = pylops.VStack([Op, np.sqrt(kappa) * Reg])
-    for _ in range(iter_lim_outer):
-        # Compute the inner iteration
-        if adaptive:
-            x = _lsqr(
-                AL,
-                np.concatenate((data, np.sqrt(kappa) * v)),
-                iter_lim_inner,
-                v,
-                x,
-                kappa,
-                eps,
-                Reg,
-            )
-        else:
-            x = sp_lsqr(
-                AL,
-                np.concatenate((data, np.sqrt(kappa) * v)),
-                iter_lim=iter_lim_inner,
-                x0=x,
-            )[0]
-        # Compute the outer iteration
-        w_old = w
-        temp = Reg.matvec(x)
-        w = np.sign(temp) * np.maximum(abs(temp) - eta * eps, 0)
-        err1 = float(np.linalg.norm(v - w)) / max(1.0, float(np.linalg.norm(w)))
-        if err1 < 1e-6:
-            return x
-        theta = 2 / (1 + np.sqrt(1 + 4 / (theta**2)))
-        v = w + (1 - theta) * (w - w_old)
-    return x
+from typing import TYPE_CHECKING
+
+import numpy as np
+import pylops
+from pylops.utils.typing import NDArray
+from scipy.sparse.linalg import lsqr as sp_lsqr
+
+if TYPE_CHECKING:
+    from pylops.linearoperator import LinearOperator
+
+
+def _lsqr(
+    Op: "LinearOperator",
+    data: NDArray,
+    iter_lim: int,
+    z_old: NDArray,
+    x0: NDArray,
+    kappa: float,
+    eps: float,
+    Reg: "LinearOperator",
+) -> NDArray:
+    r"""LSQR
+
+    This function uses LSQR to solve the inner iteration of SR3, given by
+
+    .. math::
+        \min_x \dfrac{1}{2}\Vert\begin{bmatrix}A\\ \sqrt{kappa}L\end{bmatrix}x
+        - \begin{bmatrix}b\\ \sqrt{kappa}w\Vert_2^2
+
+    LSQR is stopped when the maximum amount of iterations are reached or when
+    the stopping criterion is satisfied. There are no other stopping criteria,
+    hence the solver should not be used outside of the context of solving the
+    inner iteration of SR3.
+
+    Parameters
+    ----------
+    Op: :obj:`pylops.LinearOperator`
+        Forward operator. This is the stacked operator
+        :math:`\begin{bmatrix}A\\ \sqrt{kappa}L\end{bmatrix}`
+    data: :obj:`numpy.ndarray`
+        Data
+    iter_lim: :obj:`int`
+        Maximum number of iterations
+    z_old: :obj:`numpy.ndarray`
+        The previous outer iteration
+    x0: :obj:`numpy.ndarray`
+       initial guess
+    kappa: :obj:`float`
+        The regularization parameter for the inner iteration
+    eps: :obj:`float`
+        The regularization parameter for the outer iteration
+    Reg: :obj:`numpy.ndarray`
+        The regularization operator L
+
+    Returns
+    -------
+    x: :obj:`numpy.ndarray`
+        Approximate solution
+
+    """
+    data -= Op.matvec(x0)
+    x = x0
+    beta = np.linalg.norm(data)
+    if beta == 0.0:
+        # x0 solves the system exactly
+        return x
+    u = data / beta
+    v = Op.rmatvec(u)
+    alpha = np.linalg.norm(v)
+    if alpha == 0.0:
+        # x0 is already a least-squares solution
+        return x
+    v = v / alpha
+    w = v
+    phi_bar = beta
+    rho_bar = alpha
+    for _ in range(iter_lim):
+        u = Op.matvec(v) - alpha * u
+        beta = np.linalg.norm(u)
+        if beta > 0.0:
+            u = u / beta
+        v = Op.rmatvec(u) - beta * v
+        alpha = np.linalg.norm(v)
+        if alpha > 0.0:
+            v = v / alpha
+        rho = np.sqrt(rho_bar**2 + beta**2)
+        c = rho_bar / rho
+        s = beta / rho
+        theta = s * alpha
+        rho_bar = -c * alpha
+        phi = c * phi_bar
+        phi_bar = s * phi_bar
+        x += (phi / rho) * w
+        temp = Reg.matvec(x)
+        z = np.sign(temp) * np.maximum(abs(temp) - eps / kappa, 0)
+        if np.linalg.norm(z - z_old) < 1e-6 * np.linalg.norm(z_old):
+            return x
+        if beta == 0.0 or alpha == 0.0:
+            # exact solution found
+            return x
+        w = v - (theta / rho) * w
+        z_old = z
+    return x
+
+
+def SR3(
+    Op: "LinearOperator",
+    Reg: "LinearOperator",
+    data: NDArray,
+    kappa: float,
+    eps: float,
+    x0: NDArray | None = None,
+    adaptive: bool = True,
+    iter_lim_outer: int = 100,
+    iter_lim_inner: int = 100,
+) -> NDArray:
+    r"""Sparse Relaxed Regularized Regression
+
+    Applies the Sparse Relaxed Regularized Regression (SR3) algorithm to
+    an inverse problem with a sparsity constraint of the form
+
+    .. math::
+
+        \min_x \dfrac{1}{2}\Vert \mathbf{Ax} - \mathbf{b}\Vert_2^2 +
+        \lambda\Vert \mathbf{Lx}\Vert_1
+
+    SR3 introduces an auxiliary variable :math:`\mathbf{z} = \mathbf{Lx}`,
+    and instead solves
+
+    .. math::
+
+        \min_{\mathbf{x},\mathbf{z}} \dfrac{1}{2}\Vert \mathbf{Ax} -
+        \mathbf{b}\Vert_2^2 + \lambda\Vert \mathbf{z}\Vert_1 +
+        \dfrac{\kappa}{2}\Vert \mathbf{Lx} - \mathbf{z}\Vert_2^2
+
+    Parameters
+    ----------
+    Op : :obj:`pylops.LinearOperator`
+        Forward operator
+    Reg : :obj:`numpy.ndarray`
+        Regularization operator
+    data : :obj:`numpy.ndarray`
+        Data
+    kappa : :obj:`float`
+        Parameter controlling the difference between :math:`\mathbf{z}`
+        and :math:`\mathbf{Lx}`
+    eps : :obj:`float`
+        Regularization parameter
+    x0 : :obj:`numpy.ndarray`, optional
+        Initial guess
+    adaptive : :obj:`bool`, optional
+        Use adaptive SR3 with a stopping criterion for the inner iterations
+        or not
+    iter_lim_outer : :obj:`int`, optional
+        Maximum number of iterations for the outer iteration
+    iter_lim_inner : :obj:`int`, optional
+        Maximum number of iterations for the inner iteration
+
+    Returns
+    -------
+    x: :obj:`numpy.ndarray`
+        Approximate solution.
+
+    Notes
+    -----
+    SR3 uses the following algorithm:
+
+        .. math::
+            \mathbf{x}_{k+1} = (\mathbf{A}^T\mathbf{A} + \kappa
+            \mathbf{L}^T\mathbf{L})^{-1}(\mathbf{A}^T\mathbf{b} +
+            \kappa \mathbf{L}^T\mathbf{y}_k) \\
+            \mathbf{y}_{k+1} = \prox_{\lambda/\kappa\mathcal{R}}
+            (\mathbf{Lx}_{k+1})
+
+    """
+    (m, n) = Op.shape
+    if x0 is None:
+        x0 = np.zeros(n)
+    x = x0.copy()
+    p = Reg.shape[0]
+    v = np.zeros(p)
+    w = v
+    eta = 1 / kappa
+    theta = 1
+    AL = pylops.VStack([Op, np.sqrt(kappa) * Reg])
+    for _ in range(iter_lim_outer):
+        # Compute the inner iteration
+        if adaptive:
+            x = _lsqr(
+                AL,
+                np.concatenate((data, np.sqrt(kappa) * v)),
+                iter_lim_inner,
+                v,
+                x,
+                kappa,
+                eps,
+                Reg,
+            )
+        else:
+            x = sp_lsqr(
+                AL,
+                np.concatenate((data, np.sqrt(kappa) * v)),
+                iter_lim=iter_lim_inner,
+                x0=x,
+            )[0]
+        # Compute the outer iteration
+        w_old = w
+        temp = Reg.matvec(x)
+        w = np.sign(temp) * np.maximum(abs(temp) - eta * eps, 0)
+        err1 = float(np.linalg.norm(v - w)) / max(1.0, float(np.linalg.norm(w)))
+        if err1 < 1e-6:
+            return x
+        theta = 2 / (1 + np.sqrt(1 + 4 / (theta**2)))
+        v = w + (1 - theta) * (w - w_old)
+    return x
-- 
2.43.0


From 47ac5c9a8454f38f18e0aa75b2e3fb16bd71c431 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:34 +0000
Subject: [PATCH 57/61] fix: TV stopping criterion uses the objective of the
 problem being solved

---
 pyproximal/proximal/TV.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyproximal/proximal/TV.py b/pyproximal/proximal/TV.py
index 8a59871..a34be5a 100644
--- a/pyproximal/proximal/TV.py
+++ b/pyproximal/proximal/TV.py
@@ -299,7 +299,8 @@ class TV(ProxOperator):
             sol = x - gamma * div
 
             #  Objective function value
-            obj = 0.5 * np.power(np.linalg.norm(x[:] - sol[:]), 2) + gamma * np.sum(
+            # (note that the functional already includes sigma)
+            obj = 0.5 * np.power(np.linalg.norm(x[:] - sol[:]), 2) + tau * np.sum(
                 self.__call__(sol), axis=0
             )
             if obj > 1e-10:
-- 
2.43.0


From 30a0862659efbad4812e5d809f577d1ab5880232 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:04 +0000
Subject: [PATCH 58/61] fix: GeneralizedProximalGradient with a real start of a
 complex problem

---
 pyproximal/optimization/primal.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pyproximal/optimization/primal.py b/pyproximal/optimization/primal.py
index 5cc06ee..2bab97a 100644
--- a/pyproximal/optimization/primal.py
+++ b/pyproximal/optimization/primal.py
@@ -863,15 +863,15 @@ def GeneralizedProximalGradient(
         # gradient
         grad = np.zeros_like(x)
         for _, proxf in enumerate(proxfs):
-            grad += proxf.grad(x)
+            grad = grad + proxf.grad(x)
 
         # proximal step
         x = np.zeros_like(x)
         for i, proxg in enumerate(proxgs):
             ztmp = 2 * y - zs[i] - tau * grad
             ztmp = proxg.prox(ztmp, tau * epsg[i] / weights[i])
-            zs[i] += eta * (ztmp - y)
-            x += weights[i] * zs[i]
+            zs[i] = zs[i] + eta * (ztmp - y)
+            x = x + weights[i] * zs[i]
 
         # update y
         if acceleration == "vandenberghe":
-- 
2.43.0


From ae9cadf4fdea440391edc7ade78a0e6e48a6b20a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:47:57 +0000
Subject: [PATCH 59/61] fix: ProximalPoint with a tolerance no longer divides
 by a zero objective

---
 pyproximal/optimization/primal.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyproximal/optimization/primal.py b/pyproximal/optimization/primal.py
index 2bab97a..0831bac 100644
--- a/pyproximal/optimization/primal.py
+++ b/pyproximal/optimization/primal.py
@@ -187,7 +187,7 @@ def ProximalPoint(
         if tol is not None:
             pfold = pf
             pf = prox(x)
-            if np.abs(1.0 - pf / pfold) < tol:
+            if np.abs(pfold - pf) < tol * np.abs(pfold):
                 tolbreak = True
 
         # show iteration logger
-- 
2.43.0


From 6e47fe14b0daebe3cf45ee012db7968cfaa53244 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:00:36 +0000
Subject: [PATCH 60/61] fix: evaluate affine addition of complex vectors
 consistently with its prox and gradient

---
 pyproximal/ProxOperator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyproximal/ProxOperator.py b/pyproximal/ProxOperator.py
index 8d44c62..22fbb6f 100644
--- a/pyproximal/ProxOperator.py
+++ b/pyproximal/ProxOperator.py
@@ -345,7 +345,7 @@ class _SumOperator(ProxOperator):
         super().__init__(None, f.hasgrad)
 
     def __call__(self, x: NDArray) -> float:
-        f: float = self.f(x) + np.dot(self.v, x)
+        f: float = self.f(x) + np.real(np.vdot(self.v, x))
         return f
 
     @_check_tau
-- 
2.43.0


From f56fe2a05af69643560d04f4ced1103737b4487d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:00:36 +0000
Subject: [PATCH 61/61] fix: evaluate dot-product term of L2 consistently with
 its prox and gradient for complex vectors

---
 pyproximal/proximal/L2.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyproximal/proximal/L2.py b/pyproximal/proximal/L2.py
index 6a587df..247d6f5 100644
--- a/pyproximal/proximal/L2.py
+++ b/pyproximal/proximal/L2.py
@@ -199,7 +199,7 @@ class L2(ProxOperator):
         else:
             f = (self.sigma / 2.0) * (np.linalg.norm(x) ** 2)
         if self.q is not None:
-            f += self.alpha * np.dot(self.q, x)
+            f += self.alpha * np.real(np.vdot(self.q, x))
         return float(f)
 
     def _increment_count(func: Callable[..., Any]) -> Callable[..., Any]:
-- 
2.43.0

