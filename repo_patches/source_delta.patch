From e3004c171d2ee8d4e2283a8a39730937fb714fa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:06:51 +0000
Subject: [PATCH 01/53] fix: Observable.remove_observer called a method that
 does not exist

---
 src/modopt/base/observable.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/modopt/base/observable.py b/src/modopt/base/observable.py
index bf8371c..5d76f7b 100644
--- a/src/modopt/base/observable.py
+++ b/src/modopt/base/observable.py
@@ -72,7 +72,7 @@ class Observable:
             An obervation function to be removed
 
         """
-        self._is_allowed_event(signal)
+        self._is_allowed_signal(signal)
         self._remove_observer(signal, observer)
 
     def notify_observers(self, signal, **kwargs):
-- 
2.43.0


From f833419f75777327ec40eca419e2bd18c1a4156e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:06:51 +0000
Subject: [PATCH 02/53] fix: Observable.notify_observers stayed locked after an
 error and never returned True

---
 src/modopt/base/observable.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/modopt/base/observable.py b/src/modopt/base/observable.py
index 5d76f7b..7f7c609 100644
--- a/src/modopt/base/observable.py
+++ b/src/modopt/base/observable.py
@@ -105,10 +105,14 @@ class Observable:
         for name, key_value in kwargs.items():
             setattr(signal_to_be_notified, name, key_value)
         # Notify all the observers
-        for observer in self._observers[signal]:
-            observer(signal_to_be_notified)
-        # Unlock the notification process
-        self._locked = False
+        try:
+            for observer in self._observers[signal]:
+                observer(signal_to_be_notified)
+        finally:
+            # Unlock the notification process
+            self._locked = False
+
+        return True
 
     def _get_allowed_signals(self):
         """Get allowed signals.
-- 
2.43.0


From 52ab3dc9b781850fc8402345467f1c1095b67823 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:06:51 +0000
Subject: [PATCH 03/53] fix: metric_call_period was ignored (condition was a
 one-element tuple)

---
 src/modopt/opt/algorithms/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/modopt/opt/algorithms/base.py b/src/modopt/opt/algorithms/base.py
index f739106..4a49fc6 100644
--- a/src/modopt/opt/algorithms/base.py
+++ b/src/modopt/opt/algorithms/base.py
@@ -273,7 +273,7 @@ class SetUp(Observable):
                 metric_conditions = (
                     self.idx % self.metric_call_period == 0
                     or self.idx == (max_iter - 1)
-                    or self.converge,
+                    or self.converge
                 )
 
                 if metric_conditions:
-- 
2.43.0


From a6b931ff32d3a34c0009712d968b04f98a4c8fcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:06:51 +0000
Subject: [PATCH 04/53] fix: GenForwardBackward ignored metric-based early
 stopping

---
 src/modopt/opt/algorithms/forward_backward.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/modopt/opt/algorithms/forward_backward.py b/src/modopt/opt/algorithms/forward_backward.py
index 31927eb..5b5f9f5 100644
--- a/src/modopt/opt/algorithms/forward_backward.py
+++ b/src/modopt/opt/algorithms/forward_backward.py
@@ -741,7 +741,9 @@ class GenForwardBackward(SetUp):
 
         # Test cost function for convergence.
         if self._cost_func:
-            self.converge = self._cost_func.get_cost(self._x_new)
+            self.converge = self.any_convergence_flag() or self._cost_func.get_cost(
+                self._x_new
+            )
 
     def iterate(self, max_iter=150, progbar=None):
         """Iterate.
-- 
2.43.0


From 12a20b1b35a732689553f30ad1ab2cae899d487d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:06:51 +0000
Subject: [PATCH 05/53] fix: metric-based early stopping was ignored when no
 cost function is given

---
 src/modopt/opt/algorithms/admm.py             | 4 ++++
 src/modopt/opt/algorithms/forward_backward.py | 6 ++++++
 src/modopt/opt/algorithms/gradient_descent.py | 2 ++
 src/modopt/opt/algorithms/primal_dual.py      | 2 ++
 4 files changed, 14 insertions(+)

diff --git a/src/modopt/opt/algorithms/admm.py b/src/modopt/opt/algorithms/admm.py
index b2f4517..08df68e 100644
--- a/src/modopt/opt/algorithms/admm.py
+++ b/src/modopt/opt/algorithms/admm.py
@@ -172,6 +172,8 @@ class ADMM(SetUp):
         if self._cost_func:
             self.converge = self.any_convergence_flag()
             self.converge |= self._cost_func.get_cost(self._u_new, self._v_new)
+        else:
+            self.converge = self.any_convergence_flag()
 
     def iterate(self, max_iter=150):
         """Iterate.
@@ -338,3 +340,5 @@ class FastADMM(ADMM):
         if self._cost_func:
             self.converge = self.any_convergence_flag()
             self.convergd |= self._cost_func.get_cost(self._u_new, self._v_new)
+        else:
+            self.converge = self.any_convergence_flag()
diff --git a/src/modopt/opt/algorithms/forward_backward.py b/src/modopt/opt/algorithms/forward_backward.py
index 5b5f9f5..0498197 100644
--- a/src/modopt/opt/algorithms/forward_backward.py
+++ b/src/modopt/opt/algorithms/forward_backward.py
@@ -463,6 +463,8 @@ class ForwardBackward(SetUp):
             self.converge = self.any_convergence_flag() or self._cost_func.get_cost(
                 self._x_new
             )
+        else:
+            self.converge = self.any_convergence_flag()
 
     def iterate(self, max_iter=150, progbar=None):
         """Iterate.
@@ -744,6 +746,8 @@ class GenForwardBackward(SetUp):
             self.converge = self.any_convergence_flag() or self._cost_func.get_cost(
                 self._x_new
             )
+        else:
+            self.converge = self.any_convergence_flag()
 
     def iterate(self, max_iter=150, progbar=None):
         """Iterate.
@@ -993,6 +997,8 @@ class POGM(SetUp):
             self.converge = self.any_convergence_flag() or self._cost_func.get_cost(
                 self._x_new
             )
+        else:
+            self.converge = self.any_convergence_flag()
 
     def iterate(self, max_iter=150, progbar=None):
         """Iterate.
diff --git a/src/modopt/opt/algorithms/gradient_descent.py b/src/modopt/opt/algorithms/gradient_descent.py
index 0960be5..a35dfa4 100644
--- a/src/modopt/opt/algorithms/gradient_descent.py
+++ b/src/modopt/opt/algorithms/gradient_descent.py
@@ -159,6 +159,8 @@ class GenericGradOpt(SetUp):
             self.converge = self.any_convergence_flag() or self._cost_func.get_cost(
                 self._x_new
             )
+        else:
+            self.converge = self.any_convergence_flag()
 
     def _update_grad_dir(self, grad):
         """Update the gradient descent direction.
diff --git a/src/modopt/opt/algorithms/primal_dual.py b/src/modopt/opt/algorithms/primal_dual.py
index fee49a2..ff7a9a1 100644
--- a/src/modopt/opt/algorithms/primal_dual.py
+++ b/src/modopt/opt/algorithms/primal_dual.py
@@ -218,6 +218,8 @@ class Condat(SetUp):
             self.converge = self.any_convergence_flag() or self._cost_func.get_cost(
                 self._x_new, self._y_new
             )
+        else:
+            self.converge = self.any_convergence_flag()
 
     def iterate(self, max_iter=150, n_rewightings=1, progbar=None):
         """Iterate.
-- 
2.43.0


From 4bdf1270ff100f591ba5cd73864c5b02cc052495 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:06:51 +0000
Subject: [PATCH 06/53] fix: FastADMM raised AttributeError whenever a cost
 function was given

---
 src/modopt/opt/algorithms/admm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/modopt/opt/algorithms/admm.py b/src/modopt/opt/algorithms/admm.py
index 08df68e..fdd3f96 100644
--- a/src/modopt/opt/algorithms/admm.py
+++ b/src/modopt/opt/algorithms/admm.py
@@ -339,6 +339,6 @@ class FastADMM(ADMM):
         # Test cost function for convergence.
         if self._cost_func:
             self.converge = self.any_convergence_flag()
-            self.convergd |= self._cost_func.get_cost(self._u_new, self._v_new)
+            self.converge |= self._cost_func.get_cost(self._u_new, self._v_new)
         else:
             self.converge = self.any_convergence_flag()
-- 
2.43.0


From f7b128209d9e7a950a7d32490d807dfb573e69e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:06:51 +0000
Subject: [PATCH 07/53] fix: FastADMM ignored its initial v and its tau

---
 src/modopt/opt/algorithms/admm.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/modopt/opt/algorithms/admm.py b/src/modopt/opt/algorithms/admm.py
index fdd3f96..3055cf3 100644
--- a/src/modopt/opt/algorithms/admm.py
+++ b/src/modopt/opt/algorithms/admm.py
@@ -285,12 +285,13 @@ class FastADMM(ADMM):
     ):
         super().__init__(
             u=u,
-            v=b,
+            v=v,
             mu=mu,
             A=A,
             B=B,
             b=b,
             optimizers=optimizers,
+            tau=tau,
             cost_funcs=cost_funcs,
             **kwargs,
         )
-- 
2.43.0


From 5ecffe63e2f6d159d94edf3c35868ddac666d627 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:06:51 +0000
Subject: [PATCH 08/53] fix: ADMMcostObj could not be configured with keyword
 arguments

---
 src/modopt/opt/algorithms/admm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/modopt/opt/algorithms/admm.py b/src/modopt/opt/algorithms/admm.py
index 3055cf3..bcb2040 100644
--- a/src/modopt/opt/algorithms/admm.py
+++ b/src/modopt/opt/algorithms/admm.py
@@ -33,7 +33,7 @@ class ADMMcostObj(CostParent):
     """
 
     def __init__(self, cost_funcs, A, B, b, tau, **kwargs):
-        super().__init__(*kwargs)
+        super().__init__(**kwargs)
         self.cost_funcs = cost_funcs
         self.A = A
         self.B = B
-- 
2.43.0


From f272f5e30a860ddf52eb8cde452ef46a99fbdabb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:06:51 +0000
Subject: [PATCH 09/53] fix: ADMMcostObj did not square the constraint residual
 norm

---
 src/modopt/opt/algorithms/admm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/modopt/opt/algorithms/admm.py b/src/modopt/opt/algorithms/admm.py
index bcb2040..ef49fdb 100644
--- a/src/modopt/opt/algorithms/admm.py
+++ b/src/modopt/opt/algorithms/admm.py
@@ -61,7 +61,7 @@ class ADMMcostObj(CostParent):
         xp = get_array_module(u)
         cost = self.cost_funcs[0](u)
         cost += self.cost_funcs[1](v)
-        cost += self.tau * xp.linalg.norm(self.A.op(u) + self.B.op(v) - self.b)
+        cost += self.tau * xp.linalg.norm(self.A.op(u) + self.B.op(v) - self.b) ** 2
         return cost
 
 
-- 
2.43.0


From 7bd1f88b752de1c00693db0272f9403da813606a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:07:31 +0000
Subject: [PATCH 10/53] fix: FastADMM restart point was overwritten by the
 current iterate

---
 src/modopt/opt/algorithms/admm.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/modopt/opt/algorithms/admm.py b/src/modopt/opt/algorithms/admm.py
index ef49fdb..2a740ef 100644
--- a/src/modopt/opt/algorithms/admm.py
+++ b/src/modopt/opt/algorithms/admm.py
@@ -330,8 +330,8 @@ class FastADMM(ADMM):
         else:
             # reboot to old iteration
             self._alpha_new = 1
-            self._v_hat = self._v_old
-            self._mu_hat = self._mu_old
+            self._v_hat = self.xp.copy(self._v_old)
+            self._mu_hat = self.xp.copy(self._mu_old)
             self._c_new = self._c_old / self._eta
 
         self.xp.copyto(self._u_old, self._u_new)
-- 
2.43.0


From 590a861dd5a3ad9bf6fbed9b37569c0610b8a2c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:07:31 +0000
Subject: [PATCH 11/53] fix: FastADMM never advanced its acceleration and
 restart state (Goldstein2014, Alg. 8)

---
 src/modopt/opt/algorithms/admm.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/modopt/opt/algorithms/admm.py b/src/modopt/opt/algorithms/admm.py
index 2a740ef..d6a07d8 100644
--- a/src/modopt/opt/algorithms/admm.py
+++ b/src/modopt/opt/algorithms/admm.py
@@ -323,8 +323,8 @@ class FastADMM(ADMM):
             self.B.op(self._v_new - self._v_hat),
         )
         if self._c_new < self._eta * self._c_old:
-            self._alpha_new = 1 + np.sqrt(1 + 4 * self._alpha_old**2)
-            beta = (self._alpha_new - 1) / self._alpha_old
+            self._alpha_new = (1 + np.sqrt(1 + 4 * self._alpha_old**2)) / 2
+            beta = (self._alpha_old - 1) / self._alpha_new
             self._v_hat = self._v_new + (self._v_new - self._v_old) * beta
             self._mu_hat = self._mu_new + (self._mu_new - self._mu_old) * beta
         else:
@@ -337,6 +337,8 @@ class FastADMM(ADMM):
         self.xp.copyto(self._u_old, self._u_new)
         self.xp.copyto(self._v_old, self._v_new)
         self.xp.copyto(self._mu_old, self._mu_new)
+        self._alpha_old = self._alpha_new
+        self._c_old = self._c_new
         # Test cost function for convergence.
         if self._cost_func:
             self.converge = self.any_convergence_flag()
-- 
2.43.0


From e7557f75443e89a1a8fde7892dd98140c1a75e87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:10:52 +0000
Subject: [PATCH 12/53] fix: PowerMethod ignored its rng argument

---
 src/modopt/math/matrix.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/modopt/math/matrix.py b/src/modopt/math/matrix.py
index b200f15..b1de5f5 100644
--- a/src/modopt/math/matrix.py
+++ b/src/modopt/math/matrix.py
@@ -309,7 +309,7 @@ class PowerMethod:
         self._verbose = verbose
         xp, compute_backend = get_backend(compute_backend)
         self.xp = xp
-        self.rng = None
+        self.rng = rng
         self.compute_backend = compute_backend
         if auto_run:
             self.get_spec_rad()
-- 
2.43.0


From 82c1e92c35f10cefdd3b57ab6249a66d36fde0d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:10:52 +0000
Subject: [PATCH 13/53] fix: KSupportNorm proximity operator ignored
 extra_factor when computing theta

---
 src/modopt/opt/proximity.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/modopt/opt/proximity.py b/src/modopt/opt/proximity.py
index dea862c..2b94961 100644
--- a/src/modopt/opt/proximity.py
+++ b/src/modopt/opt/proximity.py
@@ -1237,7 +1237,9 @@ class KSupportNorm(ProximityParent):
         alpha = self._find_alpha(np.abs(input_data.flatten()), extra_factor)
 
         # Computes line 4. in Algorithm 1
-        theta = self._compute_theta(np.abs(input_data.flatten()), alpha)
+        theta = self._compute_theta(
+            np.abs(input_data.flatten()), alpha, extra_factor
+        )
 
         # Computes line 5. in Algorithm 1.
         rslt = np.nan_to_num(
-- 
2.43.0


From 1ce8f8eb2fa397d85d9cc037dd94149f32c54cf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:10:52 +0000
Subject: [PATCH 14/53] fix: svd_thresh printed debugging output

---
 src/modopt/signal/svd.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/modopt/signal/svd.py b/src/modopt/signal/svd.py
index cf14750..ed771f9 100644
--- a/src/modopt/signal/svd.py
+++ b/src/modopt/signal/svd.py
@@ -168,7 +168,6 @@ def svd_thresh(input_data, threshold=None, n_pc=None, thresh_type="hard"):
         # Find the required number of principal components if not specified.
         if isinstance(n_pc, type(None)):
             n_pc = find_n_pc(u_vec, factor=0.1)
-            print("xxxx", n_pc, u_vec)
 
         # If the number of PCs is too large use all of the singular values.
         if (isinstance(n_pc, int) and n_pc >= s_values.size) or (
-- 
2.43.0


From c35b476d18a728168b61aa5b33c309951765ff77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:10:52 +0000
Subject: [PATCH 15/53] fix: svd_thresh_coef modified the caller's threshold
 array

---
 src/modopt/signal/svd.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/modopt/signal/svd.py b/src/modopt/signal/svd.py
index ed771f9..799c6ce 100644
--- a/src/modopt/signal/svd.py
+++ b/src/modopt/signal/svd.py
@@ -295,7 +295,7 @@ def svd_thresh_coef(input_data, operator, threshold, thresh_type="hard"):
     ti = np.array(
         [np.linalg.norm(elem) for elem in operator(matrix2cube(u_vec, array_shape))]
     )
-    threshold *= np.repeat(ti, a_matrix.shape[1]).reshape(a_matrix.shape)
+    threshold = threshold * np.repeat(ti, a_matrix.shape[1]).reshape(a_matrix.shape)
 
     # Threshold coefficients.
     a_new = thresh(a_matrix, threshold, thresh_type)
-- 
2.43.0


From 4a31bf1427ace9e96357985018f375bd048b4e7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:10:52 +0000
Subject: [PATCH 16/53] fix: svd_thresh_coef_fast failed or dropped singular
 values for full-rank and zero-rank data

---
 src/modopt/signal/svd.py | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/src/modopt/signal/svd.py b/src/modopt/signal/svd.py
index 799c6ce..0046c22 100644
--- a/src/modopt/signal/svd.py
+++ b/src/modopt/signal/svd.py
@@ -226,13 +226,20 @@ def svd_thresh_coef_fast(
         The thresholded data (numpy.ndarray) and the estimated rank after
         thresholding (int)
     """
-    if n_vals == -1:
-        n_vals = min(input_data.shape) - 1
+    max_vals = min(input_data.shape)
+    if n_vals is None or n_vals == -1:
+        n_vals = max_vals
+    n_vals = max(n_vals, 1)
     ok = False
     while not ok:
-        (u_vec, s_values, v_vec) = svds(input_data, k=n_vals)
-        ok = s_values[0] <= threshold or n_vals == min(input_data.shape) - 1
-        n_vals = min(n_vals + extra_vals, *input_data.shape)
+        if n_vals < max_vals:
+            (u_vec, s_values, v_vec) = svds(input_data, k=n_vals)
+        else:
+            # svds cannot compute all the singular values
+            (u_vec, s_values, v_vec) = calculate_svd(input_data)
+            u_vec, s_values, v_vec = u_vec[:, ::-1], s_values[::-1], v_vec[::-1]
+        ok = s_values[0] <= threshold or n_vals >= max_vals
+        n_vals = min(n_vals + extra_vals, max_vals)
 
     s_values = thresh(
         s_values,
-- 
2.43.0


From 72ac3792e1fa536afa18b7d58798b5b0fdb2bf07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:10:52 +0000
Subject: [PATCH 17/53] fix: matrix2map truncated its data to integers

---
 src/modopt/base/transform.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/modopt/base/transform.py b/src/modopt/base/transform.py
index 25ed102..6dca497 100644
--- a/src/modopt/base/transform.py
+++ b/src/modopt/base/transform.py
@@ -236,7 +236,7 @@ def matrix2map(data_matrix, map_shape):
     layout = np.array(map_shape // np.repeat(image_shape, 2), dtype="int")
 
     # Map objects from matrix
-    data_map = np.zeros(map_shape)
+    data_map = np.zeros(map_shape, dtype=data_matrix.dtype)
 
     temp = data_matrix.reshape(image_shape, image_shape, data_matrix.shape[1])
 
@@ -251,7 +251,7 @@ def matrix2map(data_matrix, map_shape):
         )
         data_map[lower[0] : upper[0], lower[1] : upper[1]] = temp[:, :, i_elem]
 
-    return data_map.astype(int)
+    return data_map
 
 
 def cube2matrix(data_cube):
-- 
2.43.0


From 73cb2590726dd81da4331826588f853949198f16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:10:52 +0000
Subject: [PATCH 18/53] fix: map2cube accepted layouts that do not divide the
 map, dropping pixels

---
 src/modopt/base/transform.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/modopt/base/transform.py b/src/modopt/base/transform.py
index 6dca497..587f733 100644
--- a/src/modopt/base/transform.py
+++ b/src/modopt/base/transform.py
@@ -113,7 +113,7 @@ def map2cube(data_map, layout):
     cube2map : complimentary function
 
     """
-    if np.all(np.array(data_map.shape) % np.array(layout)):
+    if np.any(np.array(data_map.shape) % np.array(layout)):
         raise ValueError(
             "The desired layout must be a multiple of the number "
             + "pixels in the data map.",
-- 
2.43.0


From 78cae755b0331daaed0fe39c9e84fd8a9b64b39b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:10:52 +0000
Subject: [PATCH 19/53] fix: check_npndarray raised a tuple instead of its
 TypeError

---
 src/modopt/base/types.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/modopt/base/types.py b/src/modopt/base/types.py
index 9e9a15b..73e3d19 100644
--- a/src/modopt/base/types.py
+++ b/src/modopt/base/types.py
@@ -161,10 +161,8 @@ def check_npndarray(input_obj, dtype=None, writeable=True, verbose=True):
     if (not isinstance(dtype, type(None))) and (
         not np.issubdtype(input_obj.dtype, dtype)
     ):
-        raise (
-            TypeError(
-                f"The numpy array elements are not of type: {dtype}",
-            ),
+        raise TypeError(
+            f"The numpy array elements are not of type: {dtype}",
         )
 
     if not writeable and verbose and input_obj.flags.writeable:
-- 
2.43.0


From 3204fe6bbb10e8e167e98fd4209b77097c3ab94c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:10:52 +0000
Subject: [PATCH 20/53] fix: FISTA raised TypeError instead of its ValueError
 for an invalid restart strategy

---
 src/modopt/opt/algorithms/forward_backward.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/modopt/opt/algorithms/forward_backward.py b/src/modopt/opt/algorithms/forward_backward.py
index 0498197..794454d 100644
--- a/src/modopt/opt/algorithms/forward_backward.py
+++ b/src/modopt/opt/algorithms/forward_backward.py
@@ -104,7 +104,7 @@ class FISTA:
             message = "Restarting strategy must be one of {0}."
             raise ValueError(
                 message.format(
-                    ", ".join(self._restarting_strategies),
+                    ", ".join(str(strat) for strat in self._restarting_strategies),
                 ),
             )
         self._t_now = 1.0
-- 
2.43.0


From d2de029eb2cc6ed2633e00d9f667b316335ae58f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:10:52 +0000
Subject: [PATCH 21/53] fix: POGM overwrote the gradient array owned by the
 gradient operator

---
 src/modopt/opt/algorithms/forward_backward.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/modopt/opt/algorithms/forward_backward.py b/src/modopt/opt/algorithms/forward_backward.py
index 794454d..c874f28 100644
--- a/src/modopt/opt/algorithms/forward_backward.py
+++ b/src/modopt/opt/algorithms/forward_backward.py
@@ -923,7 +923,7 @@ class POGM(SetUp):
         self._sigma = 1.0
         self._t_old = 1.0
         self._grad.get_grad(self._x_old)
-        self._g_old = self._grad.grad
+        self._g_old = self.xp.copy(self._grad.grad)
 
         # Automatically run the algorithm
         if auto_iterate:
-- 
2.43.0


From 4181bd6e4c6494336af21e4dfab9f826bcca1a39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:10:52 +0000
Subject: [PATCH 22/53] fix: ForwardBackward silently ignored beta_update with
 the default lambda_update

---
 src/modopt/opt/algorithms/forward_backward.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/modopt/opt/algorithms/forward_backward.py b/src/modopt/opt/algorithms/forward_backward.py
index c874f28..c72abb1 100644
--- a/src/modopt/opt/algorithms/forward_backward.py
+++ b/src/modopt/opt/algorithms/forward_backward.py
@@ -402,7 +402,8 @@ class ForwardBackward(SetUp):
             fista = FISTA(**kwargs)
             self._lambda_update = fista.update_lambda
             self._is_restart = fista.is_restart
-            self._beta_update = fista.update_beta
+            if beta_update is None:
+                self._beta_update = fista.update_beta
         else:
             self._check_param_update(lambda_update)
             self._lambda_update = lambda_update
-- 
2.43.0


From 56cbe15d2bb2413e120124842878fbdfe424dddf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:10:52 +0000
Subject: [PATCH 23/53] fix: close_log skipped handlers and left the log file
 open

---
 src/modopt/interface/log.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/modopt/interface/log.py b/src/modopt/interface/log.py
index 50c316b..fcafcdd 100644
--- a/src/modopt/interface/log.py
+++ b/src/modopt/interface/log.py
@@ -78,5 +78,6 @@ def close_log(log, verbose=True):
     log.info("The log file has been closed.")
 
     # Remove all handlers from log.
-    for log_handler in log.handlers:
+    for log_handler in list(log.handlers):
         log.removeHandler(log_handler)
+        log_handler.close()
-- 
2.43.0


From 22e48b2b48d1c30aecb3fe7044ec0c1e794ef201 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:10:52 +0000
Subject: [PATCH 24/53] fix: cwbReweight dropped the imaginary part of complex
 data

---
 src/modopt/opt/reweight.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/modopt/opt/reweight.py b/src/modopt/opt/reweight.py
index 4a9bf44..fd0dfb4 100644
--- a/src/modopt/opt/reweight.py
+++ b/src/modopt/opt/reweight.py
@@ -82,6 +82,9 @@ class cwbReweight:
 
         self._rw_num += 1
 
+        if np.iscomplexobj(input_data):
+            input_data = np.abs(input_data)
+
         input_data = check_float(input_data)
 
         if input_data.shape != self.weights.shape:
-- 
2.43.0


From 08cfa8d86a1de26812e5bb69f8b1308a21d8086b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:10:52 +0000
Subject: [PATCH 25/53] fix: positive failed on ragged nested lists

---
 src/modopt/signal/positivity.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/modopt/signal/positivity.py b/src/modopt/signal/positivity.py
index 8d7aa46..7bdded5 100644
--- a/src/modopt/signal/positivity.py
+++ b/src/modopt/signal/positivity.py
@@ -46,7 +46,9 @@ def pos_recursive(input_data):
 
     """
     if input_data.dtype == "O":
-        res = np.array([pos_recursive(elem) for elem in input_data], dtype="object")
+        res = np.empty_like(input_data)
+        for idx, elem in np.ndenumerate(input_data):
+            res[idx] = positive(elem, ragged=isinstance(elem, (list, tuple)))
 
     else:
         res = pos_thresh(input_data)
-- 
2.43.0


From eeee2d7d02e9b29561bb98cfc21b7ec700c4240a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:10:52 +0000
Subject: [PATCH 26/53] fix: call_mr_transform left temporary files behind when
 the call failed

---
 src/modopt/signal/wavelet.py | 48 +++++++++++++++++++-----------------
 1 file changed, 26 insertions(+), 22 deletions(-)

diff --git a/src/modopt/signal/wavelet.py b/src/modopt/signal/wavelet.py
index b55b78d..efdd707 100644
--- a/src/modopt/signal/wavelet.py
+++ b/src/modopt/signal/wavelet.py
@@ -18,6 +18,7 @@ Sparse2D Repository: https://github.com/CosmoStat/Sparse2D
 import subprocess as sp
 from datetime import datetime
 from os import remove
+from os.path import isfile
 from random import getrandbits
 
 import numpy as np
@@ -146,28 +147,31 @@ def call_mr_transform(
     # Write the input data to a fits file.
     fits.writeto(file_fits, input_data)
 
-    if isinstance(opt, str):
-        opt = opt.split()
-
-    # Prepare command and execute it
-    command_line = " ".join([executable, *opt, file_fits, file_mr])
-    stdout, _ = execute(command_line)
-
-    # Check for errors
-    if any(word in stdout for word in ("bad", "Error", "Sorry")):
-        remove(file_fits)
-        message = '{0} raised following exception: "{1}"'
-        raise RuntimeError(
-            message.format(executable, stdout.rstrip("\n")),
-        )
-
-    # Retrieve wavelet transformed data.
-    data_trans = fits.getdata(file_mr).astype(input_data.dtype)
-
-    # Remove the temporary files.
-    if remove_files:
-        remove(file_fits)
-        remove(file_mr)
+    try:
+        if isinstance(opt, str):
+            opt = opt.split()
+
+        # Prepare command and execute it
+        command_line = " ".join([executable, *opt, file_fits, file_mr])
+        stdout, _ = execute(command_line)
+
+        # Check for errors
+        if any(word in stdout for word in ("bad", "Error", "Sorry")):
+            remove(file_fits)
+            message = '{0} raised following exception: "{1}"'
+            raise RuntimeError(
+                message.format(executable, stdout.rstrip("\n")),
+            )
+
+        # Retrieve wavelet transformed data.
+        data_trans = fits.getdata(file_mr).astype(input_data.dtype)
+
+    finally:
+        # Remove the temporary files.
+        if remove_files:
+            for temp_file in (file_fits, file_mr):
+                if isfile(temp_file):
+                    remove(temp_file)
 
     # Return the mr_transform results.
     return data_trans
-- 
2.43.0


From dcb14808fcdd32c92bef5750b733c6b37f9599fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:10:52 +0000
Subject: [PATCH 27/53] fix: get_mr_filters could not return trimmed filters of
 different sizes

---
 src/modopt/signal/wavelet.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/modopt/signal/wavelet.py b/src/modopt/signal/wavelet.py
index efdd707..4111b97 100644
--- a/src/modopt/signal/wavelet.py
+++ b/src/modopt/signal/wavelet.py
@@ -246,7 +246,13 @@ def get_mr_filters(
     mr_filters = call_mr_transform(fake_data.astype(float), opt=opt)
 
     if trim:
-        mr_filters = np.array([trim_filter(filt) for filt in mr_filters])
+        trimmed = [trim_filter(filt) for filt in mr_filters]
+        if len({filt.shape for filt in trimmed}) == 1:
+            mr_filters = np.array(trimmed)
+        else:
+            mr_filters = np.empty(len(trimmed), dtype="object")
+            for index, filt in enumerate(trimmed):
+                mr_filters[index] = filt
 
     # Return filters
     if coarse:
-- 
2.43.0


From 7b821a98a2aab927349b68b162f812744bbce9b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:10:52 +0000
Subject: [PATCH 28/53] fix: WaveletTransform ignored mode on the CPU

---
 src/modopt/opt/linear/wavelet.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/modopt/opt/linear/wavelet.py b/src/modopt/opt/linear/wavelet.py
index 8012a07..18b8930 100644
--- a/src/modopt/opt/linear/wavelet.py
+++ b/src/modopt/opt/linear/wavelet.py
@@ -99,7 +99,7 @@ class WaveletTransform(LinearParent):
             )
         elif compute_backend == "numpy" and pywt_available:
             self.operator = CPUWaveletTransform(
-                wavelet_name=wavelet_name, shape=shape, level=level, **kwargs
+                wavelet_name=wavelet_name, shape=shape, level=level, mode=mode, **kwargs
             )
         else:
             raise ValueError(f"Compute Backend {compute_backend} not available")
-- 
2.43.0


From 5ba2fc67907560913237482028adfd6d8a2704be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:10:52 +0000
Subject: [PATCH 29/53] fix: batched WaveletTransform (n_batch > 1) always
 raised an exception

---
 src/modopt/opt/linear/wavelet.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/modopt/opt/linear/wavelet.py b/src/modopt/opt/linear/wavelet.py
index 18b8930..7421c38 100644
--- a/src/modopt/opt/linear/wavelet.py
+++ b/src/modopt/opt/linear/wavelet.py
@@ -161,6 +161,7 @@ class CPUWaveletTransform(LinearParent):
         decimated=True,
         backend="threading",
         mode="symmetric",
+        verbose=0,
     ):
         if not pywt_available:
             raise ImportError(
@@ -204,6 +205,7 @@ class CPUWaveletTransform(LinearParent):
             )
             self.n_jobs = 1
         self.backend = backend
+        self.verbose = verbose
         n_proc = self.n_jobs
         if n_proc < 0:
             n_proc = cpu_count() + self.n_jobs + 1
@@ -224,12 +226,13 @@ class CPUWaveletTransform(LinearParent):
             the wavelet coefficients.
         """
         if self.n_batch > 1:
-            coeffs, self.coeffs_slices, self.raw_coeffs_shape = zip(
+            coeffs, slices, shapes = zip(
                 *Parallel(
                     n_jobs=self.n_jobs, backend=self.backend, verbose=self.verbose
                 )(delayed(self._op)(data[i]) for i in np.arange(self.n_batch))
             )
             coeffs = np.asarray(coeffs)
+            self.coeffs_slices, self.raw_coeffs_shape = slices[0], shapes[0]
         else:
             coeffs, self.coeffs_slices, self.raw_coeffs_shape = self._op(data)
         return coeffs
@@ -259,8 +262,7 @@ class CPUWaveletTransform(LinearParent):
             images = Parallel(
                 n_jobs=self.n_jobs, backend=self.backend, verbose=self.verbose
             )(
-                delayed(self._adj_op)(coeffs[i], self.coeffs_shape[i])
-                for i in np.arange(self.n_batch)
+                delayed(self._adj_op)(coeffs[i]) for i in np.arange(self.n_batch)
             )
             images = np.asarray(images)
         else:
-- 
2.43.0


From 9f310d4b959fdcd127706b3a8974ce2ab65ba5f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:10:52 +0000
Subject: [PATCH 30/53] fix: WaveletTransform.adj_op could not be called before
 op

---
 src/modopt/opt/linear/wavelet.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/modopt/opt/linear/wavelet.py b/src/modopt/opt/linear/wavelet.py
index 7421c38..7fd3577 100644
--- a/src/modopt/opt/linear/wavelet.py
+++ b/src/modopt/opt/linear/wavelet.py
@@ -210,6 +210,9 @@ class CPUWaveletTransform(LinearParent):
         if n_proc < 0:
             n_proc = cpu_count() + self.n_jobs + 1
 
+        # Coefficient layout, so that adj_op can be called before op
+        _, self.coeffs_slices, self.raw_coeffs_shape = self._op(np.zeros(self.shape))
+
     def op(self, data):
         """Define the wavelet operator.
 
-- 
2.43.0


From 1a2ebcf41dc254929fe4a057a7f048fdab42169e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:12:14 +0000
Subject: [PATCH 31/53] fix: move_to_cpu raised AttributeError for tensorflow
 arrays

---
 src/modopt/base/backend.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/modopt/base/backend.py b/src/modopt/base/backend.py
index 485f649..2a65ee5 100644
--- a/src/modopt/base/backend.py
+++ b/src/modopt/base/backend.py
@@ -156,7 +156,7 @@ def move_to_cpu(input_data):
     elif xp == LIBRARIES["cupy"]:
         return input_data.get()
     elif xp == LIBRARIES["tensorflow"]:
-        return input_data.data.numpy()
+        return input_data.numpy()
     raise ValueError("Cannot identify the array type.")
 
 
-- 
2.43.0


From 4cc11a0d35141912555f0f113d206533cbc56da3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:46:16 +0000
Subject: [PATCH 32/53] fix: GenForwardBackward refused its own default weights
 when their sum was not exactly 1.0

---
 src/modopt/opt/algorithms/forward_backward.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/modopt/opt/algorithms/forward_backward.py b/src/modopt/opt/algorithms/forward_backward.py
index c72abb1..834d0bb 100644
--- a/src/modopt/opt/algorithms/forward_backward.py
+++ b/src/modopt/opt/algorithms/forward_backward.py
@@ -685,7 +685,7 @@ class GenForwardBackward(SetUp):
 
         expected_weight_sum = 1.0
 
-        if self.xp.sum(weights) != expected_weight_sum:
+        if not self.xp.isclose(self.xp.sum(weights), expected_weight_sum):
             raise ValueError(
                 "Proximity operator weights must sum to 1.0. Current sum of "
                 + f"weights = {self.xp.sum(weights)}",
-- 
2.43.0


From 1c58881f96fd74f132d96fb3c069a48b74460d1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:48:02 +0000
Subject: [PATCH 33/53] fix: FISTA momentum did not follow Alg. 10.7 of
 bauschke2009 (misplaced parenthesis in t_now)

---
 src/modopt/opt/algorithms/forward_backward.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/modopt/opt/algorithms/forward_backward.py b/src/modopt/opt/algorithms/forward_backward.py
index 834d0bb..bdc6e7d 100644
--- a/src/modopt/opt/algorithms/forward_backward.py
+++ b/src/modopt/opt/algorithms/forward_backward.py
@@ -276,7 +276,7 @@ class FISTA:
 
         if self.mode == "regular":
             sqrt_part = self.r_lazy * self._t_prev**2 + self.q_lazy
-            self._t_now = self.p_lazy + np.sqrt(sqrt_part) * 0.5
+            self._t_now = (self.p_lazy + np.sqrt(sqrt_part)) * 0.5
 
         elif self.mode == "CD":
             self._t_now = (self._n + self.a_cd - 1) / self.a_cd
-- 
2.43.0


From 2bae02bb77e2b4f56c966ec939e94d3cc69c5f35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:25:28 +0000
Subject: [PATCH 34/53] fix: KSupportNorm cost used the wrong split index q

---
 src/modopt/opt/proximity.py | 33 +++------------------------------
 1 file changed, 3 insertions(+), 30 deletions(-)

diff --git a/src/modopt/opt/proximity.py b/src/modopt/opt/proximity.py
index 2b94961..2ab6b4b 100644
--- a/src/modopt/opt/proximity.py
+++ b/src/modopt/opt/proximity.py
@@ -1273,38 +1273,11 @@ class KSupportNorm(ProximityParent):
         where :math:`w` is the input ``sorted_data`` and :math:`k \leq d`.
 
         """
-        first_idx = 0
-        last_idx = self._k_value - 1
-        found = False
-        q_val = (first_idx + last_idx) // 2
-        cnt = 0
-
-        # Particular case
-        if (sorted_data.sum() / (self._k_value)) >= sorted_data[0]:
-            found = True
-            q_val = 0
-
-        elif (sorted_data[self._k_value - 1 :].sum()) <= sorted_data[self._k_value - 1]:
-            found = True
-            q_val = self._k_value - 1
-
-        while (
-            not found
-            and not cnt == self._k_value
-            and (first_idx <= last_idx < self._k_value)
-        ):
-            q_val = (first_idx + last_idx) // 2
-            cnt += 1
+        for q_val in range(self._k_value):
             l1_part = sorted_data[q_val:].sum() / (self._k_value - q_val)
 
-            if sorted_data[q_val + 1] <= l1_part <= sorted_data[q_val]:
-                found = True
-
-            else:
-                if sorted_data[q_val] <= l1_part:
-                    last_idx = q_val
-                if l1_part <= sorted_data[q_val + 1]:
-                    first_idx = q_val
+            if l1_part >= sorted_data[q_val]:
+                break
 
         return q_val
 
-- 
2.43.0


From 044b61b22c0df028dc21f565feca42d5abf9720b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:25:55 +0000
Subject: [PATCH 35/53] fix: KSupportNorm proximity operator could count a
 coordinate twice (theta = 2) through rounding

---
 src/modopt/opt/proximity.py | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/src/modopt/opt/proximity.py b/src/modopt/opt/proximity.py
index 2ab6b4b..f32bfa4 100644
--- a/src/modopt/opt/proximity.py
+++ b/src/modopt/opt/proximity.py
@@ -991,12 +991,8 @@ class KSupportNorm(ProximityParent):
             np.expand_dims(alpha, -1),
             np.expand_dims(np.abs(input_data), -1).T,
         )
-        theta = np.zeros(alpha_input.shape)
         alpha_beta = alpha_input - self.beta * extra_factor
-        theta = alpha_beta * ((alpha_beta <= 1) & (alpha_beta >= 0))
-        theta = np.nan_to_num(theta)
-        theta += alpha_input > (self.beta * extra_factor + 1)
-        return theta
+        return np.nan_to_num(np.clip(alpha_beta, 0, 1))
 
     def _interpolate(self, alpha0, alpha1, sum0, sum1):
         r"""Linear interpolation of alpha (:math:`\alpha`).
-- 
2.43.0


From 6f9b0033f22d590a64895e7f82ad9fbb8f0cd61d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:32:41 +0000
Subject: [PATCH 36/53] fix: svd_thresh_coef_fast failed on an all-zero matrix

---
 src/modopt/signal/svd.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/modopt/signal/svd.py b/src/modopt/signal/svd.py
index 0046c22..ddbd26b 100644
--- a/src/modopt/signal/svd.py
+++ b/src/modopt/signal/svd.py
@@ -232,10 +232,10 @@ def svd_thresh_coef_fast(
     n_vals = max(n_vals, 1)
     ok = False
     while not ok:
-        if n_vals < max_vals:
+        if n_vals < max_vals and np.any(input_data):
             (u_vec, s_values, v_vec) = svds(input_data, k=n_vals)
         else:
-            # svds cannot compute all the singular values
+            # svds cannot compute all the singular values, nor handle zeros
             (u_vec, s_values, v_vec) = calculate_svd(input_data)
             u_vec, s_values, v_vec = u_vec[:, ::-1], s_values[::-1], v_vec[::-1]
         ok = s_values[0] <= threshold or n_vals >= max_vals
-- 
2.43.0


From 27cc0ec3e1fee8a2be9c10bb53c847a74f933c43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:38:35 +0000
Subject: [PATCH 37/53] fix: WaveletTransform.adj_op returned odd-sized axes
 with one element too many

---
 src/modopt/opt/linear/wavelet.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/modopt/opt/linear/wavelet.py b/src/modopt/opt/linear/wavelet.py
index 7fd3577..05c6f96 100644
--- a/src/modopt/opt/linear/wavelet.py
+++ b/src/modopt/opt/linear/wavelet.py
@@ -274,13 +274,15 @@ class CPUWaveletTransform(LinearParent):
 
     def _adj_op(self, coeffs):
         """Single coil inverse wavelet transform."""
-        return self.idwt(
+        data = self.idwt(
             pywt.unravel_coeffs(
                 coeffs, self.coeffs_slices, self.raw_coeffs_shape, self._pywt_fun
             ),
             wavelet=self.wavelet,
             mode=self.mode,
         )
+        # The inverse transform pads odd-sized axes with one extra element
+        return data[tuple(slice(size) for size in self.shape)]
 
 
 class TorchWaveletTransform:
-- 
2.43.0


From 0f3c006b30c35f25859693db174c9653cdeccb74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:54:20 +0000
Subject: [PATCH 38/53] fix: masked SNR, PSNR and NRMSE mixed differently
 normalised images

---
 src/modopt/math/metrics.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/modopt/math/metrics.py b/src/modopt/math/metrics.py
index befd4fa..f8873a0 100644
--- a/src/modopt/math/metrics.py
+++ b/src/modopt/math/metrics.py
@@ -158,9 +158,10 @@ def snr(test, ref, mask=None):
 
     if mask is not None:
         test = mask * test
+        ref = mask * ref
 
     num = np.mean(np.square(test))
-    deno = mse(test, ref)
+    deno = np.mean(np.square(test - ref))
 
     return 10.0 * np.log10(num / deno)
 
@@ -195,8 +196,8 @@ def psnr(test, ref, mask=None):
         test = mask * test
         ref = mask * ref
 
-    num = np.max(np.abs(test))
-    deno = mse(test, ref)
+    num = np.square(np.max(np.abs(test)))
+    deno = np.mean(np.square(test - ref))
 
     return 10.0 * np.log10(num / deno)
 
@@ -265,7 +266,7 @@ def nrmse(test, ref, mask=None):
         test = mask * test
         ref = mask * ref
 
-    num = np.sqrt(mse(test, ref))
+    num = np.sqrt(np.mean(np.square(test - ref)))
     deno = np.sqrt(np.mean(np.square(test)))
 
     return num / deno
-- 
2.43.0


From f6d0a65332b5e8744e152134bbee3a18d3122308 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:54:32 +0000
Subject: [PATCH 39/53] fix: stats.mse and stats.psnr overflowed on integer
 images

---
 src/modopt/math/stats.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/modopt/math/stats.py b/src/modopt/math/stats.py
index 8583a8c..7d82dad 100644
--- a/src/modopt/math/stats.py
+++ b/src/modopt/math/stats.py
@@ -78,6 +78,12 @@ def gaussian_kernel(data_shape, sigma, norm="max"):
         return kernel
 
 
+def _difference(data1, data2):
+    """Difference of two data sets, without overflow of integer types."""
+    dtype = np.result_type(data1, data2, float)
+    return np.subtract(data1, data2, dtype=dtype)
+
+
 def mad(input_data):
     r"""Median absolute deviation.
 
@@ -143,7 +149,7 @@ def mse(data1, data2):
     4.0
 
     """
-    return np.mean((data1 - data2) ** 2)
+    return np.mean(_difference(data1, data2) ** 2)
 
 
 def psnr(data1, data2, method="starck", max_pix=255):
@@ -203,8 +209,8 @@ def psnr(data1, data2, method="starck", max_pix=255):
     """
     if method == "starck":
         return 20 * np.log10(
-            (data1.shape[0] * np.abs(np.max(data1) - np.min(data1)))
-            / np.linalg.norm(data1 - data2),
+            (data1.shape[0] * np.abs(_difference(np.max(data1), np.min(data1))))
+            / np.linalg.norm(_difference(data1, data2)),
         )
 
     elif method == "wiki":
-- 
2.43.0


From a4c2d6e0d76f4a9e0e67d38a4d59e20c51bb73f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:59:10 +0000
Subject: [PATCH 40/53] fix: setting up a log twice wrote every message twice

---
 src/modopt/interface/log.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/modopt/interface/log.py b/src/modopt/interface/log.py
index fcafcdd..dc8515f 100644
--- a/src/modopt/interface/log.py
+++ b/src/modopt/interface/log.py
@@ -42,14 +42,19 @@ def set_up_log(filename, verbose=True):
         datefmt="%d/%m/%Y %H:%M:%S",
     )
 
+    # Create log.
+    log = logging.getLogger(filename)
+    log.setLevel(logging.DEBUG)
+
+    # Drop handlers left by a previous set-up of the same log.
+    for log_handler in list(log.handlers):
+        log.removeHandler(log_handler)
+        log_handler.close()
+
     # Create file handler.
     fh = logging.FileHandler(filename=filename, mode="w")
     fh.setLevel(logging.DEBUG)
     fh.setFormatter(formatter)
-
-    # Create log.
-    log = logging.getLogger(filename)
-    log.setLevel(logging.DEBUG)
     log.addHandler(fh)
 
     # Send opening message.
-- 
2.43.0


From cffb952eb2b5f956b2053932a7d65e57839ca6da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:05:29 +0000
Subject: [PATCH 41/53] fix: OrderedWeightedL1Norm refused a single weight

---
 src/modopt/opt/proximity.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/modopt/opt/proximity.py b/src/modopt/opt/proximity.py
index f32bfa4..1fc12e1 100644
--- a/src/modopt/opt/proximity.py
+++ b/src/modopt/opt/proximity.py
@@ -629,7 +629,7 @@ class OrderedWeightedL1Norm(ProximityParent):
                 + "documentation for details: "
                 + "https://cea-cosmic.github.io/ModOpt/#optional-packages",
             )
-        if np.max(np.diff(weights)) > 0:
+        if np.any(np.diff(weights) > 0):
             raise ValueError("Weights must be non increasing")
         self.weights = weights.flatten()
         if (self.weights < 0).any():
-- 
2.43.0


From 2abaa43e922a1405b94a7d402b51c06404f1b81d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:05:29 +0000
Subject: [PATCH 42/53] fix: KSupportNorm.op kept the k reduced for a small
 input for all later inputs

---
 src/modopt/opt/proximity.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/modopt/opt/proximity.py b/src/modopt/opt/proximity.py
index 1fc12e1..c032097 100644
--- a/src/modopt/opt/proximity.py
+++ b/src/modopt/opt/proximity.py
@@ -1227,7 +1227,7 @@ class KSupportNorm(ProximityParent):
                 "K value of the K-support norm is greater than the input "
                 + f"dimension, its value will be set to {k_max}",
             )
-            self._k_value = k_max
+            return KSupportNorm(self.beta, k_max).op(input_data, extra_factor)
 
         # Computes line 1., 2. and 3. in Algorithm 1
         alpha = self._find_alpha(np.abs(input_data.flatten()), extra_factor)
-- 
2.43.0


From 0e30af96b12bb218f352e5b0ec51b82ca118efa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:05:29 +0000
Subject: [PATCH 43/53] fix: KSupportNorm.cost failed for k larger than the
 input size

---
 src/modopt/opt/proximity.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/modopt/opt/proximity.py b/src/modopt/opt/proximity.py
index c032097..8d5f8f7 100644
--- a/src/modopt/opt/proximity.py
+++ b/src/modopt/opt/proximity.py
@@ -1297,6 +1297,9 @@ class KSupportNorm(ProximityParent):
 
         """
         data_abs = np.abs(args[0].flatten())
+        if self._k_value > data_abs.size:
+            return KSupportNorm(self.beta, data_abs.size).cost(*args, **kwargs)
+
         ix = np.argsort(data_abs)[::-1]
         data_abs = data_abs[ix]  # Sorted absolute value of the data
         q_val = self._find_q(data_abs)
-- 
2.43.0


From 2831836ad81e489fffa199c192f1c06e93c687ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:06:29 +0000
Subject: [PATCH 44/53] fix: OrderedWeightedL1Norm failed on single-element and
 multi-dimensional data

---
 src/modopt/opt/proximity.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/modopt/opt/proximity.py b/src/modopt/opt/proximity.py
index 8d5f8f7..e9706dc 100644
--- a/src/modopt/opt/proximity.py
+++ b/src/modopt/opt/proximity.py
@@ -661,8 +661,8 @@ class OrderedWeightedL1Norm(ProximityParent):
         # Update threshold with extra factor.
         threshold = self.weights * extra_factor
 
-        # Squeezing the data
-        data_squeezed = np.squeeze(input_data)
+        # Flattening the data, like the weights
+        data_squeezed = np.ravel(input_data)
 
         # Sorting (non increasing order) input vector's absolute values
         data_abs = np.abs(data_squeezed)
@@ -709,7 +709,7 @@ class OrderedWeightedL1Norm(ProximityParent):
 
         """
         cost_val = np.sum(
-            self.weights * np.sort(np.squeeze(np.abs(args[0]))[::-1]),
+            self.weights * np.sort(np.ravel(np.abs(args[0]))[::-1]),
         )
 
         if kwargs.get("verbose"):
-- 
2.43.0


From ddc75b3c3538879bf05fec80546d92bd99c5048f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:25:50 +0000
Subject: [PATCH 45/53] fix: an observer removing itself made notify_observers
 skip the next one

---
 src/modopt/base/observable.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/modopt/base/observable.py b/src/modopt/base/observable.py
index 7f7c609..b34793d 100644
--- a/src/modopt/base/observable.py
+++ b/src/modopt/base/observable.py
@@ -106,7 +106,7 @@ class Observable:
             setattr(signal_to_be_notified, name, key_value)
         # Notify all the observers
         try:
-            for observer in self._observers[signal]:
+            for observer in list(self._observers[signal]):
                 observer(signal_to_be_notified)
         finally:
             # Unlock the notification process
-- 
2.43.0


From 45ae71a811cc82b1bb27b80d30d4d0e8eea9b11a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:52:58 +0000
Subject: [PATCH 46/53] fix: TorchWaveletTransform.adj_op returned odd-sized
 axes with one element too many

---
 src/modopt/opt/linear/wavelet.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/modopt/opt/linear/wavelet.py b/src/modopt/opt/linear/wavelet.py
index 05c6f96..33678a7 100644
--- a/src/modopt/opt/linear/wavelet.py
+++ b/src/modopt/opt/linear/wavelet.py
@@ -380,6 +380,12 @@ class TorchWaveletTransform:
             operator.
 
         """
+        data = self._adj_op(coeffs)
+        # The inverse transform pads odd-sized axes with one extra element
+        return data[(..., *(slice(size) for size in self.shape))]
+
+    def _adj_op(self, coeffs):
+        """Wavelet recomposition, without cropping."""
         if len(self.shape) == 2:
             if torch.is_complex(coeffs[0]):
                 ## 2D Complex ##
-- 
2.43.0


From f1a73e5e6d38ea3e3ed3564d23b575cd0f3a696b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:03:11 +0000
Subject: [PATCH 47/53] fix: accept progress bars that have no total in the
 iteration loop

---
 src/modopt/opt/algorithms/base.py        | 4 ++--
 src/modopt/opt/algorithms/primal_dual.py | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/modopt/opt/algorithms/base.py b/src/modopt/opt/algorithms/base.py
index 4a49fc6..052ff11 100644
--- a/src/modopt/opt/algorithms/base.py
+++ b/src/modopt/opt/algorithms/base.py
@@ -284,7 +284,7 @@ class SetUp(Observable):
                     print(" - Converged!")
                 break
 
-            if progbar:
+            if progbar is not None:
                 progbar.update()
 
     def _run_alg(self, max_iter, progbar=None):
@@ -308,7 +308,7 @@ class SetUp(Observable):
         if self.progress and progbar is None:
             with tqdm(total=max_iter) as pb:
                 self._iterations(max_iter, progbar=pb)
-        elif progbar:
+        elif progbar is not None:
             self._iterations(max_iter, progbar=progbar)
         else:
             self._iterations(max_iter)
diff --git a/src/modopt/opt/algorithms/primal_dual.py b/src/modopt/opt/algorithms/primal_dual.py
index ff7a9a1..6179425 100644
--- a/src/modopt/opt/algorithms/primal_dual.py
+++ b/src/modopt/opt/algorithms/primal_dual.py
@@ -241,7 +241,7 @@ class Condat(SetUp):
         if not isinstance(self._reweight, type(None)):
             for _ in range(n_rewightings):
                 self._reweight.reweight(self._linear.op(self._x_new))
-                if progbar:
+                if progbar is not None:
                     progbar.reset(total=max_iter)
                 self._run_alg(max_iter, progbar)
 
-- 
2.43.0


From 4f015be5d81dea0aac8a2537aa52d27c0ff5745f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:56:01 +0000
Subject: [PATCH 48/53] fix: GroupLASSO shrank groups of norm below 1e-7 by too
 little

---
 src/modopt/opt/proximity.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/modopt/opt/proximity.py b/src/modopt/opt/proximity.py
index e9706dc..c1d9145 100644
--- a/src/modopt/opt/proximity.py
+++ b/src/modopt/opt/proximity.py
@@ -1374,7 +1374,7 @@ class GroupLASSO(ProximityParent):
 
         """
         norm2 = np.linalg.norm(input_data, axis=0)
-        denominator = np.maximum(norm2, np.finfo(np.float32).eps)
+        denominator = np.where(norm2 > 0, norm2, 1)  # a zero group stays zero
 
         return input_data * np.maximum(
             0,
-- 
2.43.0


From 35f417224d54c85561bb4bd00d1c1301acb833c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:30:10 +0000
Subject: [PATCH 49/53] fix: fast singular value thresholding failed on complex
 data one short of full rank

---
 src/modopt/signal/svd.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/modopt/signal/svd.py b/src/modopt/signal/svd.py
index ddbd26b..63c292f 100644
--- a/src/modopt/signal/svd.py
+++ b/src/modopt/signal/svd.py
@@ -230,12 +230,14 @@ def svd_thresh_coef_fast(
     if n_vals is None or n_vals == -1:
         n_vals = max_vals
     n_vals = max(n_vals, 1)
+    # svds cannot compute all the singular values, nor all but one if complex
+    svds_limit = max_vals - np.iscomplexobj(input_data)
     ok = False
     while not ok:
-        if n_vals < max_vals and np.any(input_data):
+        if n_vals < svds_limit and np.any(input_data):
             (u_vec, s_values, v_vec) = svds(input_data, k=n_vals)
         else:
-            # svds cannot compute all the singular values, nor handle zeros
+            # svds cannot handle zeros either
             (u_vec, s_values, v_vec) = calculate_svd(input_data)
             u_vec, s_values, v_vec = u_vec[:, ::-1], s_values[::-1], v_vec[::-1]
         ok = s_values[0] <= threshold or n_vals >= max_vals
-- 
2.43.0


From 57d995b95227428a2459d71c2d3bc1626759f88a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:15:53 +0000
Subject: [PATCH 50/53] fix: SAGA stored gradients in the type of the initial
 point, dropping imaginary parts

With a real (or integer) initial point and complex (or real) gradients, the
gradient memory silently discarded the imaginary (or fractional) parts, so the
search directions did not follow the SAGA recursion.
---
 src/modopt/opt/algorithms/gradient_descent.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/modopt/opt/algorithms/gradient_descent.py b/src/modopt/opt/algorithms/gradient_descent.py
index a35dfa4..88a2878 100644
--- a/src/modopt/opt/algorithms/gradient_descent.py
+++ b/src/modopt/opt/algorithms/gradient_descent.py
@@ -462,5 +462,8 @@ class SAGAOptGradOpt(GenericGradOpt):
 
         """
         cycle = self.idx % self.epoch_size
+        # the gradients need not be of the type of the initial point
+        memory_type = np.result_type(self._grad_memory, grad)
+        self._grad_memory = self._grad_memory.astype(memory_type, copy=False)
         self._dir_grad = self._dir_grad - self._grad_memory[cycle] + grad
         self._grad_memory[cycle] = grad
-- 
2.43.0


From d3fa870f476b7a6deda50961c2009a6daecf0eb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:18:04 +0000
Subject: [PATCH 51/53] fix: generalised forward-backward handed its work
 buffer to the metrics

The auxiliary variables are updated in place, so a metric that keeps or returns
them saw the values of earlier iterations change.
---
 src/modopt/opt/algorithms/forward_backward.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/modopt/opt/algorithms/forward_backward.py b/src/modopt/opt/algorithms/forward_backward.py
index bdc6e7d..e15c9cd 100644
--- a/src/modopt/opt/algorithms/forward_backward.py
+++ b/src/modopt/opt/algorithms/forward_backward.py
@@ -784,7 +784,7 @@ class GenForwardBackward(SetUp):
         """
         return {
             "x_new": self._linear.adj_op(self._x_new),
-            "z_new": self._z,
+            "z_new": self.xp.copy(self._z),  # updated in place
             "idx": self.idx,
         }
 
-- 
2.43.0


From 6d3991300d1f030ac97e475be20d14da5598c79c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:18:04 +0000
Subject: [PATCH 52/53] fix: AdaGrad handed its work buffer to the metrics

The accumulated speed was updated in place, so a metric that keeps or returns it
saw the values of earlier iterations change.
---
 src/modopt/opt/algorithms/gradient_descent.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/modopt/opt/algorithms/gradient_descent.py b/src/modopt/opt/algorithms/gradient_descent.py
index 88a2878..4a4b85b 100644
--- a/src/modopt/opt/algorithms/gradient_descent.py
+++ b/src/modopt/opt/algorithms/gradient_descent.py
@@ -275,7 +275,7 @@ class AdaGenericGradOpt(GenericGradOpt):
             The new gradient for updating the speed
 
         """
-        self._speed_grad += abs(grad) ** 2
+        self._speed_grad = self._speed_grad + abs(grad) ** 2
 
 
 class RMSpropGradOpt(GenericGradOpt):
-- 
2.43.0


From 9daecb86e42305794a4347c2f9cf2cade98c25b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:05:33 +0000
Subject: [PATCH 53/53] fix: keep the k-support guard small next to data of
 small magnitude

---
 src/modopt/opt/proximity.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/src/modopt/opt/proximity.py b/src/modopt/opt/proximity.py
index c1d9145..26f664c 100644
--- a/src/modopt/opt/proximity.py
+++ b/src/modopt/opt/proximity.py
@@ -1183,12 +1183,10 @@ class KSupportNorm(ProximityParent):
         # Computes the alpha^i points line 1 in Algorithm 1.
         alpha = np.zeros(data_size * 2)
         data_abs = np.abs(input_data)
-        alpha[:data_size] = (self.beta * extra_factor) / (
-            data_abs + sys.float_info.epsilon
-        )
-        alpha[data_size:] = (self.beta * extra_factor + 1) / (
-            data_abs + sys.float_info.epsilon
-        )
+        # Guard against zero entries without dominating data of small magnitude
+        guard = sys.float_info.epsilon * (min(data_abs.max(), 1.0) or 1.0)
+        alpha[:data_size] = (self.beta * extra_factor) / (data_abs + guard)
+        alpha[data_size:] = (self.beta * extra_factor + 1) / (data_abs + guard)
         alpha = np.sort(np.unique(alpha))
 
         # Identify points alpha^i and alpha^{i+1} line 2. Algorithm 1
-- 
2.43.0

