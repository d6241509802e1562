From 9ab99e2b1fb4df23c530488985a9f42e5eafa46c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:12 +0000
Subject: [PATCH 01/18] fix: train all current posteriors in the gradient
 mean-field fit

---
 gpcm/approx.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gpcm/approx.py b/gpcm/approx.py
index c622902..1bfe658 100644
--- a/gpcm/approx.py
+++ b/gpcm/approx.py
@@ -114,7 +114,7 @@ class Approximation:
             names.append("-" + self.model.ps.q_u[self._q_i].all())
         elif current == "z":
             names.append("-" + self.model.ps.q_z[self._q_i].all())
-        else:
+        elif current is not False:
             raise ValueError(f'Invalid value "{current}" for `current`.')
         return names
 
@@ -816,7 +816,7 @@ def fit(model, t, y, approximation: MeanField, iters: B.Int = 5000):
             iters=iters // 5,
             trace=True,
             jit=True,
-            names=model().approximation.ignore_qs(previous=True),
+            names=model().approximation.ignore_qs(previous=True, current=False),
         )
 
         # Post-fit a CA solution, if applicable.
-- 
2.43.0


From df2fccde7cb56f5b7d324ce728472f469b9f3641 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:12 +0000
Subject: [PATCH 02/18] fix: support the mean-field-ca-gradient scheme in fit

---
 gpcm/approx.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/gpcm/approx.py b/gpcm/approx.py
index 1bfe658..95d7f03 100644
--- a/gpcm/approx.py
+++ b/gpcm/approx.py
@@ -575,7 +575,8 @@ class MeanField(Approximation):
 
     Args:
         model (:class:`.gpcm.AbstractGPCM`): Instantiated GPCM.
-        fit (str): Fitting method. Must be one of `ca`, `bfgs`, `collapsed-bfgs`.
+        fit (str): Fitting method. Must be one of `ca`, `bfgs`, `collapsed-bfgs`,
+            `ca-bfgs`, or `ca-collapsed-bfgs`.
     """
 
     def __init__(self, model, fit):
@@ -800,7 +801,7 @@ def fit(model, t, y, approximation: MeanField, iters: B.Int = 5000):
 
     if approximation.fit == "ca":
         _fit_mean_field_ca(model(), t, y, iters)
-    elif approximation.fit == "bfgs":
+    elif approximation.fit in {"ca-bfgs", "bfgs"}:
         # Pre-fit a CA solution, if applicable.
         if approximation.fit == "ca-bfgs":
             _fit_mean_field_ca(model(), t, y, iters)
-- 
2.43.0


From d5b372fee1b8fb97b0d46dcc2472bd2c538eeba6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:12 +0000
Subject: [PATCH 03/18] fix: let predict_fourier work for mean-field
 approximations

---
 gpcm/approx.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/gpcm/approx.py b/gpcm/approx.py
index 95d7f03..5e1def0 100644
--- a/gpcm/approx.py
+++ b/gpcm/approx.py
@@ -676,9 +676,13 @@ class MeanField(Approximation):
         return B.stack(*[sample_kernel(t_k, u) for u in _columns(us)], axis=0)
 
     @_dispatch
-    def predict_z(self):
+    def predict_z(self, num_samples: B.Int = 1000):
         """Predict Fourier features under the mean-field approximation.
 
+        Args:
+            num_samples (int, optional): Does nothing: the prediction is exact.
+                Provided to ensure a consistent interface between all approximations.
+
         Returns:
             tuple[vector, vector]: Marginals of the predictions.
         """
-- 
2.43.0


From d5044fd1b6984a1b9e44b564c56a0baab6d697a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:12 +0000
Subject: [PATCH 04/18] fix: never cache an intermediate result as the second
 moment

---
 gpcm/normal.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/gpcm/normal.py b/gpcm/normal.py
index ed5b638..ebb571c 100644
--- a/gpcm/normal.py
+++ b/gpcm/normal.py
@@ -75,8 +75,10 @@ class NaturalNormal:
     def m2(self):
         """matrix: Second moment."""
         if self._m2 is None:
-            self._m2 = B.cholsolve(B.chol(self.prec), self.prec + B.outer(self.lam))
-            self._m2 = B.cholsolve(B.chol(self.prec), B.transpose(self._m2))
+            part = B.cholsolve(B.chol(self.prec), self.prec + B.outer(self.lam))
+            # Only cache the final result: if this computation is interrupted or if it
+            # runs concurrently, an intermediate result must never be visible.
+            self._m2 = B.cholsolve(B.chol(self.prec), B.transpose(part))
         return self._m2
 
     @_dispatch
-- 
2.43.0


From 048395804119a9c0d257481eaad49e2eec66649f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:12 +0000
Subject: [PATCH 05/18] fix: save models atomically

---
 gpcm/model.py | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/gpcm/model.py b/gpcm/model.py
index f04a130..798fdcf 100644
--- a/gpcm/model.py
+++ b/gpcm/model.py
@@ -1,4 +1,6 @@
+import os
 import pickle
+import uuid
 
 import jax.numpy as jnp
 import lab.jax as B
@@ -253,8 +255,20 @@ class AbstractGPCM(Model):
             path (str): Path to save to.
         """
         data = {name: B.to_numpy(B.dense(self.vs[name])) for name in self.vs.names}
-        with open(path, "wb") as f:
-            pickle.dump(data, f)
+        # First write everything to a temporary file and only then replace the target:
+        # if saving fails halfway, an existing file must not be lost.
+        path = os.fsdecode(os.path.realpath(path))
+        temp = f"{path}.{uuid.uuid4().hex}.tmp"
+        try:
+            with open(temp, "wb") as f:
+                pickle.dump(data, f)
+                f.flush()
+                os.fsync(f.fileno())
+            os.replace(temp, path)
+        except BaseException:
+            if os.path.exists(temp):
+                os.remove(temp)
+            raise
 
     def load(self, path):
         """Load model from a file.
-- 
2.43.0


From b097ba2ebbff5a315ce59d03a48275ebc9015b5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:22 +0000
Subject: [PATCH 06/18] fix: use the current prior in the mean-field updates

---
 gpcm/approx.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/gpcm/approx.py b/gpcm/approx.py
index 5e1def0..f54254c 100644
--- a/gpcm/approx.py
+++ b/gpcm/approx.py
@@ -205,9 +205,10 @@ class Approximation:
             ts.A_sum,
             ts.I_uz,
             ts.I_uz_sum,
-            self.model.K_u,
+            self.p_u.prec,
             q_z.mean,
             q_z.m2,
+            lam=self.p_u.lam,
         )
 
     @_dispatch
@@ -244,12 +245,13 @@ class Approximation:
             ts.B_sum,
             B.transpose(ts.I_uz),
             B.transpose(ts.I_uz_sum),
-            self.model.K_z,
+            self.p_z.prec,
             q_u.mean,
             q_u.m2,
+            lam=self.p_z.lam,
         )
 
-    def _q_optimal(self, A, I, I_sum, K, x, x2=None):
+    def _q_optimal(self, A, I, I_sum, K, x, x2=None, lam=0):
         if x2 is not None:
             inner = B.mm(I, x2, I, tr_c=True)
         else:
@@ -257,7 +259,7 @@ class Approximation:
             part = B.mm(I, x)
             inner = B.mm(part, part, tr_b=True)
         return NaturalNormal(
-            B.mm(I_sum, x) / self.model.noise,
+            lam + B.mm(I_sum, x) / self.model.noise,
             K + (A + B.sum(inner, axis=0)) / self.model.noise,
         )
 
-- 
2.43.0


From fc5aa5e60034e59e20677273e1b80394287b6dd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:10 +0000
Subject: [PATCH 07/18] fix: predict the filter with the fitted samples in the
 structured scheme

---
 gpcm/approx.py | 7 +++++--
 gpcm/model.py  | 9 +++++----
 2 files changed, 10 insertions(+), 6 deletions(-)

diff --git a/gpcm/approx.py b/gpcm/approx.py
index f54254c..d1ab5d6 100644
--- a/gpcm/approx.py
+++ b/gpcm/approx.py
@@ -642,6 +642,9 @@ class MeanField(Approximation):
         B.set_global_random_state(state)
         return elbo
 
+    def _sample_p_u(self, num_samples):
+        return _columns(self.p_u.sample(num_samples))
+
     @_dispatch
     def predict(self, t):
         """Predict.
@@ -673,9 +676,9 @@ class MeanField(Approximation):
         Returns:
             tensor: Samples.
         """
-        us = self.p_u.sample(num_samples)
+        us = self._sample_p_u(num_samples)
         sample_kernel = B.jit(self._sample_kernel)
-        return B.stack(*[sample_kernel(t_k, u) for u in _columns(us)], axis=0)
+        return B.stack(*[sample_kernel(t_k, u) for u in us], axis=0)
 
     @_dispatch
     def predict_z(self, num_samples: B.Int = 1000):
diff --git a/gpcm/model.py b/gpcm/model.py
index 798fdcf..2e56564 100644
--- a/gpcm/model.py
+++ b/gpcm/model.py
@@ -173,9 +173,10 @@ class AbstractGPCM(Model):
         if t_h is None:
             t_h = B.linspace(self.dtype, -self.extent, self.extent, 601)
 
+        us = self.approximation._sample_p_u(num_samples)
+
         @B.jit
-        def sample_h(state):
-            state, u = self.approximation.p_u.sample(state)
+        def sample_h(state, u):
             u = B.mm(self.K_u, u)  # Transform :math:`\hat u` into :math:`u`.
             h = GP(self.k_h())
             h = h | (h(self.t_u), u)  # Condition on sample.
@@ -185,8 +186,8 @@ class AbstractGPCM(Model):
         # Perform sampling.
         state = B.global_random_state(self.dtype)
         samples = []
-        for _ in range(num_samples):
-            state, h = sample_h(state)
+        for u in us:
+            state, h = sample_h(state, u)
 
             # Transform sample according to specification.
             if min_phase:
-- 
2.43.0


From 30205253eb467afe5a47c79001e467dfc441af6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:10 +0000
Subject: [PATCH 08/18] fix: scale the filter kernel of the GPCM by alpha_t

---
 gpcm/gpcm.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/gpcm/gpcm.py b/gpcm/gpcm.py
index 5d21f03..65f88b8 100644
--- a/gpcm/gpcm.py
+++ b/gpcm/gpcm.py
@@ -246,7 +246,8 @@ class GPCM(AbstractGPCM):
         """
         # Convert `self.gamma` to a regular length scale.
         gamma_scale = B.sqrt(1 / (2 * self.gamma))
-        k_h = EQ().stretch(gamma_scale)  # Kernel of filter before window
+        # Kernel of filter before window
+        k_h = self.alpha_t**2 * EQ().stretch(gamma_scale)
         k_h *= lambda t: B.exp(-self.alpha * t**2)  # Window
         if self.causal:
             k_h *= lambda t: B.cast(self.dtype, t >= 0)  # Causality constraint
-- 
2.43.0


From cf499fed1c689fdc1b9f77e79b0ee06754ecfd85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:08 +0000
Subject: [PATCH 09/18] fix: keep the ESS state consistent when the likelihood
 fails in move

---
 gpcm/sample.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/gpcm/sample.py b/gpcm/sample.py
index d9a840a..0d2f777 100644
--- a/gpcm/sample.py
+++ b/gpcm/sample.py
@@ -44,8 +44,9 @@ class ESS:
         Args:
             x (tensor): State to move to.
         """
-        self.x = x
-        self.log_lik_x = self.log_lik(self.x)
+        # Only move once the log-likelihood is available: if its computation fails, the
+        # state must remain consistent.
+        self.x, self.log_lik_x = x, self.log_lik(x)
 
     def _establish_ellipse(self):
         """Establish an ellipse, which is required to draw the new state."""
-- 
2.43.0


From 38c5340d8a2cfd8572e00f926be15eb83132d691 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:31 +0000
Subject: [PATCH 10/18] fix: never lose stored samples when a fit is
 interrupted while storing

---
 gpcm/approx.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/gpcm/approx.py b/gpcm/approx.py
index d1ab5d6..dbd0faa 100644
--- a/gpcm/approx.py
+++ b/gpcm/approx.py
@@ -374,10 +374,12 @@ class Structured(Approximation):
     @q_u_samples.setter
     @_dispatch
     def q_u_samples(self, samples: list):
-        # We need a setter, because these won't be trainable through gradients.
-        self.model.ps.q_u[self._q_i].samples.delete()
+        # We need a setter, because these won't be trainable through gradients. Existing
+        # samples are overwritten and not first deleted: should the computation of the
+        # new samples fail or be interrupted, then the existing ones must not be lost.
         samples = B.stack(*[B.flatten(x) for x in samples], axis=1)
         self.model.ps.q_u[self._q_i].samples.unbounded(init=samples, visible=False)
+        self.model.ps.q_u[self._q_i].samples.assign(samples)
 
     @property
     def p_z_samples(self):
@@ -392,10 +394,12 @@ class Structured(Approximation):
     @q_z_samples.setter
     @_dispatch
     def q_z_samples(self, samples: list):
-        # We need a setter, because these won't be trainable through gradients.
-        self.model.ps.q_z[self._q_i].samples.delete()
+        # We need a setter, because these won't be trainable through gradients. Existing
+        # samples are overwritten and not first deleted: should the computation of the
+        # new samples fail or be interrupted, then the existing ones must not be lost.
         samples = B.stack(*[B.flatten(x) for x in samples], axis=1)
         self.model.ps.q_z[self._q_i].samples.unbounded(init=samples, visible=False)
+        self.model.ps.q_z[self._q_i].samples.assign(samples)
 
     @_dispatch
     def elbo(
-- 
2.43.0


From 7d37f85427c5e2d0ec3880fa8dbb0916477e51de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:11 +0000
Subject: [PATCH 11/18] fix: use all inducing points when predicting a causal
 filter

---
 gpcm/gpcm.py  |  8 ++++++--
 gpcm/model.py |  8 ++++++--
 gpcm/rgpcm.py | 12 ++++++++++--
 3 files changed, 22 insertions(+), 6 deletions(-)

diff --git a/gpcm/gpcm.py b/gpcm/gpcm.py
index 65f88b8..998cb49 100644
--- a/gpcm/gpcm.py
+++ b/gpcm/gpcm.py
@@ -238,9 +238,13 @@ class GPCM(AbstractGPCM):
         )
 
     @_dispatch
-    def k_h(self):
+    def k_h(self, *, constrain=True):
         """Get the kernel function of the filter.
 
+        Args:
+            constrain (bool, optional): Apply the causality constraint, if the model
+                has one. Defaults to `True`.
+
         Returns:
             :class:`mlkernels.Kernel`: Kernel for :math:`h`.
         """
@@ -249,7 +253,7 @@ class GPCM(AbstractGPCM):
         # Kernel of filter before window
         k_h = self.alpha_t**2 * EQ().stretch(gamma_scale)
         k_h *= lambda t: B.exp(-self.alpha * t**2)  # Window
-        if self.causal:
+        if self.causal and constrain:
             k_h *= lambda t: B.cast(self.dtype, t >= 0)  # Causality constraint
         return k_h
 
diff --git a/gpcm/model.py b/gpcm/model.py
index 2e56564..d8b8ddf 100644
--- a/gpcm/model.py
+++ b/gpcm/model.py
@@ -178,10 +178,14 @@ class AbstractGPCM(Model):
         @B.jit
         def sample_h(state, u):
             u = B.mm(self.K_u, u)  # Transform :math:`\hat u` into :math:`u`.
-            h = GP(self.k_h())
+            # The inducing variables are of the filter before the causality constraint.
+            h = GP(self.k_h(constrain=False))
             h = h | (h(self.t_u), u)  # Condition on sample.
             state, h = h(t_h).sample(state)  # Sample at desired points.
-            return state, B.flatten(h)
+            h = B.flatten(h)
+            if self.causal:
+                h = h * B.cast(self.dtype, t_h >= 0)  # Causality constraint
+            return state, h
 
         # Perform sampling.
         state = B.global_random_state(self.dtype)
diff --git a/gpcm/rgpcm.py b/gpcm/rgpcm.py
index 0bf9b38..d57f7a6 100644
--- a/gpcm/rgpcm.py
+++ b/gpcm/rgpcm.py
@@ -56,6 +56,9 @@ class RGPCM(AbstractGPCM):
     name = "RGPCM"
     """str: Formatted name."""
 
+    causal = True
+    """bool: The filter is always causal."""
+
     def __init__(
         self,
         scheme="structured",
@@ -177,15 +180,20 @@ class RGPCM(AbstractGPCM):
         self.gamma = min(gamma, self.alpha / 1.5)
         self.gamma_t = gamma_t
 
-    def k_h(self):
+    def k_h(self, *, constrain=True):
         """Get the kernel function of the filter.
 
+        Args:
+            constrain (bool, optional): Apply the causality constraint. Defaults to
+                `True`.
+
         Returns:
             :class:`mlkernels.Kernel`: Kernel for :math:`h`.
         """
         k_h = Exp().stretch(1 / self.lam)  # Kernel of filter before window
         k_h *= lambda t: B.exp(-self.alpha * B.abs(t))  # Window
-        k_h *= lambda t: B.cast(self.dtype, t >= 0)  # Causality constraint
+        if constrain:
+            k_h *= lambda t: B.cast(self.dtype, t >= 0)  # Causality constraint
         return k_h
 
     def __prior__(self):
-- 
2.43.0


From 034d5d8a731215eef0745b65a015c18a96687cc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:11 +0000
Subject: [PATCH 12/18] fix: make the 68% bounds contain 68% of the samples

---
 gpcm/util.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gpcm/util.py b/gpcm/util.py
index 02384d6..afe001e 100644
--- a/gpcm/util.py
+++ b/gpcm/util.py
@@ -67,8 +67,8 @@ def summarise_samples(x, samples, db=False):
         x=B.to_numpy(x),
         mean=transform(B.mean(samples, axis=0)),
         var=transform(B.std(samples, axis=0)) ** 2,
-        err_68_lower=transform(B.quantile(samples, 0.32, axis=0)),
-        err_68_upper=transform(B.quantile(samples, 1 - 0.32, axis=0)),
+        err_68_lower=transform(B.quantile(samples, 0.16, axis=0)),
+        err_68_upper=transform(B.quantile(samples, 1 - 0.16, axis=0)),
         err_95_lower=transform(B.quantile(samples, 0.025, axis=0)),
         err_95_upper=transform(B.quantile(samples, 1 - 0.025, axis=0)),
         err_99_lower=transform(B.quantile(samples, 0.0015, axis=0)),
-- 
2.43.0


From b695e61fdead6411c59233ac0afdf2b6b09ef072 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:43 +0000
Subject: [PATCH 13/18] fix: let the prior predict in the mean-field
 approximation

---
 gpcm/approx.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/gpcm/approx.py b/gpcm/approx.py
index dbd0faa..08d4188 100644
--- a/gpcm/approx.py
+++ b/gpcm/approx.py
@@ -47,7 +47,10 @@ class Approximation:
     def p_u(self):
         """:class:`stheno.Normal`: Current prior for :math:`u`."""
         if self._q_i == 0:
-            return NaturalNormal(0, self.model.K_u)
+            return NaturalNormal(
+                B.zeros(self.model.dtype, self.model.n_u, 1),
+                self.model.K_u,
+            )
         else:
             return _parametrise_natural(
                 self.model.ps.q_u[self._q_i - 1],
@@ -70,7 +73,10 @@ class Approximation:
     def p_z(self):
         """:class:`stheno.Normal`: Current prior for :math:`z`."""
         if self._q_i == 0:
-            return NaturalNormal(0, self.model.K_z)
+            return NaturalNormal(
+                B.zeros(self.model.dtype, self.model.n_z, 1),
+                self.model.K_z,
+            )
         else:
             return _parametrise_natural(
                 self.model.ps.q_z[self._q_i - 1],
-- 
2.43.0


From 285ca6a336ba856981f9d0f9c7b0cf328e4840ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:43 +0000
Subject: [PATCH 14/18] fix: normalise PSDs to the right total power

---
 gpcm/util.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/gpcm/util.py b/gpcm/util.py
index afe001e..36ee35e 100644
--- a/gpcm/util.py
+++ b/gpcm/util.py
@@ -109,7 +109,8 @@ def estimate_psd(t, k, n_zero=2_000, db=False):
     psd = np.abs(np.real(psd))
 
     # Now scale appropriately: the total power should equal `k[0]`.
-    total_power = np.trapz(y=psd, x=freqs)
+    # The frequencies are not sorted, but they are equally spaced and periodic.
+    total_power = np.sum(psd) * (freqs[1] - freqs[0])
     psd /= total_power / k[0]
 
     # Convert to dB.
-- 
2.43.0


From 92fb4d8659aa33c168940d7657ad3f57c4fdc3d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:29 +0000
Subject: [PATCH 15/18] fix: let the prior predict in the structured
 approximation

---
 gpcm/approx.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/gpcm/approx.py b/gpcm/approx.py
index 08d4188..823dcd0 100644
--- a/gpcm/approx.py
+++ b/gpcm/approx.py
@@ -536,7 +536,8 @@ class Structured(Approximation):
 
         @B.jit
         def predict_moments(u):
-            q_z = self.q_z_optimal(self.ts, u)
+            # Without observations, the prior of :math:`z` does not depend on :math:`u`.
+            q_z = self.p_z if self._q_i == 0 else self.q_z_optimal(self.ts, u)
             return self._predict_moments(ts, u, B.outer(u), q_z.mean, q_z.m2)
 
         m1s, m2s = zip(*[predict_moments(u) for u in self._sample_p_u(num_samples)])
-- 
2.43.0


From 8eb3230ff6a6c8f8864a4a20fd9e66766a3e415c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:21 +0000
Subject: [PATCH 16/18] fix: make results independent of the hash seed

---
 gpcm/exppoly.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/gpcm/exppoly.py b/gpcm/exppoly.py
index 1e67949..16e2980 100644
--- a/gpcm/exppoly.py
+++ b/gpcm/exppoly.py
@@ -1,5 +1,6 @@
 import operator
 from functools import reduce
+from zlib import crc32
 
 import lab as B
 import numpy as np
@@ -122,12 +123,14 @@ class Factor:
         return self.__mul__(other)
 
     def __hash__(self):
-        return hash(self.name) + hash(self.power)
+        # Do not use the hash of the name: that differs between processes, and the order
+        # in which factors are iterated over affects results in the last digits.
+        return crc32(self.name.encode()) + hash(self.power)
 
 
 def _merge_common_factors(*factors):
     merged_factors = []
-    for name in set(x.name for x in factors):
+    for name in dict.fromkeys(x.name for x in factors):
         associated_factors = filter(lambda x: x.name == name, factors)
         merged_factors.append(reduce(operator.mul, associated_factors, 1))
     return merged_factors
-- 
2.43.0


From d9c253a2f965eeadaf643aa7259fc023e14818df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:48 +0000
Subject: [PATCH 17/18] fix: let loaded models be trained further

---
 gpcm/model.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/gpcm/model.py b/gpcm/model.py
index d8b8ddf..dd04791 100644
--- a/gpcm/model.py
+++ b/gpcm/model.py
@@ -282,11 +282,18 @@ class AbstractGPCM(Model):
             path (str): Path to load from.
         """
         with open(path, "rb") as f:
-            data = pickle.load(f)
-        for name, value in data.items():
+            items = pickle.load(f).items()
+        # Instantiate the model, to be sure that its hyperparameters exist: the file does
+        # not tell how they are constrained.
+        self()
+        for name, value in items:
             if name in self.vs:
                 # Overwrite existing values.
                 self.vs.assign(name, value)
+            elif name.startswith("q_") and name.endswith(".lam"):
+                self.vs.unbounded(init=value, name=name)
+            elif name.startswith("q_") and name.endswith(".prec"):
+                self.vs.positive_definite(init=value, name=name)
             else:
                 # Assign an invisible bounded variable: we lost the information about
                 # the constraints.
-- 
2.43.0


From a8365a52a4cdb5c097a7e80b14970a08472afb5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:53 +0000
Subject: [PATCH 18/18] fix: bound inducing points given entirely on one side
 of zero

The bounds on t_u were 1.5 times its extremes, which lies inside of the inducing
points, or coincides with them, if these do not straddle zero: the parametrisation
then was NaN and so was everything computed with it.
---
 gpcm/gpcm.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/gpcm/gpcm.py b/gpcm/gpcm.py
index 998cb49..1040360 100644
--- a/gpcm/gpcm.py
+++ b/gpcm/gpcm.py
@@ -281,11 +281,13 @@ class GPCM(AbstractGPCM):
             self.gamma = self.ps.positive(self.gamma, name="gamma")
         self.omega = self.ps.positive(self.omega, name="omega")
         self.omega_t = self.omega_t  # Do not learn variance of inter-domain transform!
-        # Bound the inducing points so they don't move away too far.
+        # Bound the inducing points so they don't move away too far. The bounds must lie
+        # strictly outside of the inducing points, also if those do not straddle zero.
+        t_u_min, t_u_max = min(self.t_u), max(self.t_u)
         self.t_u = self.ps.bounded(
             self.t_u,
-            lower=min(self.t_u) * 1.5,
-            upper=max(self.t_u) * 1.5,
+            lower=t_u_min - 0.5 * (abs(t_u_min) or t_u_max - t_u_min),
+            upper=t_u_max + 0.5 * (abs(t_u_max) or t_u_max - t_u_min),
             name="t_u",
         )
         self.t_z = self.ps.unbounded(self.t_z, name="t_z")
-- 
2.43.0

