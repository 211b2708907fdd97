From 23bf536e063714e22bc3d33b7fa663f340f62482 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:07 +0000
Subject: [PATCH 01/24] fix: reject non-symmetric covariance matrices

The check required *all* the entries (including the diagonal) to differ from
the transpose, so that it could never fail.
---
 src/bmi/samplers/_splitmultinormal.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/bmi/samplers/_splitmultinormal.py b/src/bmi/samplers/_splitmultinormal.py
index 1465923..efb8059 100644
--- a/src/bmi/samplers/_splitmultinormal.py
+++ b/src/bmi/samplers/_splitmultinormal.py
@@ -10,7 +10,8 @@ from bmi.samplers.base import BaseSampler, cast_to_rng
 
 def _can_be_covariance(mat):
     """Checks if `mat` can be a covariance matrix (positive-definite and symmetric)."""
-    if np.all(mat != mat.transpose()):
+    # Allow for asymmetry due to the rounding errors
+    if not np.allclose(mat, mat.transpose(), atol=1e-5 * np.max(np.abs(mat))):
         raise ValueError("Covariance matrix is not symmetric.")
 
     if not np.all(np.linalg.eigvals(mat) > 0):
-- 
2.43.0


From 105613b3cfddb1bd2b80f98dd65382bb9ee8a304 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:07 +0000
Subject: [PATCH 02/24] fix: use log-determinant in the Gaussian entropy

The determinant under- or overflows for high-dimensional variables or small/large
scales, which resulted in infinite or zero mutual information.
---
 src/bmi/samplers/_splitmultinormal.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/bmi/samplers/_splitmultinormal.py b/src/bmi/samplers/_splitmultinormal.py
index efb8059..2be88de 100644
--- a/src/bmi/samplers/_splitmultinormal.py
+++ b/src/bmi/samplers/_splitmultinormal.py
@@ -31,8 +31,9 @@ class _Multinormal:
         self._mean = np.asarray(mean)
         self._covariance = np.asarray(covariance)
 
-        # The determinant of the covariance, used to calculate entropy
-        self._det_covariance: float = np.linalg.det(self._covariance)
+        # The log-determinant of the covariance, used to calculate entropy
+        # (the determinant itself may under- or overflow)
+        self._log_det_covariance: float = np.linalg.slogdet(self._covariance)[1]
 
         # Dimensionality of the space
         self._dim = self._mean.shape[0]
@@ -68,7 +69,7 @@ class _Multinormal:
 
     def entropy(self) -> float:
         """Entropy in nats."""
-        return 0.5 * (np.log(self._det_covariance) + self.dim * (1 + np.log(2 * np.pi)))
+        return 0.5 * (self._log_det_covariance + self.dim * (1 + np.log(2 * np.pi)))
 
 
 class SplitMultinormal(BaseSampler):
-- 
2.43.0


From 229f939dd62285788b9b50a45f38604c5324b2d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:45 +0000
Subject: [PATCH 03/24] fix: Student-t mutual information for large or infinite
 degrees of freedom

The gamma function overflows for df + dim > ~340, and the documented df=np.inf
(the Gaussian case) resulted in NaN mutual information and covariance.
---
 src/bmi/samplers/_split_student_t.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/bmi/samplers/_split_student_t.py b/src/bmi/samplers/_split_student_t.py
index acb8ff1..fcaa6c3 100644
--- a/src/bmi/samplers/_split_student_t.py
+++ b/src/bmi/samplers/_split_student_t.py
@@ -3,7 +3,7 @@ from typing import Optional
 import numpy as np
 from numpy.typing import ArrayLike
 from scipy import stats
-from scipy.special import digamma, gamma
+from scipy.special import digamma, gammaln
 
 import bmi.samplers._splitmultinormal as spl
 from bmi.samplers.base import BaseSampler
@@ -18,10 +18,14 @@ def _differential_entropy(k: int, dof: int) -> float:
       Skew-Elliptical Distributions,
       Scandinavian Journal of Statistics, vol. 40, pp. 46-47, 2013
     """
+    # The limiting case of the normal distribution
+    if np.isinf(dof):
+        return 0.5 * k * (1 + np.log(2 * np.pi))
+
     half_sum = 0.5 * (dof + k)
     digamma_term = half_sum * (digamma(half_sum) - digamma(0.5 * dof))
 
-    log_term = -np.log(gamma(half_sum)) + np.log(gamma(0.5 * dof)) + 0.5 * k * np.log(dof * np.pi)
+    log_term = -gammaln(half_sum) + gammaln(0.5 * dof) + 0.5 * k * np.log(dof * np.pi)
 
     return log_term + digamma_term
 
@@ -124,6 +128,8 @@ class SplitStudentT(BaseSampler):
             raise ValueError(
                 f"For degrees of freedom {self.df} <= 2 the covariance is not defined."
             )
+        elif np.isinf(self.df):
+            return self._dispersion
         else:
             return self.df * self._dispersion / (self.df - 2.0)
 
-- 
2.43.0


From 9e53453363133892640fd268c551a2ca036181cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:45 +0000
Subject: [PATCH 04/24] fix: allow drawing a single point from the Student-t
 sampler

---
 src/bmi/samplers/_split_student_t.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/bmi/samplers/_split_student_t.py b/src/bmi/samplers/_split_student_t.py
index fcaa6c3..675eed8 100644
--- a/src/bmi/samplers/_split_student_t.py
+++ b/src/bmi/samplers/_split_student_t.py
@@ -103,6 +103,8 @@ class SplitStudentT(BaseSampler):
             size=n_points,
             random_state=rng,
         )
+        # SciPy squeezes the output if n_points = 1
+        xy = np.reshape(xy, (n_points, -1))
         assert xy.shape == (
             n_points,
             self.dim_total,
-- 
2.43.0


From de6a38cf733554f016228e20ede0243d9781afc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:45 +0000
Subject: [PATCH 05/24] fix: accept JAX keys in the Student-t sampler

The sampler interface allows for integers and JAX keys. In particular, Student-t
samplers could not be used in the concatenation of independent samplers.
---
 src/bmi/samplers/_split_student_t.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/bmi/samplers/_split_student_t.py b/src/bmi/samplers/_split_student_t.py
index 675eed8..6c99aa1 100644
--- a/src/bmi/samplers/_split_student_t.py
+++ b/src/bmi/samplers/_split_student_t.py
@@ -1,11 +1,13 @@
-from typing import Optional
+from typing import Optional, Union
 
+import jax
 import numpy as np
 from numpy.typing import ArrayLike
 from scipy import stats
 from scipy.special import digamma, gammaln
 
 import bmi.samplers._splitmultinormal as spl
+from bmi.interface import KeyArray
 from bmi.samplers.base import BaseSampler
 
 
@@ -90,12 +92,16 @@ class SplitStudentT(BaseSampler):
 
         self._dispersion = np.asarray(dispersion)
 
-    def sample(self, n_points: int, rng: int) -> tuple[np.ndarray, np.ndarray]:
+    def sample(self, n_points: int, rng: Union[KeyArray, int]) -> tuple[np.ndarray, np.ndarray]:
         """Sampling from multivariate Student distribution.
 
         Note:
             This function is based on SciPy's sampling.
         """
+        # SciPy does not understand JAX keys
+        if isinstance(rng, jax.Array):
+            rng = np.random.default_rng(np.asarray(jax.random.key_data(rng)))
+
         xy = stats.multivariate_t.rvs(
             loc=self._mean,
             shape=self._dispersion,
-- 
2.43.0


From ff9192173b62f3071b1656c44da73d52e62ee0a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:45 +0000
Subject: [PATCH 06/24] fix: set the dimensions of the zero-inflated
 Poissonization sampler

The base class initializer was not called, so that dim_x and dim_y raised
AttributeError and the sampler could not be wrapped in tasks or other samplers.
---
 src/bmi/samplers/_discrete_continuous.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/bmi/samplers/_discrete_continuous.py b/src/bmi/samplers/_discrete_continuous.py
index 64bc246..4a49855 100644
--- a/src/bmi/samplers/_discrete_continuous.py
+++ b/src/bmi/samplers/_discrete_continuous.py
@@ -132,6 +132,8 @@ class ZeroInflatedPoissonizationSampler(BaseSampler):
         Args:
             p: zero-inflation parameter. Must be in [0, 1).
         """
+        super().__init__(dim_x=1, dim_y=1)
+
         if p < 0 or p >= 1:
             raise ValueError(f"p must be in [0, 1), was {p}.")
         self._p = float(p)
-- 
2.43.0


From bcd330a268dd65fa0296c1b07c39ebe5dc2e23e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:23:19 +0000
Subject: [PATCH 07/24] fix: mutual information of the zero-inflated
 Poissonization

The formula of Gao et al. (2017) is the mutual information with the inflation
indicator observed, e.g., for the default p=0.15 it gives 0.256 rather than 0.230.
---
 src/bmi/samplers/_discrete_continuous.py | 25 ++++++++++++++++++------
 1 file changed, 19 insertions(+), 6 deletions(-)

diff --git a/src/bmi/samplers/_discrete_continuous.py b/src/bmi/samplers/_discrete_continuous.py
index 4a49855..ff1e7a9 100644
--- a/src/bmi/samplers/_discrete_continuous.py
+++ b/src/bmi/samplers/_discrete_continuous.py
@@ -159,21 +159,25 @@ class ZeroInflatedPoissonizationSampler(BaseSampler):
     def mutual_information(self, truncation: Optional[int] = None) -> float:
         """Ground-truth mutual information is equal to
 
-        $$I(X; Y) = (1-p) \\cdot (2 \\log 2 - \\gamma - S)$$
+        $$I(X; Y) = (1-p) \\cdot (2 \\log 2 - \\gamma - S) - R(p),$$
 
 
         where
 
         $$S = \\sum_{k=1}^{\\infty} \\log k \\cdot 2^{-k},$$
 
-        so that the approximation
+        so that the first term is approximately $(1-p) \\cdot 0.3012$, and
 
-        $$I(X; Y) \\approx (1-p) \\cdot 0.3012 $$
+        $$R(p) = \\frac{(1-p) (2\\log 2 - 1)}{4} + \\frac{1 - p^2 + 2 p^2 \\log p}{4 (1-p)}
+        + \\frac{1+p}{2} \\log \\frac{1+p}{2}$$
 
-        holds.
+        Note:
+            Gao et al. (2017) omit the term $R(p)$, which vanishes only for $p = 0$.
+            It is the information lost as the zeros due to the inflation
+            cannot be distinguished from the zeros of the Poisson variable.
 
         Args:
-            truncation: if set to None, the above approximation will be used.
+            truncation: if set to None, the above approximation (0.3012) will be used.
                 Otherwise, the sum will be truncated at the given value.
         """
         assert truncation is None or truncation > 0
@@ -186,7 +190,16 @@ class ZeroInflatedPoissonizationSampler(BaseSampler):
             bracket = 2 * jnp.log(2) - np.euler_gamma - s
             bracket = float(bracket)
 
-        return (1 - self._p) * bracket
+        p = self._p
+        # Information lost by not observing which zeros are due to the inflation
+        p2_log_p = p**2 * np.log(p) if p > 0 else 0.0
+        loss = (
+            0.25 * (1 - p) * (2 * np.log(2) - 1)
+            + 0.25 * (1 - p**2 + 2 * p2_log_p) / (1 - p)
+            + 0.5 * (1 + p) * np.log(0.5 * (1 + p))
+        )
+
+        return max(0.0, (1 - p) * bracket - float(loss))
 
     @staticmethod
     def cite() -> str:
-- 
2.43.0


From 19164a1d199a81a0fbbbcec8e2f89b870074b7cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:23:19 +0000
Subject: [PATCH 08/24] fix: add the documented n_points attribute to
 ProductSpace

---
 src/bmi/utils.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/bmi/utils.py b/src/bmi/utils.py
index b8d522f..f146e0d 100644
--- a/src/bmi/utils.py
+++ b/src/bmi/utils.py
@@ -121,6 +121,10 @@ class ProductSpace:
     def __len__(self) -> int:
         return self.x.shape[0]
 
+    @property
+    def n_points(self) -> int:
+        return len(self)
+
     @property
     def dim_x(self) -> int:
         return self._x.shape[1]
-- 
2.43.0


From 5ca98fc08a32977b4e3729bec0e01f1b499c8a1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:23:19 +0000
Subject: [PATCH 09/24] fix: finite KSG estimates for data sets with repeated
 points

If a point has at least k copies, the distance to the kth neighbor is zero and the
point itself is not strictly closer, so that n_x = n_y = -1 and digamma(0) = -inf.
---
 src/bmi/estimators/ksg.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/bmi/estimators/ksg.py b/src/bmi/estimators/ksg.py
index 43c7250..2bb7fec 100644
--- a/src/bmi/estimators/ksg.py
+++ b/src/bmi/estimators/ksg.py
@@ -119,6 +119,8 @@ class KSGEnsembleFirstEstimator(IMutualInformationPointEstimator):
                 # Don't include the `i`th point itself in n_x and n_y
                 n_x = (distances_x < distances_k[:, None]).sum(axis=1) - 1  # Shape (batch_size,)
                 n_y = (distances_y < distances_k[:, None]).sum(axis=1) - 1  # Shape (batch_size,)
+                # If the point has at least k copies, there are no points strictly closer
+                n_x, n_y = np.maximum(n_x, 0), np.maximum(n_y, 0)
 
                 digammas = _DIGAMMA(n_x + 1) + _DIGAMMA(n_y + 1)  # Shape (batch_size,)
                 # We calculate mean(digammas) over all the points rather than the batch
@@ -221,6 +223,8 @@ class KSGEnsembleFirstEstimatorSlow(IMutualInformationPointEstimator):
                 # Don't include the `i`th point itself in n_x and n_y
                 n_x = (distances_x < distance).sum() - 1
                 n_y = (distances_y < distance).sum() - 1
+                # If the point has at least k copies, there are no points strictly closer
+                n_x, n_y = max(n_x, 0), max(n_y, 0)
 
                 digammas_per_point = _DIGAMMA(n_x + 1) + _DIGAMMA(n_y + 1)
                 digammas_dict[k].append(digammas_per_point)
-- 
2.43.0


From 4ff66ff59ae5a6b3f3bf990925402d078a908221 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:23:19 +0000
Subject: [PATCH 10/24] fix: KSG estimator with a repeated neighborhood size

The digammas were added once per occurrence, biasing the estimate.
---
 src/bmi/estimators/ksg.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bmi/estimators/ksg.py b/src/bmi/estimators/ksg.py
index 2bb7fec..96dda99 100644
--- a/src/bmi/estimators/ksg.py
+++ b/src/bmi/estimators/ksg.py
@@ -106,7 +106,7 @@ class KSGEnsembleFirstEstimator(IMutualInformationPointEstimator):
             # Shape is also (batch_size, n_points)
             closest_points = np.argsort(distances_xy, axis=-1)
 
-            for k in self._params.neighborhoods:
+            for k in digammas_dict:
                 # Note that the points are 0-indexed and that the "0th neighbor"
                 # is the point itself (as distance(x, x) = 0 is the smallest possible)
                 # Hence, the kth neighbour is at index k
-- 
2.43.0


From 838d8a1e173086df3c507f62bebe36241b5c9c44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:23:20 +0000
Subject: [PATCH 11/24] fix: compare the smoothed training MI with the one w
 steps ago

Index -w is w-1 steps before the final one. In particular, for w=1 the final
value was compared with itself, so that the warning could not be raised.
---
 src/bmi/estimators/neural/_training_log.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bmi/estimators/neural/_training_log.py b/src/bmi/estimators/neural/_training_log.py
index 69a46a1..1275bfe 100644
--- a/src/bmi/estimators/neural/_training_log.py
+++ b/src/bmi/estimators/neural/_training_log.py
@@ -149,7 +149,7 @@ class TrainingLog:
                 )
 
         train_mi_smooth_fin = float(train_mi_smooth[-1])
-        train_mi_smooth_prv = float(train_mi_smooth[-w])
+        train_mi_smooth_prv = float(train_mi_smooth[-w - 1])
         if train_mi_smooth_fin > 1.05 * train_mi_smooth_prv:
             self._additional_information["training_mi_still_increasing"] = True
             if self.verbose:
-- 
2.43.0


From 4da065e07af1d2fd502b5c26e9cab5ccc6ff9fc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:23:20 +0000
Subject: [PATCH 12/24] fix: allow the documented proc=0 (Jeffreys' prior) in
 the BNSL estimator

---
 src/bmi/estimators/external/r_estimators.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bmi/estimators/external/r_estimators.py b/src/bmi/estimators/external/r_estimators.py
index 6c56a53..80f9dac 100644
--- a/src/bmi/estimators/external/r_estimators.py
+++ b/src/bmi/estimators/external/r_estimators.py
@@ -89,7 +89,7 @@ class RLNNEstimator(ExternalEstimator):
 
 
 class BNSLParams(BaseModel):
-    proc: pydantic.PositiveInt
+    proc: pydantic.NonNegativeInt
 
 
 class RBNSLEstimator(ExternalEstimator):
-- 
2.43.0


From 1b90f9eb3d10f8ff8c8190dd0ccea1db6997fe38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:23:20 +0000
Subject: [PATCH 13/24] fix: pass the concentration parameter to the Gaussian
 mixture model

The alpha parameter was accepted and reported, but never used.
---
 src/bmi/estimators/external/gmm.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/bmi/estimators/external/gmm.py b/src/bmi/estimators/external/gmm.py
index 3760a7f..c98fb16 100644
--- a/src/bmi/estimators/external/gmm.py
+++ b/src/bmi/estimators/external/gmm.py
@@ -189,7 +189,9 @@ class GMMEstimator(IMutualInformationPointEstimator):
             num_samples=self._params.mcmc_num_samples,
             num_warmup=self._params.mcmc_num_warmup,
         )
-        mcmc.run(subkey, data=space.xy, K=self._params.n_components)
+        mcmc.run(
+            subkey, data=space.xy, K=self._params.n_components, alpha=self._params.alpha
+        )
 
         self._mcmc = mcmc
         self._dim_x = space.dim_x
-- 
2.43.0


From 7ed7d89cf808a501fe7c74da4a2561c74eadb784 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:23:20 +0000
Subject: [PATCH 14/24] fix: direction of the smoothing parameter in MINE

The documentation (twice) promises that values of alpha closer to 1 result in less
smoothing, and negligible smoothing at the start, but alpha weighted the previous
denominator: the default 0.9 multiplied the first gradient term by 10.
---
 src/bmi/estimators/neural/_mine_estimator.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/bmi/estimators/neural/_mine_estimator.py b/src/bmi/estimators/neural/_mine_estimator.py
index b735a50..43a6a19 100644
--- a/src/bmi/estimators/neural/_mine_estimator.py
+++ b/src/bmi/estimators/neural/_mine_estimator.py
@@ -86,8 +86,8 @@ def _mine_value_neg_grad_log_denom(
     # compute denominator (with exponential smoothing)
     log_denom_batch = lme_T_u
     log_denom = jnp.logaddexp(
-        jnp.log(alpha) + log_denom_prev,
-        jnp.log(1.0 - alpha) + log_denom_batch,
+        jnp.log(1.0 - alpha) + log_denom_prev,
+        jnp.log(alpha) + log_denom_batch,
     )
     correction = jnp.exp(log_denom_batch - log_denom)
 
-- 
2.43.0


From f557f03dc65ef6ea0959b456ebbe8775d9e06b05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:25:48 +0000
Subject: [PATCH 15/24] fix: non-negative Monte Carlo mutual information of
 mixture samplers

For (nearly) independent variables the Monte Carlo estimate can be slightly negative,
in which case no attribute of a task could be accessed, e.g., for
task_waves(n_components=1), as the metadata requires a non-negative value.
---
 src/bmi/samplers/_tfp/_wrapper.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/bmi/samplers/_tfp/_wrapper.py b/src/bmi/samplers/_tfp/_wrapper.py
index 61b6d64..9c60dec 100644
--- a/src/bmi/samplers/_tfp/_wrapper.py
+++ b/src/bmi/samplers/_tfp/_wrapper.py
@@ -49,7 +49,9 @@ class BMMSampler(BaseSampler):
             return self._mi
         else:
             rng = cast_to_rng(self._mi_estimate_seed)
-            self._mi, self._mi_stderr = monte_carlo_mi_estimate(
+            mi_estimate, self._mi_stderr = monte_carlo_mi_estimate(
                 key=rng, dist=self._dist, n=self._mi_estimate_sample
             )
+            # Mutual information is always non-negative
+            self._mi = jax.numpy.maximum(mi_estimate, 0.0)
             return self._mi
-- 
2.43.0


From 88d67389cec8b5f91f0f026d9c7d6ace3284a986 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:25:48 +0000
Subject: [PATCH 16/24] fix: return an array for a single subplot if
 squeeze=False

---
 src/bmi/plot_utils/subplots_from_axsize.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bmi/plot_utils/subplots_from_axsize.py b/src/bmi/plot_utils/subplots_from_axsize.py
index be305a9..a55f3ad 100644
--- a/src/bmi/plot_utils/subplots_from_axsize.py
+++ b/src/bmi/plot_utils/subplots_from_axsize.py
@@ -94,7 +94,7 @@ def subplots_from_axsize(
     if squeeze:
         axs = np.squeeze(axs)
 
-    if len(axs.ravel()) == 1:
+    if squeeze and len(axs.ravel()) == 1:
         return fig, axs.ravel()[0]
     else:
         return fig, axs
-- 
2.43.0


From 3e59b986c28b1baf389eb4031b2fd1390524c177 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:11:11 +0000
Subject: [PATCH 17/24] fix: histogram estimator silently replaced n_bins_y=0
 by n_bins_x

---
 src/bmi/estimators/_histogram.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bmi/estimators/_histogram.py b/src/bmi/estimators/_histogram.py
index 49e2b74..dac39e2 100644
--- a/src/bmi/estimators/_histogram.py
+++ b/src/bmi/estimators/_histogram.py
@@ -33,7 +33,7 @@ class HistogramEstimator(IMutualInformationPointEstimator):
         """
         self._params = HistogramEstimatorParams(
             n_bins_x=n_bins_x,
-            n_bins_y=n_bins_y or n_bins_x,  # If `n_bins_y` is None, use `n_bins_x`.
+            n_bins_y=n_bins_x if n_bins_y is None else n_bins_y,
             standardize=standardize,
         )
 
-- 
2.43.0


From 724b06b1bd6803ef14b3261baa613a3404efe40e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:11:11 +0000
Subject: [PATCH 18/24] fix: neural estimators accepted step and split
 parameters which fail during training (MINE rejects them)

---
 src/bmi/estimators/neural/_estimators.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/bmi/estimators/neural/_estimators.py b/src/bmi/estimators/neural/_estimators.py
index 9103736..2f4e040 100644
--- a/src/bmi/estimators/neural/_estimators.py
+++ b/src/bmi/estimators/neural/_estimators.py
@@ -32,8 +32,8 @@ class NeuralEstimatorParams(BaseModel):
     mi_formula: str
     batch_size: pydantic.PositiveInt
     max_n_steps: pydantic.PositiveInt
-    train_test_split: Optional[float]
-    test_every_n_steps: int
+    train_test_split: Optional[pydantic.confloat(gt=0.0, lt=1.0)]
+    test_every_n_steps: pydantic.PositiveInt
     learning_rate: pydantic.PositiveFloat
     standardize: bool
     seed: int
-- 
2.43.0


From a8f311577102f8724894f98de449b12e8998533f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:11:11 +0000
Subject: [PATCH 19/24] fix: latent variable parametrization accepted empty
 variables

---
 src/bmi/samplers/_matrix_utils.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/bmi/samplers/_matrix_utils.py b/src/bmi/samplers/_matrix_utils.py
index f71a981..e1a0d4a 100644
--- a/src/bmi/samplers/_matrix_utils.py
+++ b/src/bmi/samplers/_matrix_utils.py
@@ -167,6 +167,10 @@ class GaussianLVMParametrization:
     eta_y: Optional[float] = None
 
     def __post_init__(self) -> None:
+        if min(self.dim_x, self.dim_y) < 1:
+            raise ValueError(
+                f"dim_x and dim_y must be at least 1. Were {self.dim_x}, {self.dim_y}."
+            )
         if not 0 <= self.n_interacting <= min(self.dim_x, self.dim_y):
             raise ValueError(
                 f"n_interacting={self.n_interacting} must be between 0 and the smaller"
-- 
2.43.0


From 0e83f99733418c4e2d1d78b1d2f698ec73c8705e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:11:11 +0000
Subject: [PATCH 20/24] fix: GMM estimator accepted non-positive numbers of
 components, samples and concentrations

---
 src/bmi/estimators/external/gmm.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/bmi/estimators/external/gmm.py b/src/bmi/estimators/external/gmm.py
index c98fb16..73a2078 100644
--- a/src/bmi/estimators/external/gmm.py
+++ b/src/bmi/estimators/external/gmm.py
@@ -19,6 +19,7 @@ from typing import Optional
 
 import jax
 import jax.numpy as jnp
+import pydantic
 from numpy.typing import ArrayLike
 
 from bmi.interface import BaseModel, IMutualInformationPointEstimator
@@ -130,12 +131,12 @@ class GMMEstimatorParams(BaseModel):
     """
 
     standardize: bool
-    n_components: int
-    alpha: Optional[float]
-    mcmc_num_warmup: int
-    mcmc_num_samples: int
-    mi_estimate_num_samples: int
-    n_thinned_samples: int
+    n_components: pydantic.PositiveInt
+    alpha: Optional[pydantic.PositiveFloat]
+    mcmc_num_warmup: pydantic.NonNegativeInt
+    mcmc_num_samples: pydantic.PositiveInt
+    mi_estimate_num_samples: pydantic.PositiveInt
+    n_thinned_samples: pydantic.PositiveInt
 
 
 class GMMEstimator(IMutualInformationPointEstimator):
-- 
2.43.0


From f6a46f05c2d2a380a8d6c5348bdea247aad15555 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:16:05 +0000
Subject: [PATCH 21/24] fix: Spiral rejected generators given as nested lists
 (ArrayLike)

---
 src/bmi/transforms/_rotate.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bmi/transforms/_rotate.py b/src/bmi/transforms/_rotate.py
index d1bc63e..3e205ca 100644
--- a/src/bmi/transforms/_rotate.py
+++ b/src/bmi/transforms/_rotate.py
@@ -39,7 +39,7 @@ class Spiral(eqx.Module):
             speed: for convenience, the passed `generator` will be scaled up by `speed` constant,
               which (for a given `generator`) controls how quickly the spiral will wind
         """
-        self.generator = jnp.asarray(generator * speed)
+        self.generator = jnp.asarray(generator) * speed
 
         if len(self.generator.shape) != 2 or self.generator.shape[0] != self.generator.shape[1]:
             raise ValueError(f"Generator has wrong shape {self.generator.shape}.")
-- 
2.43.0


From eb87c1e984e149d5c4ae678f4809fca3c9c76655 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:02:05 +0000
Subject: [PATCH 22/24] fix: read the dictionaries of result tables as Python
 literals, not as YAML

---
 .../Beyond_Normal/_common_figure_utils.py      | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/workflows/projects/Beyond_Normal/_common_figure_utils.py b/workflows/projects/Beyond_Normal/_common_figure_utils.py
index d4476e6..fa1f4fe 100644
--- a/workflows/projects/Beyond_Normal/_common_figure_utils.py
+++ b/workflows/projects/Beyond_Normal/_common_figure_utils.py
@@ -1,10 +1,10 @@
+import ast
 from typing import Optional
 
 import matplotlib
 import numpy as np
 import pandas as pd
 import seaborn as sns
-import yaml
 
 import bmi
 import bmi.estimators
@@ -67,6 +67,20 @@ ESTIMATOR_NAMES = {
 assert set(ESTIMATORS.keys()) <= set(ESTIMATOR_NAMES.keys())
 
 
+class _FloatNames(ast.NodeTransformer):
+    """Replaces `nan` and `inf`, which are not literals, by their values."""
+
+    def visit_Name(self, node):
+        if node.id in ("nan", "inf"):
+            return ast.copy_location(ast.Constant(float(node.id)), node)
+        return node
+
+
+def _parse_dict(text: str) -> dict:
+    """Reads a dictionary from its Python representation, which is what is stored in CSV files."""
+    return ast.literal_eval(_FloatNames().visit(ast.parse(text, mode="eval")))
+
+
 def read_results(
     path: str,
     unpack_task_params: bool = True,
@@ -77,7 +91,7 @@ def read_results(
 
     # read dicts
     for col in ["task_params", "additional_information"]:
-        results[col] = results[col].apply(lambda x: yaml.safe_load(x))
+        results[col] = results[col].apply(_parse_dict)
 
     # unpack
     rows = []
-- 
2.43.0


From 8fcd0be00cf0ce97b737c13e43f1665937231cb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:02:05 +0000
Subject: [PATCH 23/24] fix: benchmark heat map with tasks which have no
 results

---
 workflows/projects/Beyond_Normal/_common_figure_utils.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/workflows/projects/Beyond_Normal/_common_figure_utils.py b/workflows/projects/Beyond_Normal/_common_figure_utils.py
index fa1f4fe..104e3a0 100644
--- a/workflows/projects/Beyond_Normal/_common_figure_utils.py
+++ b/workflows/projects/Beyond_Normal/_common_figure_utils.py
@@ -256,7 +256,11 @@ def plot_benchmark_mi_estimate(ax, results, estimators, tasks, estimator_names={
     )
 
     table_estimate = make_benchmark_table(data, "mi_estimate", estimators, tasks, estimator_names)
-    table_estimate["True MI"] = [task.mutual_information for task in tasks.values()]
+    table_estimate["True MI"] = [
+        task.mutual_information
+        for task_id, task in tasks.items()
+        if task_id in set(data["task_id"])
+    ]
 
     table_log_rel_err = make_benchmark_table(
         data, "log_relative_error", estimators, tasks, estimator_names
-- 
2.43.0


From a921c98dc0db43e18c7643b1cff7500021148f24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:38:47 +0000
Subject: [PATCH 24/24] fix: off-diagonal mean of large batches overflowed
 32-bit integers

---
 src/bmi/estimators/neural/_backend_linear_memory.py    | 5 +++--
 src/bmi/estimators/neural/_backend_quadratic_memory.py | 3 ++-
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/bmi/estimators/neural/_backend_linear_memory.py b/src/bmi/estimators/neural/_backend_linear_memory.py
index 1153eac..dc0d4a7 100644
--- a/src/bmi/estimators/neural/_backend_linear_memory.py
+++ b/src/bmi/estimators/neural/_backend_linear_memory.py
@@ -37,13 +37,14 @@ def logmeanexp_nodiag(f: Critic, xs: BatchedPoints, ys: BatchedPoints, offset: f
         return i + 1, logsumexp(fs)
 
     # We have now logsumexp calculated along axis
-    size, vals = jax.lax.scan(body_fun, 0, xs)
+    _, vals = jax.lax.scan(body_fun, 0, xs)
 
     # Now we will logsumexp it to have the total logsumexp...
     lse = logsumexp(vals)
 
     # ... and finally we subtract the log-denominator to have the mean
-    n_elements = size * (size - 1)
+    # (as a float, the number of pairs in a large batch does not fit into a 32-bit integer)
+    n_elements = float(len(xs) * (len(xs) - 1))
 
     return lse - jnp.log(n_elements)
 
diff --git a/src/bmi/estimators/neural/_backend_quadratic_memory.py b/src/bmi/estimators/neural/_backend_quadratic_memory.py
index 7550b7d..1434cc0 100644
--- a/src/bmi/estimators/neural/_backend_quadratic_memory.py
+++ b/src/bmi/estimators/neural/_backend_quadratic_memory.py
@@ -37,7 +37,8 @@ def logmeanexp_nodiag(array: jnp.ndarray) -> float:
         array + jnp.diag(neg_inf_vector),
         axis=(0, 1),
     )
-    n_elements = size * (size - 1)
+    # As a float, since for large batches it does not fit into a 32-bit integer
+    n_elements = float(size * (size - 1))
 
     return sum_offdiagonal - jnp.log(n_elements)
 
-- 
2.43.0

