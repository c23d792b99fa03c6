From 403580c02448241052aef5cd3f01873fd16c1269 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:54 +0000
Subject: [PATCH 01/39] fix: EnbPI.conformal_interval_from_residuals supports
 batches of new points and leaves the given residuals unchanged

---
 fortuna/conformal/regression/enbpi.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/fortuna/conformal/regression/enbpi.py b/fortuna/conformal/regression/enbpi.py
index 32c5e00..b6fb142 100644
--- a/fortuna/conformal/regression/enbpi.py
+++ b/fortuna/conformal/regression/enbpi.py
@@ -273,10 +273,12 @@ class EnbPI(ConformalRegressor):
                     "second dimension greater than 1."
                 )
 
-        train_residuals[:-1] = train_residuals[1:]
-        train_residuals[-1] = np.abs(
+        new_residuals = np.abs(
             new_train_targets - self.aggregation_fun(bootstrap_new_train_preds)
         )
+        train_residuals = np.concatenate((train_residuals, new_residuals))[
+            -len(train_residuals) :
+        ]
         aggr_test_preds = self.aggregation_fun(bootstrap_new_test_preds)
         residuals_quantile = jnp.quantile(train_residuals, q=1 - error, axis=0)
 
-- 
2.43.0


From cf736a48cfa8141cf2ad0583e1fe075d4448cc80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:54 +0000
Subject: [PATCH 02/39] fix: CVPlusConformalRegressor does not modify the lists
 of its caller

---
 fortuna/conformal/regression/cvplus.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/fortuna/conformal/regression/cvplus.py b/fortuna/conformal/regression/cvplus.py
index 2fee601..9ef9ea7 100644
--- a/fortuna/conformal/regression/cvplus.py
+++ b/fortuna/conformal/regression/cvplus.py
@@ -55,6 +55,9 @@ class CVPlusConformalRegressor(ConformalRegressor):
             raise TypeError("`cross_val_targets` must be a list of arrays.")
         if type(cross_test_outputs) != list:
             raise TypeError("`cross_test_outputs` must be a list of arrays.")
+        cross_val_outputs = list(cross_val_outputs)
+        cross_val_targets = list(cross_val_targets)
+        cross_test_outputs = list(cross_test_outputs)
         for i, (mu, y, mu_test) in enumerate(
             zip(cross_val_outputs, cross_val_targets, cross_test_outputs)
         ):
-- 
2.43.0


From 3dbe9bdd149c9316755ed2ab5205eb792bca4301 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:20 +0000
Subject: [PATCH 03/39] fix: conformal classification sets keep the labels with
 small non-conformity scores

---
 fortuna/conformal/classification/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fortuna/conformal/classification/base.py b/fortuna/conformal/classification/base.py
index 73aa3b2..bca3a12 100644
--- a/fortuna/conformal/classification/base.py
+++ b/fortuna/conformal/classification/base.py
@@ -48,7 +48,7 @@ class ConformalClassifier:
         test_scores: Array,
         error: float,
     ) -> List[List[int]]:
-        conds = jnp.sum(val_scores[:, None, None] > test_scores[None], axis=0) < (
+        conds = jnp.sum(val_scores[:, None, None] < test_scores[None], axis=0) < (
             1 - error
         ) * (len(val_scores) + 1)
         sizes = conds.sum(1)
-- 
2.43.0


From f3563ac4ad107cf4965d956017bc9f1f74ec6b6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:20 +0000
Subject: [PATCH 04/39] fix: true_negative_coverage uses the region whose
 precision is calibrated

---
 .../classification/maxcovfixprec_binary_classfication.py        | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fortuna/conformal/classification/maxcovfixprec_binary_classfication.py b/fortuna/conformal/classification/maxcovfixprec_binary_classfication.py
index df57741..82c0dbd 100644
--- a/fortuna/conformal/classification/maxcovfixprec_binary_classfication.py
+++ b/fortuna/conformal/classification/maxcovfixprec_binary_classfication.py
@@ -117,7 +117,7 @@ class MaxCoverageFixedPrecisionBinaryClassificationCalibrator:
 
     @staticmethod
     def true_negative_coverage(probs: Array, threshold: float):
-        return jnp.mean(probs <= threshold)
+        return jnp.mean(probs <= 1 - threshold)
 
     @property
     def patches(self):
-- 
2.43.0


From 52cee322700d9e3dabf62735afa9603f16775428 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:51 +0000
Subject: [PATCH 05/39] fix: iterative multivalid methods keep the patch of the
 round in which they converge

---
 fortuna/conformal/multivalid/iterative/base.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/fortuna/conformal/multivalid/iterative/base.py b/fortuna/conformal/multivalid/iterative/base.py
index ba50f37..87b56d9 100644
--- a/fortuna/conformal/multivalid/iterative/base.py
+++ b/fortuna/conformal/multivalid/iterative/base.py
@@ -267,6 +267,7 @@ class IterativeMultivalidMethod(MultivalidMethod):
                 break
             if val_losses[-1] <= atol:
                 logging.info(f"Absolute tolerance satisfied after {t} rounds.")
+                self._patches.append((taut, gt, vt, ct, patch))
                 converged = True
                 break
             if val_losses[-1] > val_losses[-2]:
@@ -280,6 +281,7 @@ class IterativeMultivalidMethod(MultivalidMethod):
                 and (val_losses[-2] - val_losses[-1]) / val_losses[-2] <= rtol
             ):
                 logging.info(f"Relative tolerance satisfied after {t} rounds.")
+                self._patches.append((taut, gt, vt, ct, patch))
                 converged = True
                 break
             old_losses = jnp.copy(losses)
-- 
2.43.0


From 3fcbc0f34a164b231c1f23626b31154d359eaae1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:51 +0000
Subject: [PATCH 06/39] fix: apply_patches returns the initial values, not
 None, when there are no patches and no values are given

---
 fortuna/conformal/multivalid/iterative/base.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/fortuna/conformal/multivalid/iterative/base.py b/fortuna/conformal/multivalid/iterative/base.py
index 87b56d9..8828bb3 100644
--- a/fortuna/conformal/multivalid/iterative/base.py
+++ b/fortuna/conformal/multivalid/iterative/base.py
@@ -333,13 +333,13 @@ class IterativeMultivalidMethod(MultivalidMethod):
             raise ValueError(
                 "At least one between `groups` and `values` must be provided."
             )
+        values = self._maybe_init_values(
+            values, groups.shape[0] if groups is not None else None
+        )
         if not len(self._patches):
             logging.warning("No patches available.")
             return values
 
-        values = self._maybe_init_values(
-            values, groups.shape[0] if groups is not None else None
-        )
         self._maybe_check_values(values)
 
         groups = self._init_groups(groups, values.shape[0])
-- 
2.43.0


From 6916ee452bd473cf8c547ec55a773dac46278a54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:51 +0000
Subject: [PATCH 07/39] fix: the multicalibration loss of one-dimensional
 values is a mean, not a sum, of squares

---
 fortuna/conformal/multivalid/mixins/multicalibrator.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/fortuna/conformal/multivalid/mixins/multicalibrator.py b/fortuna/conformal/multivalid/mixins/multicalibrator.py
index ac0f691..c90dc56 100644
--- a/fortuna/conformal/multivalid/mixins/multicalibrator.py
+++ b/fortuna/conformal/multivalid/mixins/multicalibrator.py
@@ -27,5 +27,4 @@ class MulticalibratorMixin:
     def _loss_fn(values: Array, scores: Array) -> Array:
         if scores.ndim == 2 and values.ndim == 1:
             scores = scores[:, 0]
-            return jnp.mean(jnp.sum((values - scores) ** 2, axis=-1))
         return jnp.mean((values - scores) ** 2)
-- 
2.43.0


From b35280acdba6c121eb0f53918e0baf2e8d375485 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:51 +0000
Subject: [PATCH 08/39] fix: BatchMVP calibration_error accepts missing
 thresholds

---
 fortuna/conformal/multivalid/iterative/batch_mvp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fortuna/conformal/multivalid/iterative/batch_mvp.py b/fortuna/conformal/multivalid/iterative/batch_mvp.py
index 6e9691b..eadb76d 100644
--- a/fortuna/conformal/multivalid/iterative/batch_mvp.py
+++ b/fortuna/conformal/multivalid/iterative/batch_mvp.py
@@ -279,7 +279,7 @@ class BatchMVPConformalMethod(
     def _maybe_check_values(
         values: Optional[Array], test_values: Optional[Array] = None
     ):
-        if jnp.any(values < 0) or jnp.any(values > 1):
+        if values is not None and (jnp.any(values < 0) or jnp.any(values > 1)):
             raise ValueError("All elements in `thresholds` must be within [0, 1].")
 
     @staticmethod
-- 
2.43.0


From 19dde4ea727c4fa4ce7792a1a25d11d2065366a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:51 +0000
Subject: [PATCH 09/39] fix: one-shot multivalid patches of a value do not
 depend on the other values of the batch

---
 fortuna/conformal/multivalid/one_shot/base.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/fortuna/conformal/multivalid/one_shot/base.py b/fortuna/conformal/multivalid/one_shot/base.py
index 1a73f40..a517421 100644
--- a/fortuna/conformal/multivalid/one_shot/base.py
+++ b/fortuna/conformal/multivalid/one_shot/base.py
@@ -137,13 +137,13 @@ class OneShotMultivalidMethod(MultivalidMethod):
             for c in range(b.shape[2]):
                 idx_v = jnp.argmin(jnp.abs(buckets - v))
                 if values.ndim == 1:
-                    patched_values = patched_values.at[b[:, i, c]].set(
+                    patched_values = patched_values.at[b[:, i, c] & (values == v)].set(
                         self._patches[idx_v, c]
                     )
                 else:
-                    patched_values = patched_values.at[b[:, i, c], c].set(
-                        self._patches[idx_v, c]
-                    )
+                    patched_values = patched_values.at[
+                        b[:, i, c] & (values[:, c] == v), c
+                    ].set(self._patches[idx_v, c])
         return patched_values
 
     @abc.abstractmethod
-- 
2.43.0


From c53d94e170847be1f53e92dea6568b9755ccb3ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:50 +0000
Subject: [PATCH 10/39] fix: the maximum calibration error is the largest gap
 over bins, not weighted by the counts

---
 fortuna/metric/classification.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fortuna/metric/classification.py b/fortuna/metric/classification.py
index 3b121f0..aa23e51 100755
--- a/fortuna/metric/classification.py
+++ b/fortuna/metric/classification.py
@@ -177,7 +177,7 @@ def maximum_calibration_error(
     counts, confs, accs = compute_counts_confs_accs(
         preds, probs, targets, plot, plot_options
     )
-    mce = jnp.max(counts * jnp.abs(accs - confs))
+    mce = jnp.max(jnp.abs(accs - confs))
     return mce
 
 
-- 
2.43.0


From d470afbf88b5e9e34b78dde94bfc9e5c0d1a225d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:51:13 +0000
Subject: [PATCH 11/39] fix: standard deviations are the square roots of the
 given variances

---
 fortuna/prob_output_layer/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fortuna/prob_output_layer/base.py b/fortuna/prob_output_layer/base.py
index 9423666..565dff2 100755
--- a/fortuna/prob_output_layer/base.py
+++ b/fortuna/prob_output_layer/base.py
@@ -149,7 +149,7 @@ class ProbOutputLayer(WithRNG, abc.ABC):
         jnp.ndarray
             The estimated standard deviation for each output.
         """
-        return jnp.sqrt(self.variance(outputs)) if variances is None else variances
+        return jnp.sqrt(self.variance(outputs) if variances is None else variances)
 
     @abc.abstractmethod
     def entropy(self, outputs: Array, **kwargs) -> jnp.ndarray:
-- 
2.43.0


From c903c6d6ea643f3377d281496dba47189e04323d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:51:13 +0000
Subject: [PATCH 12/39] fix: unknown credible interval types are reported as a
 ValueError

---
 fortuna/prob_output_layer/regression.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fortuna/prob_output_layer/regression.py b/fortuna/prob_output_layer/regression.py
index 6577fb8..4af9f7d 100644
--- a/fortuna/prob_output_layer/regression.py
+++ b/fortuna/prob_output_layer/regression.py
@@ -122,7 +122,7 @@ class RegressionProbOutputLayer(ProbOutputLayer):
         if interval_type not in supported_types:
             raise ValueError(
                 "`type={}` not recognised. Please choose among the following supported types: {}.".format(
-                    supported_types
+                    interval_type, supported_types
                 )
             )
         q = (
-- 
2.43.0


From e27b516f6d7096fba831aba7e0550e263556e892 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:51:13 +0000
Subject: [PATCH 13/39] fix: unsupported auxiliary objects raise the documented
 error instead of a TypeError

---
 fortuna/calib_model/loss.py                   | 2 +-
 fortuna/likelihood/base.py                    | 6 +++---
 fortuna/output_calib_model/loss.py            | 2 +-
 fortuna/output_calib_model/predictive/base.py | 2 +-
 fortuna/prob_model/predictive/base.py         | 2 +-
 5 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/fortuna/calib_model/loss.py b/fortuna/calib_model/loss.py
index 8e675a1..1dae209 100644
--- a/fortuna/calib_model/loss.py
+++ b/fortuna/calib_model/loss.py
@@ -47,7 +47,7 @@ class Loss(WithRNG):
             return_aux = []
         supported_aux = ["outputs", "mutable", "calib_mutable"]
         unsupported_aux = [s for s in return_aux if s not in supported_aux]
-        if sum(unsupported_aux) > 0:
+        if len(unsupported_aux) > 0:
             raise AttributeError(
                 """The auxiliary objects {} is unknown. Please make sure that all elements of `return_aux`
                             belong to the following list: {}""".format(
diff --git a/fortuna/likelihood/base.py b/fortuna/likelihood/base.py
index 37b392c..722e260 100644
--- a/fortuna/likelihood/base.py
+++ b/fortuna/likelihood/base.py
@@ -174,7 +174,7 @@ class Likelihood(WithRNG):
             return_aux = []
         supported_aux = ["outputs", "mutable", "calib_mutable"]
         unsupported_aux = [s for s in return_aux if s not in supported_aux]
-        if sum(unsupported_aux) > 0:
+        if len(unsupported_aux) > 0:
             raise AttributeError(
                 """The auxiliary objects {} is unknown. Please make sure that all elements of `return_aux`
                             belong to the following list: {}""".format(
@@ -311,7 +311,7 @@ class Likelihood(WithRNG):
             return_aux = []
         supported_aux = ["outputs"]
         unsupported_aux = [s for s in return_aux if s not in supported_aux]
-        if sum(unsupported_aux) > 0:
+        if len(unsupported_aux) > 0:
             raise Exception(
                 """The auxiliary objects {} are unknown. Please make sure that all elements of `return_aux`
                             belong to the following list: {}""".format(
@@ -352,7 +352,7 @@ class Likelihood(WithRNG):
             return_aux = []
         supported_aux = ["outputs"]
         unsupported_aux = [s for s in return_aux if s not in supported_aux]
-        if sum(unsupported_aux) > 0:
+        if len(unsupported_aux) > 0:
             raise Exception(
                 """The auxiliary objects {} are unknown. Please make sure that all elements of `return_aux`
                             belong to the following list: {}""".format(
diff --git a/fortuna/output_calib_model/loss.py b/fortuna/output_calib_model/loss.py
index cac3eb0..5142cb2 100644
--- a/fortuna/output_calib_model/loss.py
+++ b/fortuna/output_calib_model/loss.py
@@ -41,7 +41,7 @@ class Loss(WithRNG):
             return_aux = []
         supported_aux = ["outputs", "mutable"]
         unsupported_aux = [s for s in return_aux if s not in supported_aux]
-        if sum(unsupported_aux) > 0:
+        if len(unsupported_aux) > 0:
             raise AttributeError(
                 """The auxiliary objects {} is unknown. Please make sure that all elements of `return_aux`
                             belong to the following list: {}""".format(
diff --git a/fortuna/output_calib_model/predictive/base.py b/fortuna/output_calib_model/predictive/base.py
index a0707fb..fa19b10 100644
--- a/fortuna/output_calib_model/predictive/base.py
+++ b/fortuna/output_calib_model/predictive/base.py
@@ -273,7 +273,7 @@ class Predictive(WithRNG, abc.ABC):
             return_aux = []
         supported_aux = ["outputs", "mutable"]
         unsupported_aux = [s for s in return_aux if s not in supported_aux]
-        if sum(unsupported_aux) > 0:
+        if len(unsupported_aux) > 0:
             raise AttributeError(
                 """The auxiliary objects {} is unknown. Please make sure that all elements of `return_aux`
                             belong to the following list: {}""".format(
diff --git a/fortuna/prob_model/predictive/base.py b/fortuna/prob_model/predictive/base.py
index e6983d1..0149cb1 100644
--- a/fortuna/prob_model/predictive/base.py
+++ b/fortuna/prob_model/predictive/base.py
@@ -218,7 +218,7 @@ class Predictive(WithRNG):
             return_aux = []
         supported_aux = ["outputs", "calib_mutable"]
         unsupported_aux = [s for s in return_aux if s not in supported_aux]
-        if sum(unsupported_aux) > 0:
+        if len(unsupported_aux) > 0:
             raise Exception(
                 """The auxiliary objects {} are unknown. Please make sure that all elements of `return_aux`
                             belong to the following list: {}""".format(
-- 
2.43.0


From f1af8751070c2afb2702cc11600a0a950feee647 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:51:22 +0000
Subject: [PATCH 14/39] fix: losses without an output calibration manager use
 the model outputs, also with mutable or given outputs

---
 fortuna/calib_model/loss.py | 1 +
 fortuna/likelihood/base.py  | 1 +
 2 files changed, 2 insertions(+)

diff --git a/fortuna/calib_model/loss.py b/fortuna/calib_model/loss.py
index 1dae209..1f9d3e1 100644
--- a/fortuna/calib_model/loss.py
+++ b/fortuna/calib_model/loss.py
@@ -93,6 +93,7 @@ class Loss(WithRNG):
                 outputs = outs
 
         aux = dict()
+        outs = outputs
         if self.likelihood.output_calib_manager is not None:
             outs = self.likelihood.output_calib_manager.apply(
                 params=(
diff --git a/fortuna/likelihood/base.py b/fortuna/likelihood/base.py
index 722e260..4421549 100644
--- a/fortuna/likelihood/base.py
+++ b/fortuna/likelihood/base.py
@@ -221,6 +221,7 @@ class Likelihood(WithRNG):
                 outputs = outs
 
         aux = dict()
+        outs = outputs
         if self.output_calib_manager is not None:
             outs = self.output_calib_manager.apply(
                 params=(
-- 
2.43.0


From 4d09082351d33d7f7814da314a257ecd8fe113a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:52:27 +0000
Subject: [PATCH 15/39] fix: the output calibration loss accepts a missing
 mutable, its default

---
 fortuna/output_calib_model/loss.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fortuna/output_calib_model/loss.py b/fortuna/output_calib_model/loss.py
index 5142cb2..299316c 100644
--- a/fortuna/output_calib_model/loss.py
+++ b/fortuna/output_calib_model/loss.py
@@ -52,7 +52,7 @@ class Loss(WithRNG):
         outs = self.predictive.output_calib_manager.apply(
             params=params["output_calibrator"],
             outputs=outputs,
-            mutable=mutable["output_calibrator"],
+            mutable=mutable["output_calibrator"] if mutable is not None else None,
             rng=rng,
             calib="mutable" in return_aux,
         )
-- 
2.43.0


From 501bf116e45de7ddda3cea022343748590e63a95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:33:17 +0000
Subject: [PATCH 16/39] fix: Predictive.sample accepts a random number
 generator key

---
 fortuna/prob_model/predictive/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fortuna/prob_model/predictive/base.py b/fortuna/prob_model/predictive/base.py
index 0149cb1..18a9faf 100644
--- a/fortuna/prob_model/predictive/base.py
+++ b/fortuna/prob_model/predictive/base.py
@@ -353,7 +353,7 @@ class Predictive(WithRNG):
         Union[jnp.ndarray, Tuple[jnp.ndarray, Dict[str, jnp.ndarray]]]
             Samples for each input data point. Optionally, an auxiliary object is returned.
         """
-        if not rng:
+        if rng is None:
             rng = self.rng.get()
 
         def fun(_inputs):
-- 
2.43.0


From 79187ae8db0dd40691d1d84c4af2a879ee1b7df5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:33:17 +0000
Subject: [PATCH 17/39] fix: Predictive.sample concatenates batches along the
 data dimension, also over devices, and returns the auxiliary outputs

---
 fortuna/prob_model/predictive/base.py | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/fortuna/prob_model/predictive/base.py b/fortuna/prob_model/predictive/base.py
index 18a9faf..013a4ec 100644
--- a/fortuna/prob_model/predictive/base.py
+++ b/fortuna/prob_model/predictive/base.py
@@ -367,7 +367,7 @@ class Predictive(WithRNG):
             if return_aux is None or len(return_aux) == 0:
                 return jnp.concatenate(
                     [
-                        self.likelihood._unshard_array(fun(inputs))
+                        self._unshard_ensemble_arrays(fun(inputs))
                         for inputs in inputs_loader
                     ],
                     1,
@@ -376,15 +376,15 @@ class Predictive(WithRNG):
                 samples, aux_outputs = [], []
                 for inputs in inputs_loader:
                     _samples, _aux = fun(inputs)
-                    samples.append(self.likelihood._unshard_array(_samples))
+                    samples.append(self._unshard_ensemble_arrays(_samples))
                     if "outputs" in _aux:
                         aux_outputs.append(
-                            self.likelihood._unshard_array(_aux["outputs"])
+                            self._unshard_ensemble_arrays(_aux["outputs"])
                         )
-                samples = jnp.concatenate(samples, axis=0)
+                samples = jnp.concatenate(samples, axis=1)
                 aux = dict()
-                if "outputs" in aux:
-                    aux["outputs"] = jnp.concatenate(aux_outputs, axis=0)
+                if len(aux_outputs) > 0:
+                    aux["outputs"] = jnp.concatenate(aux_outputs, axis=1)
                 return samples, aux
         else:
             fun = jit(fun)
@@ -397,10 +397,10 @@ class Predictive(WithRNG):
                     samples.append(_samples)
                     if "outputs" in _aux:
                         aux_outputs.append(_aux["outputs"])
-                samples = jnp.concatenate(samples, axis=0)
+                samples = jnp.concatenate(samples, axis=1)
                 aux = dict()
-                if "outputs" in aux:
-                    aux["outputs"] = jnp.concatenate(aux_outputs, axis=0)
+                if len(aux_outputs) > 0:
+                    aux["outputs"] = jnp.concatenate(aux_outputs, axis=1)
                 return samples, aux
 
     def _batched_sample(
-- 
2.43.0


From 4394b64f475f3e74ef91b99d4bc58e246c5bd025 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:03:36 +0000
Subject: [PATCH 18/39] fix: credible sets with an error below the rounding of
 the total mass contain every label

---
 fortuna/prob_model/predictive/classification.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/fortuna/prob_model/predictive/classification.py b/fortuna/prob_model/predictive/classification.py
index 8119cd5..12e522a 100644
--- a/fortuna/prob_model/predictive/classification.py
+++ b/fortuna/prob_model/predictive/classification.py
@@ -474,7 +474,10 @@ class ClassificationPredictive(Predictive):
         region_classes = jnp.cumsum(p_classes_sorted, axis=1) > (1 - error)
 
         # Convert CB region into sets
-        index_true = jnp.argmax(region_classes, axis=1)  # first index where True
+        # first index where True; all labels, if the level is never exceeded
+        index_true = jnp.where(
+            region_classes.any(axis=1), jnp.argmax(region_classes, axis=1), n_classes - 1
+        )
         credible_set = np.zeros(len(index_true), dtype=object)
         for s in np.arange(n_classes):
             idx = np.where(index_true == s)[0]
-- 
2.43.0


From 298e30d1dcaec769f2cbd99f833718beb36b7c3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:34:48 +0000
Subject: [PATCH 19/39] fix: TargetsLoader.from_data_loader returns a targets
 loader, not a bare iterable

---
 fortuna/data/loader/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fortuna/data/loader/base.py b/fortuna/data/loader/base.py
index 73e1b1c..8d2a675 100644
--- a/fortuna/data/loader/base.py
+++ b/fortuna/data/loader/base.py
@@ -459,7 +459,7 @@ class BaseTargetsLoader:
         T
             A concrete instance of a subclass of :class:`~fortuna.data.loader.BaseTargetsLoader`.
         """
-        return IterableData.data_loader_to_targets_iterable(data_loader)
+        return cls(iterable=IterableData.data_loader_to_targets_iterable(data_loader))
 
     @classmethod
     def from_callable_iterable(
-- 
2.43.0


From c2cfbfd37694d59bc2a968bf13dd3de8443cd85c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:46:13 +0000
Subject: [PATCH 20/39] fix: pull and update of a state stored in a checkpoint
 directory remove the latest checkpoint file

---
 fortuna/training/train_state_repository.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/fortuna/training/train_state_repository.py b/fortuna/training/train_state_repository.py
index 25cd7fd..5c43fb6 100644
--- a/fortuna/training/train_state_repository.py
+++ b/fortuna/training/train_state_repository.py
@@ -75,10 +75,10 @@ class TrainStateRepository(WithCheckpointingMixin):
             **kwargs,
         )
         if checkpoint_path or self.checkpoint_dir:
-            os.remove(
-                checkpoint_path
-                or self.get_path_latest_checkpoint(self.checkpoint_dir, prefix=prefix)
-            )
+            path = checkpoint_path or self.checkpoint_dir
+            if os.path.isdir(path):
+                path = self.get_path_latest_checkpoint(path, prefix=prefix)
+            os.remove(path)
         return state
 
     def update(
-- 
2.43.0


From d714b43bf50491fcec37d2c54f9ed9e449386d9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:46:13 +0000
Subject: [PATCH 21/39] fix: PosteriorMultiStateRepository.put without an index
 stores the state in every slot

---
 .../prob_model/posterior/posterior_multi_state_repository.py    | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fortuna/prob_model/posterior/posterior_multi_state_repository.py b/fortuna/prob_model/posterior/posterior_multi_state_repository.py
index 734aacb..5b35a42 100644
--- a/fortuna/prob_model/posterior/posterior_multi_state_repository.py
+++ b/fortuna/prob_model/posterior/posterior_multi_state_repository.py
@@ -68,7 +68,7 @@ class PosteriorMultiStateRepository:
             _put(i)
         else:
             for i in range(self.size):
-                state.append(_put(i))
+                _put(i)
 
     def pull(
         self,
-- 
2.43.0


From 4f1f15771f2ddd145155c3165af265c6b02eff26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:46:13 +0000
Subject: [PATCH 22/39] fix: SGMCMCPosteriorStateRepository returns all states
 when only some parameters are sampled

---
 .../posterior/sgmcmc/sgmcmc_posterior_state_repository.py     | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/fortuna/prob_model/posterior/sgmcmc/sgmcmc_posterior_state_repository.py b/fortuna/prob_model/posterior/sgmcmc/sgmcmc_posterior_state_repository.py
index be34312..976f39a 100644
--- a/fortuna/prob_model/posterior/sgmcmc/sgmcmc_posterior_state_repository.py
+++ b/fortuna/prob_model/posterior/sgmcmc/sgmcmc_posterior_state_repository.py
@@ -119,7 +119,7 @@ class SGMCMCPosteriorStateRepository(PosteriorMultiStateRepository):
             return state
 
         if isinstance(state, list):
-            return [_update_state(_state, modify=modify) for _state in state]
+            return [self._update_state(_state, modify=modify) for _state in state]
 
         if modify == "add":
             state = state.replace(
@@ -154,6 +154,6 @@ class SGMCMCPosteriorStateRepository(PosteriorMultiStateRepository):
                 step=state.step,
             )
         else:
-            raise RuntimeError(f"Invalid update state method {method}.")
+            raise RuntimeError(f"Invalid update state method {modify}.")
 
         return state
-- 
2.43.0


From aeecc95b586c0bd5550990f27eb2453ea8178a3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:47:58 +0000
Subject: [PATCH 23/39] fix: save_state of deep ensembles and SGMCMC posteriors
 writes into the given directory

---
 .../deep_ensemble/deep_ensemble_posterior.py       |  7 ++++++-
 .../posterior/sgmcmc/sgmcmc_posterior.py           | 14 +++++++++++++-
 2 files changed, 19 insertions(+), 2 deletions(-)

diff --git a/fortuna/prob_model/posterior/deep_ensemble/deep_ensemble_posterior.py b/fortuna/prob_model/posterior/deep_ensemble/deep_ensemble_posterior.py
index bf72cdb..d6fb824 100755
--- a/fortuna/prob_model/posterior/deep_ensemble/deep_ensemble_posterior.py
+++ b/fortuna/prob_model/posterior/deep_ensemble/deep_ensemble_posterior.py
@@ -220,7 +220,12 @@ class DeepEnsemblePosterior(Posterior):
 
     def save_state(self, checkpoint_dir: Path, keep_top_n_checkpoints: int = 1) -> None:
         for i in range(self.posterior_approximator.ensemble_size):
-            self.state.put(state=self.state.get(i), i=i, keep=keep_top_n_checkpoints)
+            self.state.put(
+                state=self.state.get(i),
+                i=i,
+                checkpoint_path=pathlib.Path(checkpoint_dir) / str(i),
+                keep=keep_top_n_checkpoints,
+            )
 
     def _init_map_state(
         self, state: Optional[MAPState], data_loader: DataLoader, fit_config: FitConfig
diff --git a/fortuna/prob_model/posterior/sgmcmc/sgmcmc_posterior.py b/fortuna/prob_model/posterior/sgmcmc/sgmcmc_posterior.py
index b6de41e..4d5509e 100644
--- a/fortuna/prob_model/posterior/sgmcmc/sgmcmc_posterior.py
+++ b/fortuna/prob_model/posterior/sgmcmc/sgmcmc_posterior.py
@@ -77,7 +77,19 @@ class SGMCMCPosterior(Posterior):
 
     def save_state(self, checkpoint_dir: Path, keep_top_n_checkpoints: int = 1) -> None:
         for i in range(self.posterior_approximator.n_samples):
-            self.state.put(state=self.state.get(i), i=i, keep=keep_top_n_checkpoints)
+            state = self.state.get(i)
+            self.state.put(
+                state=state,
+                i=i,
+                checkpoint_path=pathlib.Path(checkpoint_dir) / str(i),
+                keep=keep_top_n_checkpoints,
+            )
+        self.save_checkpoint(
+            state,
+            save_checkpoint_dir=pathlib.Path(checkpoint_dir) / "c",
+            keep=keep_top_n_checkpoints,
+            force_save=True,
+        )
 
     def _restore_state_from_somewhere(
         self,
-- 
2.43.0


From ebc78840eda085dc6936e4f97352c0863bd8eb88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:47:58 +0000
Subject: [PATCH 24/39] fix: deep ensemble members starting from a preliminary
 MAP use the configured optimizer

---
 .../posterior/deep_ensemble/deep_ensemble_posterior.py           | 1 +
 1 file changed, 1 insertion(+)

diff --git a/fortuna/prob_model/posterior/deep_ensemble/deep_ensemble_posterior.py b/fortuna/prob_model/posterior/deep_ensemble/deep_ensemble_posterior.py
index d6fb824..cd5537e 100755
--- a/fortuna/prob_model/posterior/deep_ensemble/deep_ensemble_posterior.py
+++ b/fortuna/prob_model/posterior/deep_ensemble/deep_ensemble_posterior.py
@@ -251,6 +251,7 @@ class DeepEnsemblePosterior(Posterior):
                 state.params, fit_config.optimizer.freeze_fun
             )
             state = state.replace(
+                tx=fit_config.optimizer.method,
                 params=FrozenDict(
                     nested_set(
                         d=state.params.unfreeze(),
-- 
2.43.0


From 9a326ed9c59a09018afef58dea8b481026c40f5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:05:56 +0000
Subject: [PATCH 25/39] fix: constant schedule with cosine burn-in is NaN at
 the first step when there is no burn-in

---
 fortuna/prob_model/posterior/sgmcmc/sgmcmc_step_schedule.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fortuna/prob_model/posterior/sgmcmc/sgmcmc_step_schedule.py b/fortuna/prob_model/posterior/sgmcmc/sgmcmc_step_schedule.py
index 485a680..b3b206b 100644
--- a/fortuna/prob_model/posterior/sgmcmc/sgmcmc_step_schedule.py
+++ b/fortuna/prob_model/posterior/sgmcmc/sgmcmc_step_schedule.py
@@ -109,7 +109,7 @@ def constant_schedule_with_cosine_burnin(
         raise ValueError("`burnin_steps` should be >= 0.")
 
     def schedule(step: Array):
-        t = jnp.minimum(step / burnin_steps, 1.0)
+        t = jnp.minimum(step / burnin_steps, 1.0) if burnin_steps > 0 else 1.0
         coef = (1 + jnp.cos(t * np.pi)) * 0.5
         return coef * init_step_size + (1 - coef) * final_step_size
 
-- 
2.43.0


From 057375d94ca1edb8e1631d5883b8c6b960d93b67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:05:56 +0000
Subject: [PATCH 26/39] fix: refuse cyclical schedules with an empty cycle,
 whose step sizes are NaN

---
 fortuna/prob_model/posterior/sgmcmc/sgmcmc_step_schedule.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/fortuna/prob_model/posterior/sgmcmc/sgmcmc_step_schedule.py b/fortuna/prob_model/posterior/sgmcmc/sgmcmc_step_schedule.py
index b3b206b..fa903de 100644
--- a/fortuna/prob_model/posterior/sgmcmc/sgmcmc_step_schedule.py
+++ b/fortuna/prob_model/posterior/sgmcmc/sgmcmc_step_schedule.py
@@ -138,8 +138,8 @@ def cyclical_cosine_schedule_with_const_burnin(
         raise ValueError("`init_step_size` should be >= 0.")
     if not burnin_steps >= 0:
         raise ValueError("`burnin_steps` should be >= 0.")
-    if not cycle_length >= 0:
-        raise ValueError("`cycle_length` should be >= 0.")
+    if not cycle_length > 0:
+        raise ValueError("`cycle_length` should be > 0.")
 
     def schedule(step: Array):
         t = jnp.maximum(step - burnin_steps - 1, 0.0)
-- 
2.43.0


From cd2a1b0c0c9959e683d7a9d3f23aa2055dae53c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:11:30 +0000
Subject: [PATCH 27/39] fix: keys handed out by RandomNumberGenerator are not
 the keys later ones are split from

---
 fortuna/utils/random.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/fortuna/utils/random.py b/fortuna/utils/random.py
index a34dd09..71aaf53 100644
--- a/fortuna/utils/random.py
+++ b/fortuna/utils/random.py
@@ -37,7 +37,7 @@ class RandomNumberGenerator:
 
     def get(self) -> jax.Array:
         """
-        Get the internal random number generator key. Whenever this function is called, the random number generator
+        Get a new random number generator key. Whenever this function is called, the internal random number generator
         key is updated.
 
         Returns
@@ -45,8 +45,8 @@ class RandomNumberGenerator:
         jax.Array
             A random number generator key.
         """
-        self._rng = random.split(self._rng)[0]
-        return self._rng
+        self._rng, key = random.split(self._rng)
+        return key
 
 
 class WithRNG:
-- 
2.43.0


From 0c80470628d6085970da38aab52d772cd1239bee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:11:00 +0000
Subject: [PATCH 28/39] fix: SWAG trained on several devices keeps unreplicated
 statistics and the frozen parameters

---
 fortuna/prob_model/posterior/swag/swag_trainer.py | 11 +----------
 1 file changed, 1 insertion(+), 10 deletions(-)

diff --git a/fortuna/prob_model/posterior/swag/swag_trainer.py b/fortuna/prob_model/posterior/swag/swag_trainer.py
index 2601d77..7ee65be 100644
--- a/fortuna/prob_model/posterior/swag/swag_trainer.py
+++ b/fortuna/prob_model/posterior/swag/swag_trainer.py
@@ -8,7 +8,6 @@ from typing import (
 )
 
 from flax.core import FrozenDict
-from jax import device_get
 from jax.flatten_util import ravel_pytree
 import jax.numpy as jnp
 from jax.tree_util import tree_map
@@ -147,12 +146,4 @@ class JittedSWAGTrainer(SWAGJittedMixin, SWAGTrainer):
 
 
 class MultiDeviceSWAGTrainer(SWAGMultiDeviceMixin, SWAGTrainer):
-    def on_train_end(self, state: SWAGState) -> SWAGState:
-        self.save_checkpoint(
-            state,
-            save_checkpoint_dir=self.save_checkpoint_dir,
-            keep=self.keep_top_n_checkpoints,
-            force_save=True,
-        )
-        state = device_get(tree_map(lambda x: x[0], state))
-        return self._update_state_with_stats(state)
+    pass
-- 
2.43.0


From 59d34d4098d92d8ebef2002a0a2930aa3f40f894 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:11:00 +0000
Subject: [PATCH 29/39] fix: SWAG averages every iterate equally, also with
 several batches per epoch

---
 fortuna/prob_model/posterior/swag/swag_trainer.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/fortuna/prob_model/posterior/swag/swag_trainer.py b/fortuna/prob_model/posterior/swag/swag_trainer.py
index 7ee65be..b218f90 100644
--- a/fortuna/prob_model/posterior/swag/swag_trainer.py
+++ b/fortuna/prob_model/posterior/swag/swag_trainer.py
@@ -33,6 +33,7 @@ class SWAGTrainer(MAPTrainer):
         self._mean_rav_params = None
         self._mean_squared_rav_params = None
         self._deviation_rav_params = None
+        self._n_iterates = 0
         self._encoded_which_params = encode_tuple_of_lists_of_strings_to_numpy(
             which_params
         )
@@ -85,13 +86,13 @@ class SWAGTrainer(MAPTrainer):
             self._mean_squared_rav_params = rav_params**2
             self._deviation_rav_params = jnp.zeros((len(rav_params), 1))
         else:
-            self._mean_rav_params *= current_epoch
+            self._mean_rav_params *= self._n_iterates
             self._mean_rav_params += rav_params
-            self._mean_rav_params /= current_epoch + 1
+            self._mean_rav_params /= self._n_iterates + 1
 
-            self._mean_squared_rav_params *= current_epoch
+            self._mean_squared_rav_params *= self._n_iterates
             self._mean_squared_rav_params += rav_params**2
-            self._mean_squared_rav_params /= current_epoch + 1
+            self._mean_squared_rav_params /= self._n_iterates + 1
             self._deviation_rav_params = jnp.concatenate(
                 (
                     self._deviation_rav_params[:, -kwargs["rank"] + 1 :],
@@ -99,6 +100,7 @@ class SWAGTrainer(MAPTrainer):
                 ),
                 axis=1,
             )
+        self._n_iterates += 1
         return super().training_step_end(
             current_epoch, state, aux, batch, metrics, callbacks, kwargs
         )
-- 
2.43.0


From af8c44465bd289ce171812f3d677a2b5578d7e7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:11:00 +0000
Subject: [PATCH 30/39] fix: restored paths of trainable parameters keep their
 order beyond ten

---
 fortuna/utils/strings.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/fortuna/utils/strings.py b/fortuna/utils/strings.py
index f54e50a..f68faca 100644
--- a/fortuna/utils/strings.py
+++ b/fortuna/utils/strings.py
@@ -36,6 +36,11 @@ def decode_encoded_tuple_of_lists_of_strings_to_array(
         return None
     encoded = tree_map(lambda v: "".join([chr(o) for o in v]), encoded)
     if isinstance(encoded, dict):
-        return tuple([list(v.values()) for k, v in encoded.items()])
+        return tuple(
+            [
+                [encoded[i][j] for j in sorted(encoded[i], key=int)]
+                for i in sorted(encoded, key=int)
+            ]
+        )
     else:
         return encoded
-- 
2.43.0


From fda67cc34c63a42cc60c62726ebfb64bd0d78846 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:11:00 +0000
Subject: [PATCH 31/39] fix: Laplace tunes the prior log-variance without
 distribution, on several devices and with a diagonal prior

---
 .../posterior/laplace/laplace_posterior.py    | 28 +++++++++++--------
 1 file changed, 16 insertions(+), 12 deletions(-)

diff --git a/fortuna/prob_model/posterior/laplace/laplace_posterior.py b/fortuna/prob_model/posterior/laplace/laplace_posterior.py
index 5e6376f..f124268 100755
--- a/fortuna/prob_model/posterior/laplace/laplace_posterior.py
+++ b/fortuna/prob_model/posterior/laplace/laplace_posterior.py
@@ -10,10 +10,7 @@ from typing import (
 )
 
 from flax.core import FrozenDict
-from flax.training.common_utils import (
-    shard,
-    shard_prng_key,
-)
+from flax.training.common_utils import shard_prng_key
 import jax
 from jax import (
     devices,
@@ -489,11 +486,21 @@ class LaplacePosterior(Posterior):
         candidates = list(
             jnp.linspace(min_prior_log_var, max_prior_log_var, grid_size)
         ) + [jnp.array(self.joint.prior.log_var)]
+        rng = jax.random.PRNGKey(0)
         if distribute:
-            rng = shard_prng_key(jax.random.PRNGKey(0))
+            rng = shard_prng_key(rng)
             val_data_loader = DeviceDimensionAugmentedLoader(val_data_loader)
-            candidates = [shard(c) for c in candidates]
-            fn = pmap(self._batched_log_prob, static_broadcasted_argnums=(2,))
+            pmap_fn = pmap(
+                self._batched_log_prob,
+                in_axes=(0, None, None, 0),
+                static_broadcasted_argnums=(2,),
+            )
+
+            def fn(batch, lpv, n_posterior_samples, rng):
+                return self.joint.likelihood._unshard_array(
+                    pmap_fn(batch, lpv, n_posterior_samples, rng)
+                )
+
         else:
             fn = jit(self._batched_log_prob, static_argnums=(2,))
 
@@ -501,9 +508,7 @@ class LaplacePosterior(Posterior):
             neg_log_prob = -jnp.sum(
                 jnp.concatenate(
                     [
-                        self.joint.likelihood._unshard_array(
-                            fn(batch, lpv, n_posterior_samples, rng)
-                        )
+                        fn(batch, lpv, n_posterior_samples, rng)
                         for batch in val_data_loader
                     ],
                     0,
@@ -512,5 +517,4 @@ class LaplacePosterior(Posterior):
             if best is None or neg_log_prob < best[-1]:
                 best = (lpv, neg_log_prob)
 
-        opt_prior_log_var = best[0].reshape()
-        return opt_prior_log_var
+        return best[0]
-- 
2.43.0


From ca95e4ee0e95402636d6a6329734561e83ff1d45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:11:01 +0000
Subject: [PATCH 32/39] fix: Laplace with a diagonal prior and frozen
 parameters uses the prior of the trainable ones

---
 .../posterior/laplace/laplace_posterior.py       | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/fortuna/prob_model/posterior/laplace/laplace_posterior.py b/fortuna/prob_model/posterior/laplace/laplace_posterior.py
index f124268..dd6b2bd 100755
--- a/fortuna/prob_model/posterior/laplace/laplace_posterior.py
+++ b/fortuna/prob_model/posterior/laplace/laplace_posterior.py
@@ -330,8 +330,22 @@ class LaplacePosterior(Posterior):
                 which_params,
                 ("mean", "hess_lik_diag"),
             )
+            prior_log_var = state.prior_log_var
+            if jnp.size(prior_log_var) > 1:
+                # keep the prior log-variances of the trainable parameters only
+                prior_log_var = ravel_pytree(mean)[1](prior_log_var)
+                prior_log_var = ravel_pytree(
+                    nested_set(
+                        d={},
+                        key_paths=which_params,
+                        objs=tuple(
+                            [nested_get(prior_log_var, keys) for keys in which_params]
+                        ),
+                        allow_nonexistent=True,
+                    )
+                )[0]
             std = self._compute_std(
-                prior_log_var=state.prior_log_var, hess_lik_diag=hess_lik_diag
+                prior_log_var=prior_log_var, hess_lik_diag=hess_lik_diag
             )
 
             noise = generate_random_normal_like_tree(rng, std)
-- 
2.43.0


From c44b39f8d4eb329aa4be3f058eefad57107dc1bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:11:01 +0000
Subject: [PATCH 33/39] fix: regression model manager supports mutable
 collections, returning each model's own

---
 fortuna/model/model_manager/regression.py | 75 ++++++++---------------
 1 file changed, 27 insertions(+), 48 deletions(-)

diff --git a/fortuna/model/model_manager/regression.py b/fortuna/model/model_manager/regression.py
index d915c4b..6557109 100644
--- a/fortuna/model/model_manager/regression.py
+++ b/fortuna/model/model_manager/regression.py
@@ -63,80 +63,59 @@ class RegressionModelManager(ModelManager):
             model_rngs = None
             lik_log_var_rngs = None
 
+        has_aux = train and mutable is not None
+        model_mutable = dict()
+        lik_log_var_mutable = dict()
         if mutable is not None:
-            mutable["model"] = mutable.get("model")
-            mutable["lik_log_var"] = mutable.get("lik_log_var")
+            model_mutable = dict(mutable.get("model") or dict())
+            lik_log_var_mutable = dict(mutable.get("lik_log_var") or dict())
 
-        model_has_aux = train and mutable is not None and mutable["model"] is not None
-        lik_log_var_has_aux = (
-            train and mutable is not None and mutable["lik_log_var"] is not None
-        )
-
-        def apply_fn(p, x, m_mutable, llv_mutable):
+        def apply_fn(p, x):
             model_outputs = self.model.apply(
-                p["model"],
+                {**p["model"], **model_mutable},
                 x,
                 train=train,
-                mutable=m_mutable,
+                mutable=list(model_mutable.keys()) if mutable is not None else False,
                 rngs=model_rngs,
             )
             lik_log_var_outputs = self.likelihood_log_variance_model.apply(
-                p["lik_log_var"],
+                {**p["lik_log_var"], **lik_log_var_mutable},
                 x,
                 train=train,
-                mutable=llv_mutable,
+                mutable=(
+                    list(lik_log_var_mutable.keys()) if mutable is not None else False
+                ),
                 rngs=lik_log_var_rngs,
             )
 
-            if isinstance(model_outputs, tuple) and not model_has_aux:
+            aux = dict()
+            if has_aux:
+                model_outputs, aux["model"] = model_outputs
+                lik_log_var_outputs, aux["lik_log_var"] = lik_log_var_outputs
+            if isinstance(model_outputs, tuple):
                 model_outputs = model_outputs[0]
-            if isinstance(lik_log_var_outputs, tuple) and not lik_log_var_has_aux:
+            if isinstance(lik_log_var_outputs, tuple):
                 lik_log_var_outputs = lik_log_var_outputs[0]
 
-            if model_has_aux:
-                model_outputs, m_mutable = model_outputs
-            if lik_log_var_has_aux:
-                lik_log_var_outputs, llv_mutable = lik_log_var_outputs
-
             self._check_outputs(model_outputs, lik_log_var_outputs)
 
-            aux = dict()
-            if m_mutable or llv_mutable:
-                aux["mutable"] = dict()
-                if m_mutable:
-                    aux["mutable"]["model"] = m_mutable
-                if llv_mutable:
-                    aux["mutable"]["lik_log_var"] = m_mutable
-
-            return jnp.concatenate(
-                (model_outputs, lik_log_var_outputs), axis=-1
-            ), FrozenDict(aux)
+            outputs = jnp.concatenate((model_outputs, lik_log_var_outputs), axis=-1)
+            return (outputs, aux) if has_aux else outputs
 
         if self.model_editor is not None:
-            outputs, aux = self.model_editor.apply(
+            outputs = self.model_editor.apply(
                 params["model_editor"],
-                apply_fn=lambda p, x: apply_fn(
-                    p,
-                    x,
-                    m_mutable=mutable["model"] if mutable is not None else False,
-                    llv_mutable=(
-                        mutable["lik_log_var"] if mutable is not None else False
-                    ),
-                ),
+                apply_fn=apply_fn,
                 model_params=params,
                 x=inputs,
-                has_aux=True,
+                has_aux=has_aux,
             )
         else:
-            outputs, aux = apply_fn(
-                params,
-                inputs,
-                m_mutable=mutable["model"] if mutable is not None else False,
-                llv_mutable=mutable["lik_log_var"] if mutable is not None else False,
-            )
+            outputs = apply_fn(params, inputs)
 
-        if len(aux) > 0:
-            return outputs, aux
+        if has_aux:
+            outputs, aux = outputs
+            return outputs, {"mutable": FrozenDict({**mutable, **aux})}
         return outputs
 
     def init(
-- 
2.43.0


From c3ba11ce19482e16f38473ba36bceb1c9c10445d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:11:01 +0000
Subject: [PATCH 34/39] fix: top-k probit scaling reads the scales of the same
 token when only final tokens are scaled

---
 fortuna/utils/probit.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/fortuna/utils/probit.py b/fortuna/utils/probit.py
index fdb6199..052f46b 100644
--- a/fortuna/utils/probit.py
+++ b/fortuna/utils/probit.py
@@ -241,12 +241,10 @@ def sequential_probit_scaling(
     if top_k is not None:
         scales = jnp.max(diagCs, axis=2, keepdims=True).repeat(n_outputs, axis=2)
         scales = vmap(
-            lambda i: vmap(
-                lambda j: scales[i, j]
-                .at[indices[i, j]]
-                .set(diagCs[i, j, indices[i, j]])
-            )(jnp.arange(seq_length - n_final_tokens, seq_length))
-        )(jnp.arange(batch_size))
+            lambda _scales, _indices, _diagCs: vmap(
+                lambda s, idx, d: s.at[idx].set(d)
+            )(_scales, _indices, _diagCs)
+        )(scales, indices[:, seq_length - n_final_tokens :], diagCs)
     else:
         scales = diagCs
 
-- 
2.43.0


From bf50ec458cf9af3ce2f77143566db5559dff36cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:11:01 +0000
Subject: [PATCH 35/39] fix: probit scaling accepts parameters that are plain
 dictionaries, as flax provides

---
 fortuna/utils/grad.py   | 7 +++++--
 fortuna/utils/probit.py | 7 +++++--
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/fortuna/utils/grad.py b/fortuna/utils/grad.py
index d415d22..0c2b6de 100644
--- a/fortuna/utils/grad.py
+++ b/fortuna/utils/grad.py
@@ -6,7 +6,10 @@ from typing import (
     Union,
 )
 
-from flax.core import FrozenDict
+from flax.core import (
+    FrozenDict,
+    unfreeze,
+)
 from jax import (
     jacrev,
     vmap,
@@ -40,7 +43,7 @@ def value_and_jacobian_squared_row_norm(
     freeze_fun: Optional[Callable[[Tuple[AnyKey, ...], Array], str]] = None,
     top_k: Optional[int] = None,
 ) -> Tuple[Union[jnp.ndarray, Tuple[jnp.ndarray, Dict]], jnp.ndarray]:
-    params = params.unfreeze()
+    params = unfreeze(params)
 
     params_paths = None
     sub_params = None
diff --git a/fortuna/utils/probit.py b/fortuna/utils/probit.py
index 052f46b..125bd0b 100644
--- a/fortuna/utils/probit.py
+++ b/fortuna/utils/probit.py
@@ -6,7 +6,10 @@ from typing import (
     Union,
 )
 
-from flax.core import FrozenDict
+from flax.core import (
+    FrozenDict,
+    unfreeze,
+)
 from jax import (
     jit,
     jvp,
@@ -66,7 +69,7 @@ def sequential_probit_scaling(
     n_final_tokens: Optional[int] = None,
     stop_gradient: bool = False,
 ) -> Union[jnp.ndarray, Tuple[jnp.ndarray, Dict]]:
-    params = params.unfreeze()
+    params = unfreeze(params)
 
     params_paths = None
     sub_params = None
-- 
2.43.0


From 63556f011fdbd3261dbfc1cc78e6ac40de01e751 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:11:01 +0000
Subject: [PATCH 36/39] fix: without a freeze function every parameter path is
 trainable

---
 fortuna/utils/freeze.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/fortuna/utils/freeze.py b/fortuna/utils/freeze.py
index a5c3c8f..2650d0f 100644
--- a/fortuna/utils/freeze.py
+++ b/fortuna/utils/freeze.py
@@ -144,5 +144,7 @@ def get_paths_with_label(
         return tuple(
             [list(p) for c, p in zip(conds, flatten_dict(paths)) if c == label]
         )
+    elif label == "frozen":
+        return ()
     else:
-        return tuple([list(p) for p in paths])
+        return tuple([list(p) for p in flatten_dict(paths)])
-- 
2.43.0


From e3dd08030bfc3fd7321411850c23ee004e875980 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:11:01 +0000
Subject: [PATCH 37/39] fix: ADVI with frozen parameters starts from the given
 means and standard deviations of each array

---
 .../normalizing_flow/advi/advi_posterior.py   |  9 +-----
 .../normalizing_flow/advi/advi_trainer.py     | 30 ++++++-------------
 2 files changed, 10 insertions(+), 29 deletions(-)

diff --git a/fortuna/prob_model/posterior/normalizing_flow/advi/advi_posterior.py b/fortuna/prob_model/posterior/normalizing_flow/advi/advi_posterior.py
index cde86b8..c3ef53a 100755
--- a/fortuna/prob_model/posterior/normalizing_flow/advi/advi_posterior.py
+++ b/fortuna/prob_model/posterior/normalizing_flow/advi/advi_posterior.py
@@ -436,14 +436,7 @@ class ADVIPosterior(Posterior):
 
             if log_stds is not None:
                 rav_log_stds = ravel_pytree(
-                    nested_set(
-                        d={},
-                        key_paths=which_params,
-                        objs=tuple(
-                            [nested_get(log_stds, path) for path in which_params]
-                        ),
-                        allow_nonexistent=True,
-                    )
+                    tuple([nested_get(log_stds, path) for path in which_params])
                 )[0]
             else:
                 rav_log_stds = None
diff --git a/fortuna/prob_model/posterior/normalizing_flow/advi/advi_trainer.py b/fortuna/prob_model/posterior/normalizing_flow/advi/advi_trainer.py
index a2fa161..947b9f2 100644
--- a/fortuna/prob_model/posterior/normalizing_flow/advi/advi_trainer.py
+++ b/fortuna/prob_model/posterior/normalizing_flow/advi/advi_trainer.py
@@ -25,10 +25,7 @@ from fortuna.typing import (
     Params,
     Path,
 )
-from fortuna.utils.freeze import (
-    get_frozen_paths,
-    get_trainable_paths,
-)
+from fortuna.utils.freeze import get_frozen_paths
 from fortuna.utils.nested_dicts import (
     nested_get,
     nested_pair,
@@ -102,10 +99,6 @@ class ADVITrainer(NormalizingFlowTrainer):
             frozen_paths = get_frozen_paths(
                 self._unravel(state.params["mean"]), self.freeze_fun
             )
-            trainable_paths = get_trainable_paths(
-                self._unravel(state.params["mean"]), self.freeze_fun
-            )
-
             state = state.replace(
                 frozen_params=FrozenDict(
                     {
@@ -131,19 +124,14 @@ class ADVITrainer(NormalizingFlowTrainer):
                 params=FrozenDict(
                     {
                         s: ravel_pytree(
-                            nested_set(
-                                d={},
-                                key_paths=trainable_paths,
-                                objs=tuple(
-                                    [
-                                        nested_get(
-                                            self._unravel(state.params[s]).unfreeze(),
-                                            path,
-                                        )
-                                        for path in trainable_paths
-                                    ]
-                                ),
-                                allow_nonexistent=True,
+                            tuple(
+                                [
+                                    nested_get(
+                                        self._unravel(state.params[s]).unfreeze(),
+                                        path,
+                                    )
+                                    for path in self._which_params
+                                ]
                             )
                         )[0]
                         for s in ["mean", "log_std"]
-- 
2.43.0


From ed0b0489caa33a5ef52a3efa5d76221c14c7e78e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:11:01 +0000
Subject: [PATCH 38/39] fix: output calibrators with a state keep it between
 steps

---
 fortuna/calib_model/loss.py                            | 4 ++--
 fortuna/likelihood/base.py                             | 4 ++--
 fortuna/output_calib_model/loss.py                     | 4 ++--
 fortuna/output_calib_model/predictive/base.py          | 4 ++--
 fortuna/output_calibrator/output_calib_manager/base.py | 7 +++++--
 5 files changed, 13 insertions(+), 10 deletions(-)

diff --git a/fortuna/calib_model/loss.py b/fortuna/calib_model/loss.py
index 1f9d3e1..8509fc9 100644
--- a/fortuna/calib_model/loss.py
+++ b/fortuna/calib_model/loss.py
@@ -114,8 +114,8 @@ class Loss(WithRNG):
             and calib_mutable["output_calibrator"] is not None
             and "calib_mutable" in return_aux
         ):
-            outputs, aux["calib_mutable"] = outs
-            aux["calib_mutable"] = dict(output_calibrator=aux["calib_mutable"])
+            outputs, calib_aux = outs
+            aux["calib_mutable"] = dict(output_calibrator=calib_aux["mutable"])
         else:
             outputs = outs
             if "calib_mutable" in return_aux:
diff --git a/fortuna/likelihood/base.py b/fortuna/likelihood/base.py
index 4421549..8654d2c 100644
--- a/fortuna/likelihood/base.py
+++ b/fortuna/likelihood/base.py
@@ -242,8 +242,8 @@ class Likelihood(WithRNG):
             and calib_mutable["output_calibrator"] is not None
             and "calib_mutable" in return_aux
         ):
-            outputs, aux["calib_mutable"] = outs
-            aux["calib_mutable"] = dict(output_calibrator=aux["calib_mutable"])
+            outputs, calib_aux = outs
+            aux["calib_mutable"] = dict(output_calibrator=calib_aux["mutable"])
         else:
             outputs = outs
             if "calib_mutable" in return_aux:
diff --git a/fortuna/output_calib_model/loss.py b/fortuna/output_calib_model/loss.py
index 299316c..3cfbdb2 100644
--- a/fortuna/output_calib_model/loss.py
+++ b/fortuna/output_calib_model/loss.py
@@ -61,8 +61,8 @@ class Loss(WithRNG):
             and mutable["output_calibrator"] is not None
             and "mutable" in return_aux
         ):
-            outputs, aux["mutable"] = outs
-            aux["mutable"] = dict(output_calibrator=aux["mutable"])
+            outputs, calib_aux = outs
+            aux["mutable"] = dict(output_calibrator=calib_aux["mutable"])
         else:
             outputs = outs
             if "mutable" in return_aux:
diff --git a/fortuna/output_calib_model/predictive/base.py b/fortuna/output_calib_model/predictive/base.py
index fa19b10..57d8138 100644
--- a/fortuna/output_calib_model/predictive/base.py
+++ b/fortuna/output_calib_model/predictive/base.py
@@ -293,8 +293,8 @@ class Predictive(WithRNG, abc.ABC):
             and mutable["output_calibrator"] is not None
             and "mutable" in return_aux
         ):
-            outputs, aux["mutable"] = outs
-            aux["mutable"] = dict(output_calibrator=aux["mutable"])
+            outputs, calib_aux = outs
+            aux["mutable"] = dict(output_calibrator=calib_aux["mutable"])
         else:
             outputs = outs
             if "mutable" in return_aux:
diff --git a/fortuna/output_calibrator/output_calib_manager/base.py b/fortuna/output_calibrator/output_calib_manager/base.py
index 069e9ec..09b4bfe 100644
--- a/fortuna/output_calibrator/output_calib_manager/base.py
+++ b/fortuna/output_calibrator/output_calib_manager/base.py
@@ -4,7 +4,10 @@ from typing import (
     Union,
 )
 
-from flax.core import FrozenDict
+from flax.core import (
+    FrozenDict,
+    unfreeze,
+)
 import flax.linen as nn
 from flax.training.checkpoints import PyTree
 import jax
@@ -68,7 +71,7 @@ class OutputCalibManager(WithRNG):
             rngs = None
 
         if mutable:
-            mutable_variables = mutable.unfreeze()
+            mutable_variables = unfreeze(mutable)
             variables.update(mutable_variables)
             mutable = list(mutable_variables.keys())
         if calib and mutable:
-- 
2.43.0


From 01239c4484ec6dc5700e17771d1dacc855bbb240 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:11:01 +0000
Subject: [PATCH 39/39] fix: multi-device calibrators validate the outputs of
 every point against its own target

---
 .../output_calib_model/output_calib_model_calibrator.py   | 8 ++++----
 fortuna/training/output_calibrator.py                     | 8 ++++----
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/fortuna/output_calib_model/output_calib_model_calibrator.py b/fortuna/output_calib_model/output_calib_model_calibrator.py
index 2dfb5a9..c8128c1 100644
--- a/fortuna/output_calib_model/output_calib_model_calibrator.py
+++ b/fortuna/output_calib_model/output_calib_model_calibrator.py
@@ -639,8 +639,8 @@ class MultiDeviceMixin:
         loss_fun: Callable,
         rng: jax.Array,
     ) -> Dict[str, jnp.ndarray]:
-        val_losses = super().val_loss_step(state, targets, outputs, loss_fun, rng)
-        return lax.pmean(val_losses, axis_name="batch")
+        val_loss, aux = super().val_loss_step(state, targets, outputs, loss_fun, rng)
+        return lax.pmean(val_loss, axis_name="batch"), aux
 
     def val_metrics_step(
         self,
@@ -651,8 +651,8 @@ class MultiDeviceMixin:
         ] = None,
     ) -> Dict[str, jnp.ndarray]:
         outputs = aux["outputs"]
-        outputs = outputs.reshape(outputs.shape[0] * outputs.shape[1], -1)
-        targets = targets.reshape(targets.shape[0] * targets.shape[1], -1)
+        outputs = outputs.reshape((-1,) + outputs.shape[2:])
+        targets = targets.reshape((-1,) + targets.shape[2:])
         if metrics is not None:
             val_metrics = self.compute_metrics(
                 self.predict_fn(outputs), self.uncertainty_fn(outputs), targets, metrics
diff --git a/fortuna/training/output_calibrator.py b/fortuna/training/output_calibrator.py
index 7e7a774..bd59d1b 100644
--- a/fortuna/training/output_calibrator.py
+++ b/fortuna/training/output_calibrator.py
@@ -677,8 +677,8 @@ class MultiDeviceMixin:
         rng: jax.Array,
         n_data: int,
     ) -> Dict[str, jnp.ndarray]:
-        val_losses = super().val_loss_step(state, batch, outputs, loss_fun, rng, n_data)
-        return lax.pmean(val_losses, axis_name="batch")
+        val_loss, aux = super().val_loss_step(state, batch, outputs, loss_fun, rng, n_data)
+        return lax.pmean(val_loss, axis_name="batch"), aux
 
     def val_metrics_step(
         self,
@@ -689,8 +689,8 @@ class MultiDeviceMixin:
         ] = None,
     ) -> Dict[str, jnp.ndarray]:
         outputs = aux["outputs"]
-        outputs = outputs.reshape(outputs.shape[0] * outputs.shape[1], -1)
-        targets = batch[1].reshape(batch[1].shape[0] * batch[1].shape[1], -1)
+        outputs = outputs.reshape((-1,) + outputs.shape[2:])
+        targets = batch[1].reshape((-1,) + batch[1].shape[2:])
         if metrics is not None:
             val_metrics = self.compute_metrics(
                 self.predict_fn(outputs), self.uncertainty_fn(outputs), targets, metrics
-- 
2.43.0

