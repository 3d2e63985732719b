From 4990f9ac8efeba9ae96b5f46b4a23c0d33f977e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:03:20 +0000
Subject: [PATCH 01/20] fix: hyperplane splits only between distinct
 projections

The candidate split positions were derived from the differences of the
projections in data order rather than in sorted order, so splits between
identical points were considered and valid ones were skipped.
---
 bayesian_decision_tree/hyperplane_optimization.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bayesian_decision_tree/hyperplane_optimization.py b/bayesian_decision_tree/hyperplane_optimization.py
index 7608640..302abc3 100644
--- a/bayesian_decision_tree/hyperplane_optimization.py
+++ b/bayesian_decision_tree/hyperplane_optimization.py
@@ -50,7 +50,7 @@ class HyperplaneOptimizationFunction:
         # compute distance of all points to the hyperplane: https://mathinsight.org/distance_point_plane
         projections = self.X @ hyperplane_normal  # up to an additive constant which doesn't matter to distance ordering
         sort_indices = np.argsort(projections)
-        split_indices = 1 + np.where(np.abs(np.diff(projections)) > self.split_precision)[0]  # we can only split between *different* data points
+        split_indices = 1 + np.where(np.abs(np.diff(projections[sort_indices])) > self.split_precision)[0]  # we can only split between *different* data points
         if len(split_indices) == 0:
             # no split possible along this dimension
             return -self.log_p_data_no_split
-- 
2.43.0


From b8abfd4001b7bd891332927ddebf60ed2ba24492 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:03:51 +0000
Subject: [PATCH 02/20] fix: prediction_paths() below the second tree level

The row indices passed on to a child were relative to the parent's rows
instead of to X, so from the third level onwards the wrong rows were used.
---
 bayesian_decision_tree/base_perpendicular.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bayesian_decision_tree/base_perpendicular.py b/bayesian_decision_tree/base_perpendicular.py
index 84a8b7f..d05cb01 100644
--- a/bayesian_decision_tree/base_perpendicular.py
+++ b/bayesian_decision_tree/base_perpendicular.py
@@ -63,11 +63,11 @@ class BasePerpendicularTree(BaseTree, ABC):
 
             if len(indices1) > 0 and not self.child1_.is_leaf():
                 paths1 = [paths[i] for i in indices1]
-                self.child1_._update_prediction_paths(X, indices1, paths1)
+                self.child1_._update_prediction_paths(X, indices[indices1], paths1)
 
             if len(indices2) > 0 and not self.child2_.is_leaf():
                 paths2 = [paths[i] for i in indices2]
-                self.child2_._update_prediction_paths(X, indices2, paths2)
+                self.child2_._update_prediction_paths(X, indices[indices2], paths2)
 
     @staticmethod
     def _create_merged_paths_array(n_rows):
-- 
2.43.0


From 00fb009a9d52bacdc1eb1fa8d48938ea9f3c2860 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:04:57 +0000
Subject: [PATCH 03/20] fix: integer and single precision data overflowed in
 fit()

Small integer types wrapped around in the split mid-points, the squared
targets and the differences between neighbours; boolean sparse matrices
and integer data with RandomTwoPointOptimizer failed altogether.
---
 bayesian_decision_tree/base.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/bayesian_decision_tree/base.py b/bayesian_decision_tree/base.py
index 91af875..9eda3b7 100755
--- a/bayesian_decision_tree/base.py
+++ b/bayesian_decision_tree/base.py
@@ -224,11 +224,16 @@ class BaseTree(ABC, BaseEstimator):
 
     @staticmethod
     def _ensure_float64(data):
+        if data.dtype == np.float64:
+            return data
+
         if data.dtype in (
+                np.bool_,
                 np.int8, np.int16, np.int32, np.int64,
                 np.uint8, np.uint16, np.uint32, np.uint64,
-                np.float32, np.float64):
-            return data
+                np.float16, np.float32):
+            # the fitting arithmetic (sums, squares, differences, mid-points) would overflow or round in these types
+            return data.astype(np.float64)
 
         # convert to np.float64 for performance reasons (matrices with floats but of type object are very slow)
         X_float = data.astype(np.float64)
-- 
2.43.0


From ee8562a967bc9730dc492a48b588266c94d886a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:05:24 +0000
Subject: [PATCH 04/20] fix: fit() with pandas Series, DataFrame or tuple
 targets

A Series was indexed by label rather than by position.
---
 bayesian_decision_tree/base.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/bayesian_decision_tree/base.py b/bayesian_decision_tree/base.py
index 9eda3b7..3263531 100755
--- a/bayesian_decision_tree/base.py
+++ b/bayesian_decision_tree/base.py
@@ -54,9 +54,7 @@ class BaseTree(ABC, BaseEstimator):
         """
 
         # validation and input transformation
-        if isinstance(y, list):
-            y = np.array(y)
-
+        y = np.asarray(y)  # positional indexing is required, so no lists, tuples, pandas Series or DataFrames
         y = y.squeeze()
         y = self._ensure_float64(y)
         self._check_target(y)
@@ -204,7 +202,7 @@ class BaseTree(ABC, BaseEstimator):
 
             X = X.values
         else:
-            if isinstance(X, list):
+            if isinstance(X, (list, tuple)):
                 X = np.array(X)
             elif np.isscalar(X):
                 X = np.array([X])
-- 
2.43.0


From 87d0f20229c5b7222fe68da054de2142701b3c0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:06:28 +0000
Subject: [PATCH 05/20] fix: split value must separate the two points it was
 derived from

The mid-point of adjacent floating point numbers can be rounded to the lower
one and the sum of large ones overflows; in both cases prediction sent
training points to the other child.
---
 bayesian_decision_tree/base_perpendicular.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/bayesian_decision_tree/base_perpendicular.py b/bayesian_decision_tree/base_perpendicular.py
index d05cb01..f6ecdc2 100644
--- a/bayesian_decision_tree/base_perpendicular.py
+++ b/bayesian_decision_tree/base_perpendicular.py
@@ -143,10 +143,12 @@ class BasePerpendicularTree(BaseTree, ABC):
             # store split info, create children and continue training them if there's data left to split
             self.split_dimension_ = best_split_dimension
             self.split_feature_name_ = feature_names[best_split_dimension]
-            self.split_value_ = 0.5 * (
-                    X[indices1[-1], best_split_dimension]
-                    + X[indices2[0], best_split_dimension]
-            )
+            x1 = X[indices1[-1], best_split_dimension]
+            x2 = X[indices2[0], best_split_dimension]
+            self.split_value_ = 0.5*x1 + 0.5*x2
+            if self.split_value_ <= x1:
+                # no representable value in between -> make sure that x1 is still on the '<' side
+                self.split_value_ = x2
             self.log_p_data_no_split_ = log_p_data_no_split
             self.best_log_p_data_split_ = best_log_p_data_split
 
-- 
2.43.0


From e9dc0780ea4c39fba74722090c8424a9cef0b3b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:06:55 +0000
Subject: [PATCH 06/20] fix: classification trees without an explicit prior
 could not be fitted

The default prior=None raised a TypeError, and the default prior had one
entry per feature instead of one per class.
---
 bayesian_decision_tree/classification.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/bayesian_decision_tree/classification.py b/bayesian_decision_tree/classification.py
index a60bae2..0d3f5a6 100755
--- a/bayesian_decision_tree/classification.py
+++ b/bayesian_decision_tree/classification.py
@@ -49,7 +49,8 @@ class BaseClassificationTree(BaseTree, ABC, ClassifierMixin):
         if y.ndim != 1:
             raise ValueError('y should have 1 dimension but has {}'.format(y.ndim))
 
-        n_classes = len(self.prior)
+        # without an explicit prior the number of classes follows from the targets
+        self._n_classes = n_classes = len(self.prior) if self.prior is not None else len(np.unique(y))
         if not np.all(np.unique(y) == np.arange(0, n_classes)):
             raise ValueError('Expected target values 0..{} but found {}..{}'.format(n_classes - 1, y.min(), y.max()))
 
@@ -58,7 +59,7 @@ class BaseClassificationTree(BaseTree, ABC, ClassifierMixin):
             return self.prior
         else:
             prior_pseudo_observation_count = max(1, n_data//100)
-            return prior_pseudo_observation_count * np.ones(n_dim)
+            return prior_pseudo_observation_count * np.ones(self._n_classes)
 
     def _compute_log_p_data_no_split(self, y, prior):
         posterior = self._compute_posterior(y, prior)
-- 
2.43.0


From 70cd7225bf1f419e774080a66c6707a42b87a485 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:07:30 +0000
Subject: [PATCH 07/20] fix: provide classes_ as scikit-learn's scorers require

cross_val_score(model, X, y, scoring='accuracy') and all other scorers
raised an AttributeError.
---
 bayesian_decision_tree/classification.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/bayesian_decision_tree/classification.py b/bayesian_decision_tree/classification.py
index 0d3f5a6..899aaed 100755
--- a/bayesian_decision_tree/classification.py
+++ b/bayesian_decision_tree/classification.py
@@ -22,6 +22,11 @@ class BaseClassificationTree(BaseTree, ABC, ClassifierMixin):
     def __init__(self, partition_prior, prior, delta, prune, child_type, split_precision, level=0):
         BaseTree.__init__(self, partition_prior, prior, delta, prune, child_type, False, split_precision, level)
 
+    @property
+    def classes_(self):
+        """The class labels (a scikit-learn convention its scorers and cross-validation functions rely on)."""
+        return np.arange(len(self.posterior_))
+
     def predict_proba(self, X):
         """Predict class probabilities of the input samples X.
 
-- 
2.43.0


From ebc3165a642fda8394612c9d9cb921824d5b35d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:08:01 +0000
Subject: [PATCH 08/20] fix: hyperplane trees ignored delta

---
 bayesian_decision_tree/base_hyperplane.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bayesian_decision_tree/base_hyperplane.py b/bayesian_decision_tree/base_hyperplane.py
index 27e0f1d..be7b709 100644
--- a/bayesian_decision_tree/base_hyperplane.py
+++ b/bayesian_decision_tree/base_hyperplane.py
@@ -82,8 +82,8 @@ class BaseHyperplaneTree(BaseTree, ABC):
                 n_data2 = X2.shape[0]
 
                 # compute posteriors of children and priors for further splitting
-                prior_child1 = self._compute_posterior(y1, prior, delta=0)
-                prior_child2 = self._compute_posterior(y2, prior, delta=0)
+                prior_child1 = tuple(self._compute_posterior(y1, prior, self.delta)) if self.delta else prior
+                prior_child2 = tuple(self._compute_posterior(y2, prior, self.delta)) if self.delta else prior
 
                 # store split info, create children and continue training them if there's data left to split
                 self.best_hyperplane_normal_ = optimization_function.best_hyperplane_normal
-- 
2.43.0


From 73c24714ebf33548e4745bb966dbc34c7cb6b29e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:08:30 +0000
Subject: [PATCH 09/20] fix: hyperplane trees on data with a single feature

All optimizers searching the unit hypercube failed because the search space
has no dimensions.
---
 bayesian_decision_tree/base_hyperplane.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/bayesian_decision_tree/base_hyperplane.py b/bayesian_decision_tree/base_hyperplane.py
index be7b709..ea2da31 100644
--- a/bayesian_decision_tree/base_hyperplane.py
+++ b/bayesian_decision_tree/base_hyperplane.py
@@ -47,11 +47,15 @@ class BaseHyperplaneTree(BaseTree, ABC):
             prior,
             self._compute_log_p_data_split,
             log_p_data_no_split,
-            optimizer.search_space_is_unit_hypercube,
+            optimizer.search_space_is_unit_hypercube and n_dim > 1,
             self.split_precision)
 
         # create and run optimizer
-        optimizer.solve(optimization_function)
+        if n_dim > 1:
+            optimizer.solve(optimization_function)
+        else:
+            # there is only one direction in one dimension, so there is nothing to search for
+            optimization_function.compute(np.ones(1))
 
         self.optimization_function = optimization_function
 
-- 
2.43.0


From e07be06532d51048097d106642f1bd99e77bf661 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:09:29 +0000
Subject: [PATCH 10/20] fix: _get_raw_leaf_data() of unsplit models with the
 default prior

---
 bayesian_decision_tree/classification.py | 2 +-
 bayesian_decision_tree/regression.py     | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/bayesian_decision_tree/classification.py b/bayesian_decision_tree/classification.py
index 899aaed..d9225cd 100755
--- a/bayesian_decision_tree/classification.py
+++ b/bayesian_decision_tree/classification.py
@@ -119,7 +119,7 @@ class BaseClassificationTree(BaseTree, ABC, ClassifierMixin):
 
     def _get_raw_leaf_data_internal(self):
         # prior and posterior raw data
-        return np.array([self.prior, self.posterior_])
+        return np.array([self._get_prior(self.n_data_, None), self.posterior_])
 
 
 class PerpendicularClassificationTree(BasePerpendicularTree, BaseClassificationTree):
diff --git a/bayesian_decision_tree/regression.py b/bayesian_decision_tree/regression.py
index d3aa5f7..16b7273 100755
--- a/bayesian_decision_tree/regression.py
+++ b/bayesian_decision_tree/regression.py
@@ -121,7 +121,7 @@ class BaseRegressionTree(BaseTree, ABC, RegressorMixin):
 
     def _get_raw_leaf_data_internal(self):
         # prior and posterior raw data
-        return np.array([self.prior, self.posterior_])
+        return np.array([self._get_prior(self.n_data_, None), self.posterior_])
 
 
 class PerpendicularRegressionTree(BasePerpendicularTree, BaseRegressionTree):
-- 
2.43.0


From 30409fd9b14063dcadb8704ac739cae0fa0d61ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:10:32 +0000
Subject: [PATCH 11/20] fix: regression trees lost all precision for targets
 far from zero

Sums of squares about zero cancel if the mean of the targets dominates their
spread, giving NaN likelihoods and arbitrary or missing splits. They are now
computed about the prior mean.
---
 bayesian_decision_tree/regression.py | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/bayesian_decision_tree/regression.py b/bayesian_decision_tree/regression.py
index 16b7273..875b366 100755
--- a/bayesian_decision_tree/regression.py
+++ b/bayesian_decision_tree/regression.py
@@ -26,7 +26,14 @@ class BaseRegressionTree(BaseTree, ABC, RegressorMixin):
         if y.ndim != 1:
             raise ValueError('y should have 1 dimension but has {}'.format(y.ndim))
 
+    @staticmethod
+    def _center(y, prior):
+        # work relative to the prior mean because sums of squares lose all precision if the mean dominates the spread
+        mu, kappa, alpha, beta = prior
+        return y - mu, (0, kappa, alpha, beta)
+
     def _compute_log_p_data_no_split(self, y, prior):
+        y, prior = self._center(y, prior)
         y_sum = y.sum()
         y_squared_sum = (y ** 2).sum()
         n = len(y)
@@ -37,6 +44,7 @@ class BaseRegressionTree(BaseTree, ABC, RegressorMixin):
         return log_p_prior + log_p_data
 
     def _compute_log_p_data_split(self, y, prior, n_dim, split_indices):
+        y, prior = self._center(y, prior)
         n = len(y)
         n1 = np.arange(1, n)
         n2 = n - n1
@@ -84,11 +92,14 @@ class BaseRegressionTree(BaseTree, ABC, RegressorMixin):
         if delta == 0:
             return prior
 
+        mu = prior[0]
+        y, prior = self._center(y, prior)
         n = len(y)
         y_sum = y.sum()
         y_squared_sum = (y ** 2).sum()
 
-        return self._compute_posterior_internal(prior, n, y_sum, y_squared_sum, delta)
+        mu_post, kappa_post, alpha_post, beta_post = self._compute_posterior_internal(prior, n, y_sum, y_squared_sum, delta)
+        return mu + mu_post, kappa_post, alpha_post, beta_post
 
     def _compute_posterior_internal(self, prior, n, y_sum, y_squared_sum, delta=1):
         mu, kappa, alpha, beta = prior
-- 
2.43.0


From f47d64e76095a1395b1d16e183b73239db2c4ddc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:15:46 +0000
Subject: [PATCH 12/20] fix: hyperplane splits between identical rows due to
 rounding errors

The projections of identical rows may differ in the last bits, depending on
their position in the matrix. Such a difference was taken for a gap to split
at, which made predictions depend on the other rows of the input.
---
 bayesian_decision_tree/hyperplane_optimization.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/bayesian_decision_tree/hyperplane_optimization.py b/bayesian_decision_tree/hyperplane_optimization.py
index 302abc3..951e391 100644
--- a/bayesian_decision_tree/hyperplane_optimization.py
+++ b/bayesian_decision_tree/hyperplane_optimization.py
@@ -21,7 +21,9 @@ class HyperplaneOptimizationFunction:
         self.compute_log_p_data_split = compute_log_p_data_split
         self.log_p_data_no_split = log_p_data_no_split
         self.search_space_is_unit_hypercube = search_space_is_unit_hypercube
-        self.split_precision = split_precision
+        # identical projections may differ by rounding errors, and such a difference must not be mistaken for a gap
+        rounding_error = 8 * X.shape[1]**1.5 * np.finfo(np.float64).eps * abs(X).max()
+        self.split_precision = max(split_precision, rounding_error)
 
         # results of the optimization - to be set later during the actual optimization
         self.function_evaluations = 0
-- 
2.43.0


From 9ce9a221b1f08f4453c4a0a525f995d1655afb0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:42:31 +0000
Subject: [PATCH 13/20] fix: a rejected fit() must not affect a fitted model

The number of classes was updated before X had been validated.
---
 bayesian_decision_tree/base.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/bayesian_decision_tree/base.py b/bayesian_decision_tree/base.py
index 3263531..e532b58 100755
--- a/bayesian_decision_tree/base.py
+++ b/bayesian_decision_tree/base.py
@@ -57,12 +57,13 @@ class BaseTree(ABC, BaseEstimator):
         y = np.asarray(y)  # positional indexing is required, so no lists, tuples, pandas Series or DataFrames
         y = y.squeeze()
         y = self._ensure_float64(y)
-        self._check_target(y)
 
         X, feature_names = self._normalize_data_and_feature_names(X, feature_names)
-        if X.shape[0] != len(y):
+        if X.shape[:1] != y.shape[:1]:
             raise ValueError('Invalid shapes: X={}, y={}'.format(X.shape, y.shape))
 
+        self._check_target(y)  # remembers the number of classes, so only call this for otherwise valid data
+
         # fit
         self._fit(X, y, verbose, feature_names, 'root')
 
-- 
2.43.0


From 881a717cab5681caeaedcafe7267afccb899c989 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:59:52 +0000
Subject: [PATCH 14/20] fix: a fit() rejected for its labels must not affect a
 fitted model

The number of classes was updated before the labels had been validated.
---
 bayesian_decision_tree/classification.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/bayesian_decision_tree/classification.py b/bayesian_decision_tree/classification.py
index d9225cd..9cf4a5c 100755
--- a/bayesian_decision_tree/classification.py
+++ b/bayesian_decision_tree/classification.py
@@ -55,10 +55,12 @@ class BaseClassificationTree(BaseTree, ABC, ClassifierMixin):
             raise ValueError('y should have 1 dimension but has {}'.format(y.ndim))
 
         # without an explicit prior the number of classes follows from the targets
-        self._n_classes = n_classes = len(self.prior) if self.prior is not None else len(np.unique(y))
+        n_classes = len(self.prior) if self.prior is not None else len(np.unique(y))
         if not np.all(np.unique(y) == np.arange(0, n_classes)):
             raise ValueError('Expected target values 0..{} but found {}..{}'.format(n_classes - 1, y.min(), y.max()))
 
+        self._n_classes = n_classes
+
     def _get_prior(self, n_data, n_dim):
         if self.prior is not None:
             return self.prior
-- 
2.43.0


From 3c8e106aa1418fa3a8f8ff2155a5bfb3433f9988 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:59:52 +0000
Subject: [PATCH 15/20] fix: regression trees with outliers used wrong or
 infinite split likelihoods

Statistics of the right-hand side were computed as differences to the total,
which cancels if single targets are much larger than the others.
---
 bayesian_decision_tree/regression.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/bayesian_decision_tree/regression.py b/bayesian_decision_tree/regression.py
index 875b366..ad64ef2 100755
--- a/bayesian_decision_tree/regression.py
+++ b/bayesian_decision_tree/regression.py
@@ -48,10 +48,11 @@ class BaseRegressionTree(BaseTree, ABC, RegressorMixin):
         n = len(y)
         n1 = np.arange(1, n)
         n2 = n - n1
+        # accumulate from both ends because differences to the total lose all precision if there are outliers
         y_sum1 = y.cumsum()[:-1]
-        y_sum2 = y.sum() - y_sum1
-        y_squared_sum1 = (y[:-1] ** 2).cumsum()
-        y_squared_sum2 = (y ** 2).sum() - y_squared_sum1
+        y_sum2 = y[::-1].cumsum()[::-1][1:]
+        y_squared_sum1 = (y ** 2).cumsum()[:-1]
+        y_squared_sum2 = (y ** 2)[::-1].cumsum()[::-1][1:]
 
         if len(split_indices) != len(y)-1:
             # we are *not* splitting between all data points -> indexing necessary
-- 
2.43.0


From 59df2b4744748af3fdcbca38f22a54ee600df5fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:03:23 +0000
Subject: [PATCH 16/20] fix: hyperplane trees split at no gain over not
 splitting

A split with exactly the log probability of not splitting was accepted, which
gives NaN feature importances.
---
 bayesian_decision_tree/hyperplane_optimization.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/bayesian_decision_tree/hyperplane_optimization.py b/bayesian_decision_tree/hyperplane_optimization.py
index 951e391..3124d90 100644
--- a/bayesian_decision_tree/hyperplane_optimization.py
+++ b/bayesian_decision_tree/hyperplane_optimization.py
@@ -79,7 +79,9 @@ class HyperplaneOptimizationFunction:
                 is_log_p_better_or_same_but_with_better_distance = True
             else:
                 # accept new split with same log(p) only if it increases the cumulative distance of all points to the hyperplane
-                is_log_p_better_or_same_but_with_better_distance = cumulative_distances > self.best_cumulative_distances
+                # (and never accept a split which is merely as good as not splitting)
+                is_log_p_better_or_same_but_with_better_distance = self.best_hyperplane_normal is not None \
+                    and cumulative_distances > self.best_cumulative_distances
 
             if is_log_p_better_or_same_but_with_better_distance:
                 self.best_log_p_data_split = log_p_data_split[i_max]
-- 
2.43.0


From dabe47d499679bc99a7e31c1e9ab4b7f0d198226 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:35:11 +0000
Subject: [PATCH 17/20] fix: posterior of pure leaves ignored their
 strengthened prior

With delta > 0 a child without anything left to split got a posterior based
on its parent's prior, while its own prior attribute (as reported by
_get_raw_leaf_data()) and all other children use the strengthened prior.
---
 bayesian_decision_tree/base_hyperplane.py    | 4 ++--
 bayesian_decision_tree/base_perpendicular.py | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/bayesian_decision_tree/base_hyperplane.py b/bayesian_decision_tree/base_hyperplane.py
index ea2da31..2275198 100644
--- a/bayesian_decision_tree/base_hyperplane.py
+++ b/bayesian_decision_tree/base_hyperplane.py
@@ -110,13 +110,13 @@ class BaseHyperplaneTree(BaseTree, ABC):
                 if n_data1 > 1 and len(np.unique(y1)) > 1:
                     self.child1_._fit(X1, y1, verbose, feature_names, 'back ')
                 else:
-                    self.child1_.posterior_ = self._compute_posterior(y1, prior)
+                    self.child1_.posterior_ = self._compute_posterior(y1, prior_child1)
                     self.child1_.n_data_ = n_data1
 
                 if n_data2 > 1 and len(np.unique(y2)) > 1:
                     self.child2_._fit(X2, y2, verbose, feature_names, 'front')
                 else:
-                    self.child2_.posterior_ = self._compute_posterior(y2, prior)
+                    self.child2_.posterior_ = self._compute_posterior(y2, prior_child2)
                     self.child2_.n_data_ = n_data2
 
         # compute posterior
diff --git a/bayesian_decision_tree/base_perpendicular.py b/bayesian_decision_tree/base_perpendicular.py
index f6ecdc2..e46d7d7 100644
--- a/bayesian_decision_tree/base_perpendicular.py
+++ b/bayesian_decision_tree/base_perpendicular.py
@@ -172,14 +172,14 @@ class BasePerpendicularTree(BaseTree, ABC):
             if n_data1 > 1 and len(np.unique(y1)) > 1:
                 self.child1_._fit(X, y, verbose, feature_names, 'LHS', sort_indices_by_dim_1)
             else:
-                self.child1_.posterior_ = self._compute_posterior(y1, prior)
+                self.child1_.posterior_ = self._compute_posterior(y1, prior_child1)
                 self.child1_.n_data_ = n_data1
 
             y2 = y[indices2]
             if n_data2 > 1 and len(np.unique(y2)) > 1:
                 self.child2_._fit(X, y, verbose, feature_names, 'RHS', sort_indices_by_dim_2)
             else:
-                self.child2_.posterior_ = self._compute_posterior(y2, prior)
+                self.child2_.posterior_ = self._compute_posterior(y2, prior_child2)
                 self.child2_.n_data_ = n_data2
         else:
             self._erase_split_info_base()
-- 
2.43.0


From bbc8b8bbd88640486d3bedfb02ae0172d08c45d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:35:55 +0000
Subject: [PATCH 18/20] fix: regression prior update with a fractional delta
 mixed weighted and unweighted counts

The data enters the update with weight delta, so the number of observations
in the denominator of the prior-mean discrepancy term is n*delta (equation 89
with n replaced by n*delta), as it is everywhere else.
---
 bayesian_decision_tree/regression.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bayesian_decision_tree/regression.py b/bayesian_decision_tree/regression.py
index ad64ef2..56a2987 100755
--- a/bayesian_decision_tree/regression.py
+++ b/bayesian_decision_tree/regression.py
@@ -111,7 +111,7 @@ class BaseRegressionTree(BaseTree, ABC, RegressorMixin):
         mu_post = (kappa * mu + n_delta * y_sum / n) / kappa_post
         alpha_post = alpha + 0.5*n_delta
         beta_post = beta + 0.5 * delta * (y_squared_sum - y_sum ** 2 / n) + 0.5 * kappa * n_delta * (
-                    y_sum / n - mu) ** 2 / (kappa + n)
+                    y_sum / n - mu) ** 2 / kappa_post
 
         return mu_post, kappa_post, alpha_post, beta_post
 
-- 
2.43.0


From 9a43ccf59a126370e850e2b1636bfa28658b37b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 12:14:11 +0000
Subject: [PATCH 19/20] fix: predict_proba of no samples has one column per
 class, too

---
 bayesian_decision_tree/classification.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bayesian_decision_tree/classification.py b/bayesian_decision_tree/classification.py
index 9cf4a5c..84388e0 100755
--- a/bayesian_decision_tree/classification.py
+++ b/bayesian_decision_tree/classification.py
@@ -48,7 +48,7 @@ class BaseClassificationTree(BaseTree, ABC, ClassifierMixin):
         y_proba = [None] * X.shape[0]
         self._predict(X, np.arange(X.shape[0]), False, y_proba)
 
-        return np.array(y_proba)
+        return np.array(y_proba).reshape(X.shape[0], len(self.posterior_))  # (explicitly, for there may be no samples)
 
     def _check_target(self, y):
         if y.ndim != 1:
-- 
2.43.0


From 77f5cd72e702cc83bc3f6ec90c913d75db5fad7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:48 +0000
Subject: [PATCH 20/20] fix: posterior of splitting underflowed to zero deep in
 the tree for small partition priors, so nodes were not split

---
 bayesian_decision_tree/classification.py | 2 +-
 bayesian_decision_tree/regression.py     | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/bayesian_decision_tree/classification.py b/bayesian_decision_tree/classification.py
index 84388e0..994544f 100755
--- a/bayesian_decision_tree/classification.py
+++ b/bayesian_decision_tree/classification.py
@@ -87,7 +87,7 @@ class BaseClassificationTree(BaseTree, ABC, ClassifierMixin):
             k2[i] = total - k1[i]
 
         n_splits = len(split_indices)
-        log_p_prior = np.log(self.partition_prior**(1+self.level) / (n_splits * n_dim))
+        log_p_prior = (1+self.level)*np.log(self.partition_prior) - np.log(n_splits * n_dim)  # (the power itself may underflow)
 
         betaln_prior = multivariate_betaln(prior)
         log_p_data1 = self._compute_log_p_data(k1, prior, betaln_prior)
diff --git a/bayesian_decision_tree/regression.py b/bayesian_decision_tree/regression.py
index 56a2987..38e9c38 100755
--- a/bayesian_decision_tree/regression.py
+++ b/bayesian_decision_tree/regression.py
@@ -69,7 +69,7 @@ class BaseRegressionTree(BaseTree, ABC, RegressorMixin):
         mu2, kappa2, alpha2, beta2 = self._compute_posterior_internal(prior, n2, y_sum2, y_squared_sum2)
 
         n_splits = len(split_indices)
-        log_p_prior = np.log(self.partition_prior**(1+self.level) / (n_splits * n_dim))
+        log_p_prior = (1+self.level)*np.log(self.partition_prior) - np.log(n_splits * n_dim)  # (the power itself may underflow)
 
         log_p_data1 = self._compute_log_p_data(prior, alpha1, beta1, kappa1, n1)
         log_p_data2 = self._compute_log_p_data(prior, alpha2, beta2, kappa2, n2)
-- 
2.43.0

