From 85de3980e5b5745309c6bbaa6cfb12c6ae9ba5dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:05:46 +0000
Subject: [PATCH 1/7] fix: prediction_paths() followed the wrong rows below the
 second tree level

The child indices are relative to the node's own rows, so they have to be
mapped back to row numbers of X before they are handed to a child.
---
 bayesian_decision_tree/base_perpendicular.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bayesian_decision_tree/base_perpendicular.py b/bayesian_decision_tree/base_perpendicular.py
index 84a8b7f..d05cb01 100644
--- a/bayesian_decision_tree/base_perpendicular.py
+++ b/bayesian_decision_tree/base_perpendicular.py
@@ -63,11 +63,11 @@ class BasePerpendicularTree(BaseTree, ABC):
 
             if len(indices1) > 0 and not self.child1_.is_leaf():
                 paths1 = [paths[i] for i in indices1]
-                self.child1_._update_prediction_paths(X, indices1, paths1)
+                self.child1_._update_prediction_paths(X, indices[indices1], paths1)
 
             if len(indices2) > 0 and not self.child2_.is_leaf():
                 paths2 = [paths[i] for i in indices2]
-                self.child2_._update_prediction_paths(X, indices2, paths2)
+                self.child2_._update_prediction_paths(X, indices[indices2], paths2)
 
     @staticmethod
     def _create_merged_paths_array(n_rows):
-- 
2.43.0


From 73603c7cbd9155ba455f82923998481e6be88852 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:05:46 +0000
Subject: [PATCH 2/7] fix: hyperplane trees looked for split positions between
 unsorted projections

Admissible split positions index into the sorted projections. Taking the
differences of the unsorted ones proposed splits between points with equal
projections and missed splits between different ones.
---
 bayesian_decision_tree/hyperplane_optimization.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bayesian_decision_tree/hyperplane_optimization.py b/bayesian_decision_tree/hyperplane_optimization.py
index 7608640..302abc3 100644
--- a/bayesian_decision_tree/hyperplane_optimization.py
+++ b/bayesian_decision_tree/hyperplane_optimization.py
@@ -50,7 +50,7 @@ class HyperplaneOptimizationFunction:
         # compute distance of all points to the hyperplane: https://mathinsight.org/distance_point_plane
         projections = self.X @ hyperplane_normal  # up to an additive constant which doesn't matter to distance ordering
         sort_indices = np.argsort(projections)
-        split_indices = 1 + np.where(np.abs(np.diff(projections)) > self.split_precision)[0]  # we can only split between *different* data points
+        split_indices = 1 + np.where(np.abs(np.diff(projections[sort_indices])) > self.split_precision)[0]  # we can only split between *different* data points
         if len(split_indices) == 0:
             # no split possible along this dimension
             return -self.log_p_data_no_split
-- 
2.43.0


From 387a20e1e01fba60afede58027ec75ecc6f9a549 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:05:46 +0000
Subject: [PATCH 3/7] fix: integer and float32 data overflowed or was rounded
 during training

Split values, data differences and squared targets were computed in the
dtype of the input, e.g. a uint8 feature with values 200 and 250 was split at
97. Convert to float64 as the method name promises.
---
 bayesian_decision_tree/base.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/bayesian_decision_tree/base.py b/bayesian_decision_tree/base.py
index 91af875..832476e 100755
--- a/bayesian_decision_tree/base.py
+++ b/bayesian_decision_tree/base.py
@@ -2,7 +2,7 @@ from abc import ABC, abstractmethod
 
 import numpy as np
 import pandas as pd
-from scipy.sparse import csr_matrix, csc_matrix
+from scipy.sparse import csr_matrix, csc_matrix, issparse
 from sklearn.base import BaseEstimator
 
 
@@ -224,15 +224,14 @@ class BaseTree(ABC, BaseEstimator):
 
     @staticmethod
     def _ensure_float64(data):
-        if data.dtype in (
-                np.int8, np.int16, np.int32, np.int64,
-                np.uint8, np.uint16, np.uint32, np.uint64,
-                np.float32, np.float64):
+        if data.dtype == np.float64:
             return data
 
         # convert to np.float64 for performance reasons (matrices with floats but of type object are very slow)
+        # and because arithmetic on narrow integer types (e.g. the sum of two uint8 values) silently overflows
         X_float = data.astype(np.float64)
-        if not np.all(data == X_float):
+        is_lossless = (data != X_float).nnz == 0 if issparse(data) else np.all(data == X_float)
+        if not is_lossless:
             raise ValueError('Cannot convert data matrix to np.float64 without loss of precision. Please check your data.')
 
         return X_float
-- 
2.43.0


From 29e2be228896de1302cab5967fccad3296fc89d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:05:46 +0000
Subject: [PATCH 4/7] fix: fit() matched a pandas target by index label instead
 of by position

---
 bayesian_decision_tree/base.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/bayesian_decision_tree/base.py b/bayesian_decision_tree/base.py
index 832476e..b0f11e9 100755
--- a/bayesian_decision_tree/base.py
+++ b/bayesian_decision_tree/base.py
@@ -56,6 +56,8 @@ class BaseTree(ABC, BaseEstimator):
         # validation and input transformation
         if isinstance(y, list):
             y = np.array(y)
+        elif isinstance(y, (pd.Series, pd.DataFrame)):
+            y = y.values  # rows are matched by position, never by index label
 
         y = y.squeeze()
         y = self._ensure_float64(y)
-- 
2.43.0


From 9bebad663991eedab6d6fa4a59619cb423479f57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:05:46 +0000
Subject: [PATCH 5/7] fix: split value could be rounded onto the left-hand side
 data point

The midpoint of two adjacent floating point numbers rounds to one of them and
the sum of two huge ones overflows; the training points were then predicted by
a different leaf than the one they had trained.
---
 bayesian_decision_tree/base_perpendicular.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/bayesian_decision_tree/base_perpendicular.py b/bayesian_decision_tree/base_perpendicular.py
index d05cb01..9c8370b 100644
--- a/bayesian_decision_tree/base_perpendicular.py
+++ b/bayesian_decision_tree/base_perpendicular.py
@@ -143,10 +143,12 @@ class BasePerpendicularTree(BaseTree, ABC):
             # store split info, create children and continue training them if there's data left to split
             self.split_dimension_ = best_split_dimension
             self.split_feature_name_ = feature_names[best_split_dimension]
-            self.split_value_ = 0.5 * (
-                    X[indices1[-1], best_split_dimension]
-                    + X[indices2[0], best_split_dimension]
-            )
+            value1 = X[indices1[-1], best_split_dimension]
+            value2 = X[indices2[0], best_split_dimension]
+            self.split_value_ = 0.5 * (value1 + value2)
+            if not value1 < self.split_value_ <= value2:
+                # the midpoint is not representable (adjacent floating point numbers or overflow)
+                self.split_value_ = value2
             self.log_p_data_no_split_ = log_p_data_no_split
             self.best_log_p_data_split_ = best_log_p_data_split
 
-- 
2.43.0


From 5d7112c8dbd90eaa39e204aa8382d764595317d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:05:46 +0000
Subject: [PATCH 6/7] fix: feature_importance() of a tree without splits was
 NaN

There is nothing to normalize if no feature is used, so return all zeros.
---
 bayesian_decision_tree/base.py            | 4 +++-
 bayesian_decision_tree/base_hyperplane.py | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/bayesian_decision_tree/base.py b/bayesian_decision_tree/base.py
index b0f11e9..d3934d3 100755
--- a/bayesian_decision_tree/base.py
+++ b/bayesian_decision_tree/base.py
@@ -120,7 +120,9 @@ class BaseTree(ABC, BaseEstimator):
 
         feature_importance = np.zeros(self.n_dim_)
         self._update_feature_importance(feature_importance)
-        feature_importance /= feature_importance.sum()
+        total_importance = feature_importance.sum()
+        if total_importance > 0:
+            feature_importance /= total_importance
 
         return feature_importance
 
diff --git a/bayesian_decision_tree/base_hyperplane.py b/bayesian_decision_tree/base_hyperplane.py
index 27e0f1d..cf36c68 100644
--- a/bayesian_decision_tree/base_hyperplane.py
+++ b/bayesian_decision_tree/base_hyperplane.py
@@ -136,7 +136,9 @@ class BaseHyperplaneTree(BaseTree, ABC):
 
         feature_importance = np.zeros(self.n_dim_)
         self._update_feature_importance(feature_importance)
-        feature_importance /= feature_importance.sum()
+        total_importance = feature_importance.sum()
+        if total_importance > 0:
+            feature_importance /= total_importance
 
         return feature_importance
 
-- 
2.43.0


From 25fc3056e32889af74e498a725d1311fedb4f855 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:17:00 +0000
Subject: [PATCH 7/7] fix: beta update with delta < 1 mixed weighted and
 unweighted sample counts

---
 bayesian_decision_tree/regression.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bayesian_decision_tree/regression.py b/bayesian_decision_tree/regression.py
index d3aa5f7..7110ae8 100755
--- a/bayesian_decision_tree/regression.py
+++ b/bayesian_decision_tree/regression.py
@@ -99,7 +99,7 @@ class BaseRegressionTree(BaseTree, ABC, RegressorMixin):
         mu_post = (kappa * mu + n_delta * y_sum / n) / kappa_post
         alpha_post = alpha + 0.5*n_delta
         beta_post = beta + 0.5 * delta * (y_squared_sum - y_sum ** 2 / n) + 0.5 * kappa * n_delta * (
-                    y_sum / n - mu) ** 2 / (kappa + n)
+                    y_sum / n - mu) ** 2 / kappa_post
 
         return mu_post, kappa_post, alpha_post, beta_post
 
-- 
2.43.0

