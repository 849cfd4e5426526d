From 5feeff3732771ca86f6daf4f97ede71a9d672325 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:17 +0000
Subject: [PATCH 01/35] fix: Normalize uses the builtin int (np.int no longer
 exists in numpy)

---
 skopt/space/transformers.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/skopt/space/transformers.py b/skopt/space/transformers.py
index 6889295..f2dfb16 100644
--- a/skopt/space/transformers.py
+++ b/skopt/space/transformers.py
@@ -259,7 +259,7 @@ class Normalize(Transformer):
         if (self.high - self.low) == 0.:
             return X * 0.
         if self.is_int:
-            return (np.round(X).astype(np.int) - self.low) /\
+            return (np.round(X).astype(int) - self.low) /\
                    (self.high - self.low)
         else:
             return (X - self.low) / (self.high - self.low)
@@ -272,7 +272,7 @@ class Normalize(Transformer):
             raise ValueError("All values should be greater than 0.0")
         X_orig = X * (self.high - self.low) + self.low
         if self.is_int:
-            return np.round(X_orig).astype(np.int)
+            return np.round(X_orig).astype(int)
         return X_orig
 
 
-- 
2.43.0


From 00730b81fba2b192f7f361e33480b3ad6b8dc428 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:35 +0000
Subject: [PATCH 02/35] fix: forest regressors use criterion/max_features
 values scikit-learn accepts

---
 skopt/learning/forest.py | 42 ++++++++++++++++++++--------------------
 1 file changed, 21 insertions(+), 21 deletions(-)

diff --git a/skopt/learning/forest.py b/skopt/learning/forest.py
index 096770c..5387d9e 100644
--- a/skopt/learning/forest.py
+++ b/skopt/learning/forest.py
@@ -27,7 +27,7 @@ def _return_std(X, trees, predictions, min_variance):
     -------
     std : array-like, shape=(n_samples,)
         Standard deviation of `y` at `X`. If criterion
-        is set to "mse", then `std[i] ~= std(y | X[i])`.
+        is set to "squared_error", then `std[i] ~= std(y | X[i])`.
 
     """
     # This derives std(y | x) as described in 4.3.2 of arXiv:1211.0906
@@ -61,20 +61,19 @@ class RandomForestRegressor(_sk_RandomForestRegressor):
     n_estimators : integer, optional (default=10)
         The number of trees in the forest.
 
-    criterion : string, optional (default="mse")
+    criterion : string, optional (default="squared_error")
         The function to measure the quality of a split. Supported criteria
-        are "mse" for the mean squared error, which is equal to variance
+        are "squared_error", which is equal to variance
         reduction as feature selection criterion, and "mae" for the mean
         absolute error.
 
-    max_features : int, float, string or None, optional (default="auto")
+    max_features : int, float, string or None, optional (default=1.0)
         The number of features to consider when looking for the best split:
 
         - If int, then consider `max_features` features at each split.
         - If float, then `max_features` is a percentage and
           `int(max_features * n_features)` features are considered at each
           split.
-        - If "auto", then `max_features=n_features`.
         - If "sqrt", then `max_features=sqrt(n_features)`.
         - If "log2", then `max_features=log2(n_features)`.
         - If None, then `max_features=n_features`.
@@ -194,9 +193,10 @@ class RandomForestRegressor(_sk_RandomForestRegressor):
     .. [1] L. Breiman, "Random Forests", Machine Learning, 45(1), 5-32, 2001.
 
     """
-    def __init__(self, n_estimators=10, criterion='mse', max_depth=None,
+    def __init__(self, n_estimators=10, criterion="squared_error",
+                 max_depth=None,
                  min_samples_split=2, min_samples_leaf=1,
-                 min_weight_fraction_leaf=0.0, max_features='auto',
+                 min_weight_fraction_leaf=0.0, max_features=1.0,
                  max_leaf_nodes=None, min_impurity_decrease=0.,
                  bootstrap=True, oob_score=False,
                  n_jobs=1, random_state=None, verbose=0, warm_start=False,
@@ -228,20 +228,20 @@ class RandomForestRegressor(_sk_RandomForestRegressor):
         Returns
         -------
         predictions : array-like of shape = (n_samples,)
-            Predicted values for X. If criterion is set to "mse",
+            Predicted values for X. If criterion is set to "squared_error",
             then `predictions[i] ~= mean(y | X[i])`.
 
         std : array-like of shape=(n_samples,)
             Standard deviation of `y` at `X`. If criterion
-            is set to "mse", then `std[i] ~= std(y | X[i])`.
+            is set to "squared_error", then `std[i] ~= std(y | X[i])`.
 
         """
         mean = super(RandomForestRegressor, self).predict(X)
 
         if return_std:
-            if self.criterion != "mse":
+            if self.criterion not in ("squared_error", "mse"):
                 raise ValueError(
-                    "Expected impurity to be 'mse', got %s instead"
+                    "Expected impurity to be 'squared_error', got %s instead"
                     % self.criterion)
             std = _return_std(X, self.estimators_, mean, self.min_variance)
             return mean, std
@@ -257,20 +257,19 @@ class ExtraTreesRegressor(_sk_ExtraTreesRegressor):
     n_estimators : integer, optional (default=10)
         The number of trees in the forest.
 
-    criterion : string, optional (default="mse")
+    criterion : string, optional (default="squared_error")
         The function to measure the quality of a split. Supported criteria
-        are "mse" for the mean squared error, which is equal to variance
+        are "squared_error", which is equal to variance
         reduction as feature selection criterion, and "mae" for the mean
         absolute error.
 
-    max_features : int, float, string or None, optional (default="auto")
+    max_features : int, float, string or None, optional (default=1.0)
         The number of features to consider when looking for the best split:
 
         - If int, then consider `max_features` features at each split.
         - If float, then `max_features` is a percentage and
           `int(max_features * n_features)` features are considered at each
           split.
-        - If "auto", then `max_features=n_features`.
         - If "sqrt", then `max_features=sqrt(n_features)`.
         - If "log2", then `max_features=log2(n_features)`.
         - If None, then `max_features=n_features`.
@@ -390,9 +389,10 @@ class ExtraTreesRegressor(_sk_ExtraTreesRegressor):
     .. [1] L. Breiman, "Random Forests", Machine Learning, 45(1), 5-32, 2001.
 
     """
-    def __init__(self, n_estimators=10, criterion='mse', max_depth=None,
+    def __init__(self, n_estimators=10, criterion="squared_error",
+                 max_depth=None,
                  min_samples_split=2, min_samples_leaf=1,
-                 min_weight_fraction_leaf=0.0, max_features='auto',
+                 min_weight_fraction_leaf=0.0, max_features=1.0,
                  max_leaf_nodes=None, min_impurity_decrease=0.,
                  bootstrap=False, oob_score=False,
                  n_jobs=1, random_state=None, verbose=0, warm_start=False,
@@ -425,19 +425,19 @@ class ExtraTreesRegressor(_sk_ExtraTreesRegressor):
         Returns
         -------
         predictions : array-like of shape=(n_samples,)
-            Predicted values for X. If criterion is set to "mse",
+            Predicted values for X. If criterion is set to "squared_error",
             then `predictions[i] ~= mean(y | X[i])`.
 
         std : array-like of shape=(n_samples,)
             Standard deviation of `y` at `X`. If criterion
-            is set to "mse", then `std[i] ~= std(y | X[i])`.
+            is set to "squared_error", then `std[i] ~= std(y | X[i])`.
         """
         mean = super(ExtraTreesRegressor, self).predict(X)
 
         if return_std:
-            if self.criterion != "mse":
+            if self.criterion not in ("squared_error", "mse"):
                 raise ValueError(
-                    "Expected impurity to be 'mse', got %s instead"
+                    "Expected impurity to be 'squared_error', got %s instead"
                     % self.criterion)
             std = _return_std(X, self.estimators_, mean, self.min_variance)
             return mean, std
-- 
2.43.0


From 9ced073b6ea22ec1e6690f1b67ee23aa62fc13ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:01 +0000
Subject: [PATCH 03/35] fix: Real.transformed_bounds honours the logarithm base

---
 skopt/space/space.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/skopt/space/space.py b/skopt/space/space.py
index 329b0c1..e1ebc97 100644
--- a/skopt/space/space.py
+++ b/skopt/space/space.py
@@ -371,7 +371,8 @@ class Real(Dimension):
             if self.prior == "uniform":
                 return self.low, self.high
             else:
-                return np.log10(self.low), np.log10(self.high)
+                return (np.log10(self.low) / self.log_base,
+                        np.log10(self.high) / self.log_base)
 
     def distance(self, a, b):
         """Compute distance between point `a` and `b`.
-- 
2.43.0


From 5bff90ad453eb8f9542bee6d589e36bc4385c657 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:01 +0000
Subject: [PATCH 04/35] fix: Integer.transformed_bounds of a log-uniform
 dimension are logarithmic

---
 skopt/space/space.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/skopt/space/space.py b/skopt/space/space.py
index e1ebc97..17bfacd 100644
--- a/skopt/space/space.py
+++ b/skopt/space/space.py
@@ -555,6 +555,9 @@ class Integer(Dimension):
     def transformed_bounds(self):
         if self.transform_ == "normalize":
             return 0., 1.
+        elif self.prior == "log-uniform":
+            return (np.log10(self.low) / self.log_base,
+                    np.log10(self.high) / self.log_base)
         else:
             return (self.low, self.high)
 
-- 
2.43.0


From c291aee8a18b5a31128fe6bcf0a9bba47539af8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:01 +0000
Subject: [PATCH 05/35] fix: Categorical.transformed_bounds of a label encoded
 dimension span all labels

---
 skopt/space/space.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/skopt/space/space.py b/skopt/space/space.py
index 17bfacd..9b46014 100644
--- a/skopt/space/space.py
+++ b/skopt/space/space.py
@@ -725,6 +725,8 @@ class Categorical(Dimension):
 
     @property
     def transformed_bounds(self):
+        if self.transform_ == "label":
+            return 0.0, float(len(self.categories) - 1)
         if self.transformed_size == 1:
             return 0.0, 1.0
         else:
-- 
2.43.0


From 8c1657c60410090ded07e35d1793a2b83b1469f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:01 +0000
Subject: [PATCH 06/35] fix: spaces with different numbers of dimensions are
 not equal

---
 skopt/space/space.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/skopt/space/space.py b/skopt/space/space.py
index 9b46014..7af7b13 100644
--- a/skopt/space/space.py
+++ b/skopt/space/space.py
@@ -777,7 +777,9 @@ class Space(object):
         self.dimensions = [check_dimension(dim) for dim in dimensions]
 
     def __eq__(self, other):
-        return all([a == b for a, b in zip(self.dimensions, other.dimensions)])
+        return (len(self.dimensions) == len(other.dimensions) and
+                all([a == b for a, b in zip(self.dimensions,
+                                            other.dimensions)]))
 
     def __repr__(self):
         if len(self.dimensions) > 31:
-- 
2.43.0


From 5b7cd954dfe642c71d0bfe5525d25f7dc20b0682 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:26 +0000
Subject: [PATCH 07/35] fix: Integer dimensions with different prior or
 transform are not equal

---
 skopt/space/space.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/skopt/space/space.py b/skopt/space/space.py
index 7af7b13..cbc7c93 100644
--- a/skopt/space/space.py
+++ b/skopt/space/space.py
@@ -514,7 +514,9 @@ class Integer(Dimension):
     def __eq__(self, other):
         return (type(self) is type(other) and
                 np.allclose([self.low], [other.low]) and
-                np.allclose([self.high], [other.high]))
+                np.allclose([self.high], [other.high]) and
+                self.prior == other.prior and
+                self.transform_ == other.transform_)
 
     def __repr__(self):
         return "Integer(low={}, high={}, prior='{}', transform='{}')".format(
-- 
2.43.0


From 506963bf6ed830b723859747bce82fcadf3618bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:48 +0000
Subject: [PATCH 08/35] fix: per second acquisition functions compare with the
 best objective value, not the best log time

---
 skopt/optimizer/optimizer.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/skopt/optimizer/optimizer.py b/skopt/optimizer/optimizer.py
index 240ffbf..3ed08b1 100644
--- a/skopt/optimizer/optimizer.py
+++ b/skopt/optimizer/optimizer.py
@@ -552,10 +552,12 @@ class Optimizer(object):
             X = self.space.transform(self.space.rvs(
                 n_samples=self.n_points, random_state=self.rng))
 
+            y_opt = np.min([y for y, _ in self.yi] if "ps" in self.acq_func
+                           else self.yi)
             self.next_xs_ = []
             for cand_acq_func in self.cand_acq_funcs_:
                 values = _gaussian_acquisition(
-                    X=X, model=est, y_opt=np.min(self.yi),
+                    X=X, model=est, y_opt=y_opt,
                     acq_func=cand_acq_func,
                     acq_func_kwargs=self.acq_func_kwargs)
                 # Find the minimum of the acquisition function by randomly
@@ -574,7 +576,7 @@ class Optimizer(object):
                         results = Parallel(n_jobs=self.n_jobs)(
                             delayed(fmin_l_bfgs_b)(
                                 gaussian_acquisition_1D, x,
-                                args=(est, np.min(self.yi), cand_acq_func,
+                                args=(est, y_opt, cand_acq_func,
                                       self.acq_func_kwargs),
                                 bounds=self.space.transformed_bounds,
                                 approx_grad=False,
-- 
2.43.0


From 44d316858cc1d1e709b956236f29eb66c9f0ff71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:48 +0000
Subject: [PATCH 09/35] fix: constant liar values of per second optimizers are
 taken from the objective column

---
 skopt/optimizer/optimizer.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/skopt/optimizer/optimizer.py b/skopt/optimizer/optimizer.py
index 3ed08b1..b134151 100644
--- a/skopt/optimizer/optimizer.py
+++ b/skopt/optimizer/optimizer.py
@@ -397,15 +397,16 @@ class Optimizer(object):
 
             ti_available = "ps" in self.acq_func and len(opt.yi) > 0
             ti = [t for (_, t) in opt.yi] if ti_available else None
+            yi = [y for (y, _) in opt.yi] if ti_available else opt.yi
 
             if strategy == "cl_min":
-                y_lie = np.min(opt.yi) if opt.yi else 0.0  # CL-min lie
+                y_lie = np.min(yi) if yi else 0.0  # CL-min lie
                 t_lie = np.min(ti) if ti is not None else log(sys.float_info.max)
             elif strategy == "cl_mean":
-                y_lie = np.mean(opt.yi) if opt.yi else 0.0  # CL-mean lie
+                y_lie = np.mean(yi) if yi else 0.0  # CL-mean lie
                 t_lie = np.mean(ti) if ti is not None else log(sys.float_info.max)
             else:
-                y_lie = np.max(opt.yi) if opt.yi else 0.0  # CL-max lie
+                y_lie = np.max(yi) if yi else 0.0  # CL-max lie
                 t_lie = np.max(ti) if ti is not None else log(sys.float_info.max)
 
             # Lie to the optimizer.
-- 
2.43.0


From 8187a3603631c7f8411d3a66faf91ebf4e9bf0da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:48 +0000
Subject: [PATCH 10/35] fix: Optimizer.tell rejects batches of points and
 values of different lengths

---
 skopt/optimizer/optimizer.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/skopt/optimizer/optimizer.py b/skopt/optimizer/optimizer.py
index b134151..2740442 100644
--- a/skopt/optimizer/optimizer.py
+++ b/skopt/optimizer/optimizer.py
@@ -624,6 +624,8 @@ class Optimizer(object):
             if is_2Dlistlike(x):
                 if not (np.ndim(y) == 2 and np.shape(y)[1] == 2):
                     raise TypeError("expected y to be a list of (func_val, t)")
+                if len(x) != len(y):
+                    raise ValueError("`x` and `y` should have the same length")
             elif is_listlike(x):
                 if not (np.ndim(y) == 1 and len(y) == 2):
                     raise TypeError("expected y to be (func_val, t)")
@@ -633,6 +635,8 @@ class Optimizer(object):
             for y_value in y:
                 if not isinstance(y_value, Number):
                     raise ValueError("expected y to be a list of scalars")
+            if len(x) != len(y):
+                raise ValueError("`x` and `y` should have the same length")
 
         elif is_listlike(x):
             if not isinstance(y, Number):
-- 
2.43.0


From a8b9512efa91886545c5f1b411b63343f26c91bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:48 +0000
Subject: [PATCH 11/35] fix: Optimizer.copy keeps the model queue size

---
 skopt/optimizer/optimizer.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/skopt/optimizer/optimizer.py b/skopt/optimizer/optimizer.py
index 2740442..cb252e2 100644
--- a/skopt/optimizer/optimizer.py
+++ b/skopt/optimizer/optimizer.py
@@ -322,6 +322,7 @@ class Optimizer(object):
             acq_optimizer=self.acq_optimizer,
             acq_func_kwargs=self.acq_func_kwargs,
             acq_optimizer_kwargs=self.acq_optimizer_kwargs,
+            model_queue_size=self.max_model_queue_size,
             random_state=random_state
         )
         optimizer._initial_samples = self._initial_samples
-- 
2.43.0


From 6b22aaabc096bc42bfb71df7c80c2aa6f72dc2c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:48 +0000
Subject: [PATCH 12/35] fix: reject a model_queue_size that cannot hold any
 model

---
 skopt/optimizer/optimizer.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/skopt/optimizer/optimizer.py b/skopt/optimizer/optimizer.py
index cb252e2..a90443f 100644
--- a/skopt/optimizer/optimizer.py
+++ b/skopt/optimizer/optimizer.py
@@ -294,6 +294,9 @@ class Optimizer(object):
         if not isinstance(model_queue_size, (int, type(None))):
             raise TypeError("model_queue_size should be an int or None, "
                             "got {}".format(type(model_queue_size)))
+        if model_queue_size is not None and model_queue_size < 1:
+            raise ValueError("model_queue_size should be positive, "
+                             "got {}".format(model_queue_size))
         self.max_model_queue_size = model_queue_size
         self.models = []
         self.Xi = []
-- 
2.43.0


From 82069519207a551a07c685ee3e2468de0f45bd71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:48 +0000
Subject: [PATCH 13/35] fix: results hold snapshots of the evaluated points and
 models

---
 skopt/utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/skopt/utils.py b/skopt/utils.py
index a27e62c..e8f12f6 100644
--- a/skopt/utils.py
+++ b/skopt/utils.py
@@ -64,8 +64,8 @@ def create_result(Xi, yi, space=None, rng=None, specs=None, models=None):
     res.x = Xi[best]
     res.fun = yi[best]
     res.func_vals = yi
-    res.x_iters = Xi
-    res.models = models
+    res.x_iters = list(Xi)
+    res.models = None if models is None else list(models)
     res.space = space
     res.random_state = rng
     res.specs = specs
-- 
2.43.0


From 2998900dd763229eee21bc0aa04376447f505c6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:47 +0000
Subject: [PATCH 14/35] fix: check_callback returns a new list, so the user's
 list of callbacks is not extended

---
 skopt/callbacks.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skopt/callbacks.py b/skopt/callbacks.py
index 11e6c0b..02b1c84 100644
--- a/skopt/callbacks.py
+++ b/skopt/callbacks.py
@@ -26,7 +26,7 @@ def check_callback(callback):
 
         elif (isinstance(callback, list) and
               all([isinstance(c, Callable) for c in callback])):
-            return callback
+            return list(callback)
 
         else:
             raise ValueError("callback should be either a callable or "
-- 
2.43.0


From fc7187aeeadc7c534a1be5cffe9b2969f2dd2401 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:19 +0000
Subject: [PATCH 15/35] fix: GradientBoostingQuantileRegressor.fit does not
 modify the given base_estimator

---
 skopt/learning/gbrt.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/skopt/learning/gbrt.py b/skopt/learning/gbrt.py
index 76b59c6..5141b5e 100644
--- a/skopt/learning/gbrt.py
+++ b/skopt/learning/gbrt.py
@@ -74,6 +74,8 @@ class GradientBoostingQuantileRegressor(BaseEstimator, RegressorMixin):
 
         # The predictions for different quantiles should be sorted.
         # Therefore each of the regressors need the same seed.
+        # The estimator given by the caller is left as it is.
+        base_estimator = clone(base_estimator)
         base_estimator.set_params(random_state=rng)
         regressors = []
         for q in self.quantiles:
-- 
2.43.0


From 679cfced2eb679711fe2b53b9e637e5ba9cf7546 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:19 +0000
Subject: [PATCH 16/35] fix: Halton with one negative skip uses the larger skip
 instead of failing

---
 skopt/sampler/halton.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skopt/sampler/halton.py b/skopt/sampler/halton.py
index 7a3eeb8..1afa0a4 100644
--- a/skopt/sampler/halton.py
+++ b/skopt/sampler/halton.py
@@ -90,7 +90,7 @@ class Halton(InitialPointGenerator):
         elif self.min_skip < 0 and self.max_skip < 0:
             skip = max(primes)
         elif self.min_skip < 0 or self.max_skip < 0:
-            skip = np.max(self.min_skip, self.max_skip)
+            skip = max(self.min_skip, self.max_skip)
         else:
             skip = rng.randint(self.min_skip, self.max_skip)
 
-- 
2.43.0


From 8da506de4a8722cdefb67c9795848494d29a5232 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:19 +0000
Subject: [PATCH 17/35] fix: Grid(border='only') places its points on the
 border

---
 skopt/sampler/grid.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skopt/sampler/grid.py b/skopt/sampler/grid.py
index 2e90d7a..e5ee9c7 100644
--- a/skopt/sampler/grid.py
+++ b/skopt/sampler/grid.py
@@ -137,7 +137,7 @@ class Grid(InitialPointGenerator):
                 order = int(np.ceil(n_samples / 2.))
             if order < 2:
                 order = 2
-            h = _create_uniform_grid_exclude_border(n_dim, order)
+            h = _create_uniform_grid_only_border(n_dim, order)
         else:
             raise ValueError("Wrong value for border")
         if np.size(h, 0) > n_samples:
-- 
2.43.0


From 9216c3f4517fc518fa7f8795a29deb5d671b9da7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:19 +0000
Subject: [PATCH 18/35] fix: Grid returns n_samples points for a single
 dimension

---
 skopt/sampler/grid.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/skopt/sampler/grid.py b/skopt/sampler/grid.py
index e5ee9c7..b170d03 100644
--- a/skopt/sampler/grid.py
+++ b/skopt/sampler/grid.py
@@ -146,16 +146,22 @@ class Grid(InitialPointGenerator):
         elif np.size(h, 0) < n_samples:
             if self.append_border == "only":
                 order = int(np.ceil((n_samples - np.size(h, 0)) / 2.))
+                if n_dim == 1:
+                    order = max(order, n_samples - np.size(h, 0))
                 if order < 2:
                     order = 2
                 h2 = _create_uniform_grid_only_border(n_dim, order)
             elif self.append_border == "include":
                 order = int(np.ceil(np.sqrt(n_samples - np.size(h, 0))))
+                if n_dim == 1:
+                    order = max(order, n_samples - np.size(h, 0))
                 if order < 2:
                     order = 2
                 h2 = _create_uniform_grid_include_border(n_dim, order)
             elif self.append_border == "exclude":
                 order = int(np.ceil(np.sqrt(n_samples - np.size(h, 0))))
+                if n_dim == 1:
+                    order = max(order, n_samples - np.size(h, 0))
                 if order < 1:
                     order = 1
                 h2 = _create_uniform_grid_exclude_border(n_dim, order)
-- 
2.43.0


From 691f26873535a33fab920ee77bf9934b54d71383 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:19 +0000
Subject: [PATCH 19/35] fix: Grid and Lhs leave the transformers of the
 dimensions alone when they reject their settings

---
 skopt/sampler/grid.py | 2 ++
 skopt/sampler/lhs.py  | 3 +++
 2 files changed, 5 insertions(+)

diff --git a/skopt/sampler/grid.py b/skopt/sampler/grid.py
index b170d03..0f60634 100644
--- a/skopt/sampler/grid.py
+++ b/skopt/sampler/grid.py
@@ -139,6 +139,7 @@ class Grid(InitialPointGenerator):
                 order = 2
             h = _create_uniform_grid_only_border(n_dim, order)
         else:
+            space.set_transformer(transformer)
             raise ValueError("Wrong value for border")
         if np.size(h, 0) > n_samples:
             rng.shuffle(h)
@@ -166,6 +167,7 @@ class Grid(InitialPointGenerator):
                     order = 1
                 h2 = _create_uniform_grid_exclude_border(n_dim, order)
             else:
+                space.set_transformer(transformer)
                 raise ValueError("Wrong value for append_border")
             h = np.vstack((h, h2[:(n_samples - np.size(h, 0))]))
             rng.shuffle(h)
diff --git a/skopt/sampler/lhs.py b/skopt/sampler/lhs.py
index d63a15b..22763b9 100644
--- a/skopt/sampler/lhs.py
+++ b/skopt/sampler/lhs.py
@@ -78,6 +78,8 @@ class Lhs(InitialPointGenerator):
         space = Space(dimensions)
         transformer = space.get_transformer()
         n_dim = space.n_dims
+        if self.lhs_type not in ("classic", "centered"):
+            raise ValueError("Wrong lhs_type. Got {}".format(self.lhs_type))
         space.set_transformer("normalize")
         if self.criterion is None or n_samples == 1:
             h = self._lhs_normalized(n_dim, n_samples, rng)
@@ -124,6 +126,7 @@ class Lhs(InitialPointGenerator):
                         h_opt = h.copy()
                         h_opt = space.inverse_transform(h_opt)
             else:
+                space.set_transformer(transformer)
                 raise ValueError("Wrong criterion."
                                  "Got {}".format(self.criterion))
             space.set_transformer(transformer)
-- 
2.43.0


From 6483f30810f55c0f75265fe983e20db9950df681 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:20 +0000
Subject: [PATCH 20/35] fix: BayesSearchCV.total_iterations counts a single
 dict as one search space

---
 skopt/searchcv.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/skopt/searchcv.py b/skopt/searchcv.py
index 391b14c..01fc46e 100644
--- a/skopt/searchcv.py
+++ b/skopt/searchcv.py
@@ -423,7 +423,12 @@ class BayesSearchCV(BaseSearchCV):
         """
         total_iter = 0
 
-        for elem in self.search_spaces:
+        search_spaces = self.search_spaces
+        # a single dict is one search space
+        if isinstance(search_spaces, dict):
+            search_spaces = [search_spaces]
+
+        for elem in search_spaces:
 
             if isinstance(elem, tuple):
                 space, n_iter = elem
-- 
2.43.0


From 1aa82c21260231f8c616410b149e45579bfc7c4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:20 +0000
Subject: [PATCH 21/35] fix: BayesSearchCV rejects search spaces with zero
 iterations

---
 skopt/searchcv.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skopt/searchcv.py b/skopt/searchcv.py
index 01fc46e..42e91c9 100644
--- a/skopt/searchcv.py
+++ b/skopt/searchcv.py
@@ -335,7 +335,7 @@ class BayesSearchCV(BaseSearchCV):
                         )
                     subspace, n_iter = elem
 
-                    if (not isinstance(n_iter, int)) or n_iter < 0:
+                    if (not isinstance(n_iter, int)) or n_iter < 1:
                         raise ValueError(
                             "Number of iterations in search space should be"
                             "positive integer, got %s in tuple %s " %
-- 
2.43.0


From b66139a655f1f7ae0ac52ac5b2cad2959663fa64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:22 +0000
Subject: [PATCH 22/35] fix: samplers switch the transformers of the dimensions
 only while they convert points, so a failure leaves them alone

---
 skopt/sampler/grid.py      | 6 ++----
 skopt/sampler/halton.py    | 4 ++--
 skopt/sampler/hammersly.py | 6 +++---
 skopt/sampler/sobol.py     | 4 ++--
 4 files changed, 9 insertions(+), 11 deletions(-)

diff --git a/skopt/sampler/grid.py b/skopt/sampler/grid.py
index 0f60634..13ab0f6 100644
--- a/skopt/sampler/grid.py
+++ b/skopt/sampler/grid.py
@@ -111,8 +111,6 @@ class Grid(InitialPointGenerator):
         rng = check_random_state(random_state)
         space = Space(dimensions)
         n_dim = space.n_dims
-        transformer = space.get_transformer()
-        space.set_transformer("normalize")
 
         if self.border == "include":
             if self.use_full_layout:
@@ -139,7 +137,6 @@ class Grid(InitialPointGenerator):
                 order = 2
             h = _create_uniform_grid_only_border(n_dim, order)
         else:
-            space.set_transformer(transformer)
             raise ValueError("Wrong value for border")
         if np.size(h, 0) > n_samples:
             rng.shuffle(h)
@@ -167,12 +164,13 @@ class Grid(InitialPointGenerator):
                     order = 1
                 h2 = _create_uniform_grid_exclude_border(n_dim, order)
             else:
-                space.set_transformer(transformer)
                 raise ValueError("Wrong value for append_border")
             h = np.vstack((h, h2[:(n_samples - np.size(h, 0))]))
             rng.shuffle(h)
         else:
             rng.shuffle(h)
+        transformer = space.get_transformer()
+        space.set_transformer("normalize")
         h = space.inverse_transform(h)
         space.set_transformer(transformer)
         return h
diff --git a/skopt/sampler/halton.py b/skopt/sampler/halton.py
index 1afa0a4..8934123 100644
--- a/skopt/sampler/halton.py
+++ b/skopt/sampler/halton.py
@@ -74,8 +74,6 @@ class Halton(InitialPointGenerator):
             primes = list(self.primes)
         space = Space(dimensions)
         n_dim = space.n_dims
-        transformer = space.get_transformer()
-        space.set_transformer("normalize")
         if len(primes) < n_dim:
             prime_order = 10 * n_dim
             while len(primes) < n_dim:
@@ -99,6 +97,8 @@ class Halton(InitialPointGenerator):
         for dim_ in range(n_dim):
             out[dim_] = _van_der_corput_samples(
                 indices, number_base=primes[dim_])
+        transformer = space.get_transformer()
+        space.set_transformer("normalize")
         out = space.inverse_transform(np.transpose(out))
         space.set_transformer(transformer)
         return out
diff --git a/skopt/sampler/hammersly.py b/skopt/sampler/hammersly.py
index 5de6c6e..086bb58 100644
--- a/skopt/sampler/hammersly.py
+++ b/skopt/sampler/hammersly.py
@@ -75,8 +75,6 @@ class Hammersly(InitialPointGenerator):
                         primes=self.primes)
         space = Space(dimensions)
         n_dim = space.n_dims
-        transformer = space.get_transformer()
-        space.set_transformer("normalize")
         if n_dim == 1:
             out = halton.generate(dimensions, n_samples,
                                   random_state=rng)
@@ -87,6 +85,8 @@ class Hammersly(InitialPointGenerator):
                 random_state=rng)).T
 
             out[n_dim - 1] = np.linspace(0, 1, n_samples + 1)[:-1]
+            transformer = space.get_transformer()
+            space.set_transformer("normalize")
             out = space.inverse_transform(out.T)
-        space.set_transformer(transformer)
+            space.set_transformer(transformer)
         return out
diff --git a/skopt/sampler/sobol.py b/skopt/sampler/sobol.py
index a148003..2d7e0c2 100644
--- a/skopt/sampler/sobol.py
+++ b/skopt/sampler/sobol.py
@@ -257,8 +257,6 @@ class Sobol(InitialPointGenerator):
         rng = check_random_state(random_state)
         space = Space(dimensions)
         n_dim = space.n_dims
-        transformer = space.get_transformer()
-        space.set_transformer("normalize")
         r = np.full((n_samples, n_dim), np.nan)
 
         seed = self.skip
@@ -268,6 +266,8 @@ class Sobol(InitialPointGenerator):
         if self.randomize:
             r = _random_shift(r, rng)
 
+        transformer = space.get_transformer()
+        space.set_transformer("normalize")
         r = space.inverse_transform(r)
         space.set_transformer(transformer)
 
-- 
2.43.0


From edb766f378b49ed68b12a2faa992bbe4a3a84e0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:22 +0000
Subject: [PATCH 23/35] fix: check_dimension infers Integer only from two
 integer bounds when a prior is given

---
 skopt/space/space.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/skopt/space/space.py b/skopt/space/space.py
index cbc7c93..f56af71 100644
--- a/skopt/space/space.py
+++ b/skopt/space/space.py
@@ -111,7 +111,8 @@ def check_dimension(dimension, transform=None):
                              " supported types.".format(dimension))
 
     if len(dimension) == 3:
-        if (any([isinstance(dim, int) for dim in dimension[:2]]) and
+        if (all([isinstance(dim, numbers.Integral)
+                 for dim in dimension[:2]]) and
                 dimension[2] in ["uniform", "log-uniform"]):
             return Integer(*dimension, transform=transform)
         elif (any([isinstance(dim, (float, int)) for dim in dimension[:2]]) and
@@ -121,7 +122,8 @@ def check_dimension(dimension, transform=None):
             return Categorical(dimension, transform=transform)
 
     if len(dimension) == 4:
-        if (any([isinstance(dim, int) for dim in dimension[:2]]) and
+        if (all([isinstance(dim, numbers.Integral)
+                 for dim in dimension[:2]]) and
                 dimension[2] == "log-uniform" and isinstance(dimension[3],
                                                              int)):
             return Integer(*dimension, transform=transform)
-- 
2.43.0


From 45e69b80de7fdb250ceb11bda801863808fc0a8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:43 +0000
Subject: [PATCH 24/35] fix: gaussian_process.__all__ is a tuple of names

---
 skopt/learning/gaussian_process/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skopt/learning/gaussian_process/__init__.py b/skopt/learning/gaussian_process/__init__.py
index 6742fc3..220388f 100644
--- a/skopt/learning/gaussian_process/__init__.py
+++ b/skopt/learning/gaussian_process/__init__.py
@@ -1,3 +1,3 @@
 from .gpr import GaussianProcessRegressor
 
-__all__ = ("GaussianProcessRegressor")
+__all__ = ("GaussianProcessRegressor",)
-- 
2.43.0


From e656805582fba2008d57d014928f5e71c2ed7b69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:43 +0000
Subject: [PATCH 25/35] fix: InitialPointGenerator.generate raises
 NotImplementedError

---
 skopt/sampler/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skopt/sampler/base.py b/skopt/sampler/base.py
index 39dc6af..cf90a5b 100644
--- a/skopt/sampler/base.py
+++ b/skopt/sampler/base.py
@@ -4,7 +4,7 @@ from collections import defaultdict
 
 class InitialPointGenerator(object):
     def generate(self, dimensions, n_samples, random_state=None):
-        raise NotImplemented
+        raise NotImplementedError
 
     def set_params(self, **params):
         """
-- 
2.43.0


From b3b328cdf64b3fc71a0df9f582ff621b749d0513 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:43 +0000
Subject: [PATCH 26/35] fix: plot_gaussian_process works on results without
 call specifications

---
 skopt/plots.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/skopt/plots.py b/skopt/plots.py
index 5a14b01..c9b63cb 100644
--- a/skopt/plots.py
+++ b/skopt/plots.py
@@ -175,6 +175,9 @@ def plot_gaussian_process(res, **kwargs):
     x, x_model = _evenly_sample(dimension, n_points)
     x = x.reshape(-1, 1)
     x_model = x_model.reshape(-1, 1)
+    n_random = None
+    acq_func = None
+    acq_func_kwargs = None
     if res.specs is not None and "args" in res.specs:
         n_random = res.specs["args"].get('n_random_starts', None)
         acq_func = res.specs["args"].get("acq_func", "EI")
-- 
2.43.0


From 870073e627b6cd044db416e5277c5305225fb585 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:43 +0000
Subject: [PATCH 27/35] fix: inverse_transform of Real and Integer names a
 defined fallback value

---
 skopt/space/space.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/skopt/space/space.py b/skopt/space/space.py
index f56af71..4262da8 100644
--- a/skopt/space/space.py
+++ b/skopt/space/space.py
@@ -348,7 +348,7 @@ class Real(Dimension):
                                 self.low, self.high).astype(self.dtype)
         if self.dtype == float or self.dtype == 'float':
             # necessary, otherwise the type is converted to a numpy type
-            return getattr(inv_transform, "tolist", lambda: value)()
+            return getattr(inv_transform, "tolist", lambda: inv_transform)()
         else:
             return inv_transform
 
@@ -538,7 +538,7 @@ class Integer(Dimension):
         if self.dtype == int or self.dtype == 'int':
             # necessary, otherwise the type is converted to a numpy type
             return getattr(np.round(inv_transform).astype(self.dtype),
-                           "tolist", lambda: value)()
+                           "tolist", lambda: inv_transform)()
         else:
             return np.round(inv_transform).astype(self.dtype)
 
-- 
2.43.0


From c12c17425f4ca968a40ef5b3f5486d51d4815737 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:43 +0000
Subject: [PATCH 28/35] fix: BayesSearchCV does not name the caller's
 dimensions

---
 skopt/searchcv.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/skopt/searchcv.py b/skopt/searchcv.py
index 42e91c9..881b6d3 100644
--- a/skopt/searchcv.py
+++ b/skopt/searchcv.py
@@ -1,4 +1,5 @@
 import warnings
+from copy import copy
 
 try:
     from collections.abc import Sized
@@ -383,7 +384,9 @@ class BayesSearchCV(BaseSearchCV):
         """
 
         kwargs = self.optimizer_kwargs_.copy()
-        kwargs['dimensions'] = dimensions_aslist(params_space)
+        # copies, as the names below are not set on the caller's dimensions
+        kwargs['dimensions'] = [
+            copy(dim) for dim in dimensions_aslist(params_space)]
         optimizer = Optimizer(**kwargs)
         for i in range(len(optimizer.space.dimensions)):
             if optimizer.space.dimensions[i].name is not None:
-- 
2.43.0


From 4efd66ca0ba2d6dcf9511ee068d6827765bef09f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:25 +0000
Subject: [PATCH 29/35] fix: GaussianProcessRegressor.fit does not modify the
 kernel parameter

---
 skopt/learning/gaussian_process/gpr.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/skopt/learning/gaussian_process/gpr.py b/skopt/learning/gaussian_process/gpr.py
index 34902d7..cc92bc6 100644
--- a/skopt/learning/gaussian_process/gpr.py
+++ b/skopt/learning/gaussian_process/gpr.py
@@ -183,6 +183,7 @@ class GaussianProcessRegressor(sk_GaussianProcessRegressor):
             raise ValueError("expected noise to be 'gaussian', got %s"
                              % self.noise)
 
+        kernel = self.kernel
         if self.kernel is None:
             self.kernel = ConstantKernel(1.0, constant_value_bounds="fixed") \
                           * RBF(1.0, length_scale_bounds="fixed")
@@ -192,7 +193,12 @@ class GaussianProcessRegressor(sk_GaussianProcessRegressor):
             self.kernel = self.kernel + WhiteKernel(
                 noise_level=self.noise, noise_level_bounds="fixed"
             )
-        super(GaussianProcessRegressor, self).fit(X, y)
+        try:
+            super(GaussianProcessRegressor, self).fit(X, y)
+        finally:
+            # the parameter keeps the value given by the caller, another call
+            # to fit starts from it and not from a kernel with noise added.
+            self.kernel = kernel
 
         self.noise_ = None
 
-- 
2.43.0


From 41bd4f4f1ffc3ddc922b3dbc02283ff8122c4859 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:38:48 +0000
Subject: [PATCH 30/35] fix: normalized Categorical dimensions sample their
 prior

---
 skopt/space/space.py | 17 ++++++-----------
 1 file changed, 6 insertions(+), 11 deletions(-)

diff --git a/skopt/space/space.py b/skopt/space/space.py
index 4262da8..70afaf3 100644
--- a/skopt/space/space.py
+++ b/skopt/space/space.py
@@ -658,13 +658,10 @@ class Categorical(Dimension):
         else:
             self.transformer = Identity()
             self.transformer.fit(self.categories)
-        if transform == "normalize":
-            self._rvs = _uniform_inclusive(0.0, 1.0)
-        else:
-            # XXX check that sum(prior) == 1
-            self._rvs = rv_discrete(
-                values=(range(len(self.categories)), self.prior_)
-            )
+        # XXX check that sum(prior) == 1
+        self._rvs = rv_discrete(
+            values=(range(len(self.categories)), self.prior_)
+        )
 
     def __eq__(self, other):
         return (type(self) is type(other) and
@@ -699,11 +696,9 @@ class Categorical(Dimension):
         choices = self._rvs.rvs(size=n_samples, random_state=random_state)
 
         if isinstance(choices, numbers.Integral):
+            if self.transform_ == "normalize":
+                return [self.categories[choices]]
             return self.categories[choices]
-        elif self.transform_ == "normalize" and isinstance(choices, float):
-            return self.inverse_transform([(choices)])
-        elif self.transform_ == "normalize":
-            return self.inverse_transform(list(choices))
         else:
             return [self.categories[c] for c in choices]
 
-- 
2.43.0


From e052d05443be98dad3dfeb073ebf74e5ccdcc6bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:47:49 +0000
Subject: [PATCH 31/35] fix: StringEncoder maps the strings of fitted
 categories back to the categories

---
 skopt/space/transformers.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/skopt/space/transformers.py b/skopt/space/transformers.py
index f2dfb16..e2bf2f4 100644
--- a/skopt/space/transformers.py
+++ b/skopt/space/transformers.py
@@ -37,6 +37,7 @@ class StringEncoder(Transformer):
     def __init__(self, dtype=str):
         super(StringEncoder, self).__init__()
         self.dtype = dtype
+        self.inverse_mapping_ = {}
 
     def fit(self, X):
         """Fit a list or array of categories. All elements must be from the
@@ -49,6 +50,8 @@ class StringEncoder(Transformer):
         """
         if len(X) > 0:
             self.dtype = type(X[0])
+        # str(False) is not empty, so bool(str(False)) is not False
+        self.inverse_mapping_ = {str(x): x for x in X}
 
     def transform(self, X):
         """Transform an array of categories to a string encoded representation.
@@ -79,7 +82,8 @@ class StringEncoder(Transformer):
         X : array-like, shape=(n_samples,)
             The original categories.
         """
-        return [self.dtype(x) for x in Xt]
+        return [self.inverse_mapping_[x] if x in self.inverse_mapping_
+                else self.dtype(x) for x in Xt]
 
 
 class LogN(Transformer):
-- 
2.43.0


From 8691107e4f4319ac58724b78d1e47d509eed6c41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:49:09 +0000
Subject: [PATCH 32/35] fix: plot_evaluations looks up the kind of the plotted
 dimension by its index in the space

---
 skopt/plots.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/skopt/plots.py b/skopt/plots.py
index c9b63cb..3506413 100644
--- a/skopt/plots.py
+++ b/skopt/plots.py
@@ -830,7 +830,7 @@ def plot_evaluations(result, bins=20, dimensions=None,
         for j in range(n_dims):
             if i == j:
                 index, dim = plot_dims[i]
-                if iscat[j]:
+                if iscat[index]:
                     bins_ = len(dim.categories)
                 elif dim.prior == 'log-uniform':
                     low, high = space.bounds[index]
@@ -842,7 +842,7 @@ def plot_evaluations(result, bins=20, dimensions=None,
                 else:
                     ax_ = ax[i, i]
                 ax_.hist(samples[:, index], bins=bins_,
-                         range=None if iscat[j] else dim.bounds)
+                         range=None if iscat[index] else dim.bounds)
 
             # lower triangle
             elif i > j:
-- 
2.43.0


From d341f47a6ba830365ff684e5413eb9d4268aef99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:49:09 +0000
Subject: [PATCH 33/35] fix: plot_convergence draws a true minimum of zero

---
 skopt/plots.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/skopt/plots.py b/skopt/plots.py
index 3506413..fc36b3f 100644
--- a/skopt/plots.py
+++ b/skopt/plots.py
@@ -95,12 +95,12 @@ def plot_convergence(*args, **kwargs):
             ax.plot(iterations, np.mean(mins, axis=0), c=color,
                     marker=".", markersize=12, lw=2, label=name)
 
-    if true_minimum:
+    if true_minimum is not None:
         ax.axhline(true_minimum, linestyle="--",
                    color="r", lw=1,
                    label="True minimum")
 
-    if true_minimum or name:
+    if true_minimum is not None or name:
         ax.legend(loc="best")
 
     return ax
-- 
2.43.0


From 3be7b55bd4eea57d787710a3619aca4cda3d6be6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:09 +0000
Subject: [PATCH 34/35] fix: Real keeps points of a narrow dtype within the
 bounds

---
 skopt/space/space.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/skopt/space/space.py b/skopt/space/space.py
index 70afaf3..0bfcac6 100644
--- a/skopt/space/space.py
+++ b/skopt/space/space.py
@@ -350,7 +350,13 @@ class Real(Dimension):
             # necessary, otherwise the type is converted to a numpy type
             return getattr(inv_transform, "tolist", lambda: inv_transform)()
         else:
-            return inv_transform
+            # rounding to a narrower dtype must not leave the bounds
+            low, high = np.array([self.low, self.high]).astype(self.dtype)
+            if float(low) < self.low:
+                low = np.nextafter(low, high)
+            if float(high) > self.high:
+                high = np.nextafter(high, low)
+            return np.clip(inv_transform, low, high)
 
     @property
     def bounds(self):
-- 
2.43.0


From 3e411df22b22de7e09bf4ae850da88cb059b316e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:19 +0000
Subject: [PATCH 35/35] fix: categories of several types keep their types and
 can be label encoded

---
 skopt/space/space.py        | 5 ++++-
 skopt/space/transformers.py | 5 +++--
 2 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/skopt/space/space.py b/skopt/space/space.py
index 0bfcac6..d702ae1 100644
--- a/skopt/space/space.py
+++ b/skopt/space/space.py
@@ -695,7 +695,10 @@ class Categorical(Dimension):
         # of type float, hence the required cast back to int.
         inv_transform = super(Categorical, self).inverse_transform(Xt)
         if isinstance(inv_transform, list):
-            inv_transform = np.array(inv_transform)
+            # categories of several types have no common array type
+            one_type = len(set(map(type, self.categories))) <= 1
+            inv_transform = np.array(inv_transform,
+                                     dtype=None if one_type else object)
         return inv_transform
 
     def rvs(self, n_samples=None, random_state=None):
diff --git a/skopt/space/transformers.py b/skopt/space/transformers.py
index e2bf2f4..11983d4 100644
--- a/skopt/space/transformers.py
+++ b/skopt/space/transformers.py
@@ -170,7 +170,9 @@ class LabelEncoder(Transformer):
         X : array-like, shape=(n_categories,)
             List of categories.
         """
-        X = np.asarray(X)
+        # values of several types have no common array type
+        one_type = len(set(map(type, X))) <= 1
+        X = np.asarray(X, dtype=None if one_type else object)
         if X.dtype == object:
             self.mapping_ = {v: i for i, v in enumerate(X)}
         else:
@@ -196,7 +198,6 @@ class LabelEncoder(Transformer):
         Xt : array-like, shape=(n_samples, n_categories)
             The integer categories.
         """
-        X = np.asarray(X)
         return [self.mapping_[v] for v in X]
 
     def inverse_transform(self, Xt):
-- 
2.43.0

