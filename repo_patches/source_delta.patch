From 2523e2819def68eb0bbc57ad6615237362513a9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:12 +0000
Subject: [PATCH 01/23] fix: BaseTransformer.fit passes the instance, not an
 (instance, label) tuple

---
 pysad/core/base_transformer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pysad/core/base_transformer.py b/pysad/core/base_transformer.py
index 62ff4e9..5d77f87 100644
--- a/pysad/core/base_transformer.py
+++ b/pysad/core/base_transformer.py
@@ -73,7 +73,7 @@ class BaseTransformer(ABC):
         Returns:
             object: The fitted transformer
         """
-        for xi in _iterate(X):
+        for xi, _ in _iterate(X):
             self.fit_partial(xi)
 
         return self
-- 
2.43.0


From 1d5a669fba8517e27bdf0d34007e1210f1f4c343 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:29 +0000
Subject: [PATCH 02/23] fix: RunningStatistic forwards keyword arguments to the
 wrapped statistic

---
 pysad/statistics/running_statistic.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pysad/statistics/running_statistic.py b/pysad/statistics/running_statistic.py
index 7b37aa3..cd8c5eb 100644
--- a/pysad/statistics/running_statistic.py
+++ b/pysad/statistics/running_statistic.py
@@ -11,9 +11,9 @@ class RunningStatistic(BaseStatistic):
     """
 
     def __init__(self, statistic_cls, window_size, **kwargs):
-        super().__init__(**kwargs)
+        super().__init__()
         self.statistic_cls = statistic_cls
-        self.statistic = self.statistic_cls()
+        self.statistic = self.statistic_cls(**kwargs)
 
         self.window_size = window_size
         self.window = []
-- 
2.43.0


From 0de8895646380e682073c8065511713fb9f6ca2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:29 +0000
Subject: [PATCH 03/23] fix: WindowedMetric keeps the metric keyword arguments
 after the first window

---
 pysad/evaluation/windowed_metric.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pysad/evaluation/windowed_metric.py b/pysad/evaluation/windowed_metric.py
index 31e93ae..1b86a01 100644
--- a/pysad/evaluation/windowed_metric.py
+++ b/pysad/evaluation/windowed_metric.py
@@ -22,7 +22,8 @@ class WindowedMetric(BaseMetric):
         self.window_size = window_size
         self.metric_cls = metric_cls
 
-        self.metric = self._init_metric(**kwargs)
+        self.metric_kwargs = kwargs
+        self.metric = self._init_metric(**self.metric_kwargs)
 
         self.score_meter = AverageMeter()
         self.step = 0
@@ -51,7 +52,7 @@ class WindowedMetric(BaseMetric):
             self.num_windows += 1
             score = self.metric.get()
             self.score_meter.update(score)
-            self.metric = self._init_metric()
+            self.metric = self._init_metric(**self.metric_kwargs)
 
         return self
 
-- 
2.43.0


From 3d86fcba351fe0b52bdf09049209cf672e8edefd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:29 +0000
Subject: [PATCH 04/23] fix: GaussianTailProbabilityCalibrator ignores
 window_size when running_statistics is False

---
 pysad/transform/probability_calibration/gaussian_tail.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pysad/transform/probability_calibration/gaussian_tail.py b/pysad/transform/probability_calibration/gaussian_tail.py
index db9eb80..fb9e898 100644
--- a/pysad/transform/probability_calibration/gaussian_tail.py
+++ b/pysad/transform/probability_calibration/gaussian_tail.py
@@ -23,7 +23,7 @@ class GaussianTailProbabilityCalibrator(BasePostprocessor):
             self.var_meter = RunningStatistic(VarianceMeter, self.window_size)
         else:
             self.avg_meter = AverageMeter()
-            self.var_meter = RunningStatistic(VarianceMeter, self.window_size)
+            self.var_meter = VarianceMeter()
 
     def fit_partial(self, score):
         """Fits particular (next) timestep's score to train the postprocessor.
-- 
2.43.0


From 7a88f6c5e4e8ccc03ee452d5deaf4e22f0920fee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:29 +0000
Subject: [PATCH 05/23] fix: VarianceMeter never returns a negative variance
 due to round-off

---
 pysad/statistics/variance_meter.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pysad/statistics/variance_meter.py b/pysad/statistics/variance_meter.py
index edfd3e5..6b3b386 100644
--- a/pysad/statistics/variance_meter.py
+++ b/pysad/statistics/variance_meter.py
@@ -2,6 +2,7 @@ from pysad.core.base_statistic import UnivariateStatistic
 from pysad.statistics.count_meter import CountMeter
 from pysad.statistics.sum_meter import SumMeter
 from pysad.statistics.sum_squares_meter import SumSquaresMeter
+import numpy as np
 
 
 class VarianceMeter(UnivariateStatistic):
@@ -62,4 +63,4 @@ class VarianceMeter(UnivariateStatistic):
 
         var = (sum_squares - (sum**2) / count) / count
 
-        return var
+        return np.maximum(var, 0.0)  # Round-off may yield a slightly negative value.
-- 
2.43.0


From 199c12a5a1fc352f7358575d13f684aeec9858b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:29 +0000
Subject: [PATCH 06/23] fix: RobustRandomCutForest keeps exactly the last
 tree_size instances

---
 pysad/models/robust_random_cut_forest.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pysad/models/robust_random_cut_forest.py b/pysad/models/robust_random_cut_forest.py
index 9168233..76d4800 100644
--- a/pysad/models/robust_random_cut_forest.py
+++ b/pysad/models/robust_random_cut_forest.py
@@ -35,7 +35,7 @@ class RobustRandomCutForest(BaseModel):
             object: Returns the self.
         """
         for tree in self.forest:
-            if len(tree.leaves) > self.tree_size:
+            if len(tree.leaves) >= self.tree_size:
                 tree.forget_point(self.index - self.tree_size)
 
             tree.insert_point(X, index=self.index)
-- 
2.43.0


From 6906ab7039ec9aeccf9fbdb0eab1d35c30e3c937 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:25 +0000
Subject: [PATCH 07/23] fix: xStream scores with the bins the reference window
 was fitted with

---
 pysad/models/xstream.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/pysad/models/xstream.py b/pysad/models/xstream.py
index 9dc8848..28480fd 100644
--- a/pysad/models/xstream.py
+++ b/pysad/models/xstream.py
@@ -56,8 +56,8 @@ class xStream(BaseModel):
             self.ref_window = self.cur_window
             self.cur_window = []
             deltamax = self._compute_deltamax()
-            self.hs_chains.set_deltamax(deltamax)
             self.hs_chains.next_window()
+            self.hs_chains.set_deltamax(deltamax)
 
         return self
 
@@ -101,6 +101,10 @@ class _Chain:
         self.rand_arr = np.random.rand(k)
         self.shift = self.rand_arr * deltamax
 
+        # The bins of the reference sketches, which are the ones in use when these sketches were fitted.
+        self.ref_deltamax = self.deltamax
+        self.ref_shift = self.shift
+
         self.is_first_window = True
 
     def fit(self, X):
@@ -150,10 +154,10 @@ class _Chain:
             depthcount[f] += 1
 
             if depthcount[f] == 1:
-                prebins[:, f] = (X[:, f] + self.shift[f]) / self.deltamax[f]
+                prebins[:, f] = (X[:, f] + self.ref_shift[f]) / self.ref_deltamax[f]
             else:
                 prebins[:, f] = 2.0 * prebins[:, f] - \
-                    self.shift[f] / self.deltamax[f]
+                    self.ref_shift[f] / self.ref_deltamax[f]
 
             cmsketch = self.cmsketches[depth]
             for i, prebin in enumerate(prebins):
@@ -175,6 +179,8 @@ class _Chain:
 
     def next_window(self):
         self.is_first_window = False
+        self.ref_deltamax = self.deltamax
+        self.ref_shift = self.shift
         self.cmsketches = self.cmsketches_cur
         self.cmsketches_cur = [{} for _ in range(self.depth)] * self.depth
 
-- 
2.43.0


From c4ae5a640951c674c38fa734acca53af5b2ef625 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:25 +0000
Subject: [PATCH 08/23] fix: LODA sparsifies its projections once instead of at
 every fit

---
 pysad/models/loda.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/pysad/models/loda.py b/pysad/models/loda.py
index 5c034bb..bd211e2 100644
--- a/pysad/models/loda.py
+++ b/pysad/models/loda.py
@@ -39,14 +39,16 @@ class LODA(BaseModel):
             self.n_zero_components = self.num_features - \
                 np.int32(n_nonzero_components)
 
+            for i in range(self.n_random_cuts):
+                rands = np.random.permutation(self.num_features)[
+                    :self.n_zero_components]
+                self.projections_[i, rands] = 0.
+
             self.to_init = False
 
         X = X.reshape(1, -1)
 
         for i in range(self.n_random_cuts):
-            rands = np.random.permutation(self.num_features)[
-                :self.n_zero_components]
-            self.projections_[i, rands] = 0.
             projected_data = self.projections_[i, :].dot(X.T)
             self.histograms_[i, :], self.limits_[i, :] = np.histogram(
                 projected_data, bins=self.n_bins, density=False)
-- 
2.43.0


From fc836641209bb36f6a1c5c68db64e5919903266b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:25 +0000
Subject: [PATCH 09/23] fix: Inqmad.predict uses the current density matrix
 instead of the one traced at the first call

---
 pysad/models/inqmad.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/pysad/models/inqmad.py b/pysad/models/inqmad.py
index 9a9f167..4c420f2 100644
--- a/pysad/models/inqmad.py
+++ b/pysad/models/inqmad.py
@@ -242,7 +242,6 @@ class InqMeasurement():
 
   
 
-  @partial(jit, static_argnums=(0,))
   def predict(self, values):
     num_batches = InqMeasurement.obtain_params_batches(values, self.batch_size)
     results = None
-- 
2.43.0


From 3b85fd8f9ade9ded738d7f1d1a86de40d0bc4f3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:55 +0000
Subject: [PATCH 10/23] fix: random projectors use one projection matrix for
 the whole stream

---
 pysad/transform/projection/random_projector.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pysad/transform/projection/random_projector.py b/pysad/transform/projection/random_projector.py
index f66a782..6d6a0a0 100644
--- a/pysad/transform/projection/random_projector.py
+++ b/pysad/transform/projection/random_projector.py
@@ -12,6 +12,7 @@ class BaseSKLearnProjector(BaseTransformer):
             num_components (int): The number of dimensions that the target will be projected into.
         """
         super().__init__(num_components)
+        self.fitted_projector = None
 
     @property
     @abstractmethod
@@ -43,7 +44,10 @@ class BaseSKLearnProjector(BaseTransformer):
         """
         x = X.reshape(1, -1)
 
-        return self._projector().fit_transform(x).reshape(-1)
+        if self.fitted_projector is None:
+            self.fitted_projector = self._projector().fit(x)
+
+        return self.fitted_projector.transform(x).reshape(-1)
 
 
 class GaussianRandomProjector(BaseSKLearnProjector):
-- 
2.43.0


From eee6250406a908acf0666426bb839822339504b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:55 +0000
Subject: [PATCH 11/23] fix: StreamhashProjector returns a vector for a single
 component too

---
 pysad/transform/projection/streamhash_projector.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pysad/transform/projection/streamhash_projector.py b/pysad/transform/projection/streamhash_projector.py
index 863464d..4ac2df8 100644
--- a/pysad/transform/projection/streamhash_projector.py
+++ b/pysad/transform/projection/streamhash_projector.py
@@ -47,7 +47,7 @@ class StreamhashProjector(BaseTransformer):
                        for f in feature_names]
                       for k in self.keys])
 
-        Y = np.dot(X, R.T).squeeze()
+        Y = np.dot(X, R.T).reshape(-1)
 
         return Y
 
-- 
2.43.0


From 517f1d0f7b101ffdef521838403173a3241f54a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:55 +0000
Subject: [PATCH 12/23] fix: Data loads .txt files that have a single row

---
 pysad/utils/data.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pysad/utils/data.py b/pysad/utils/data.py
index 71e6036..c8ddb2e 100644
--- a/pysad/utils/data.py
+++ b/pysad/utils/data.py
@@ -53,7 +53,7 @@ class Data:
         Returns:
             X (np.float64 array of shape (num_instances, num_features)): Feature vectors.
         """
-        X = np.loadtxt(path, delimiter=",")
+        X = np.loadtxt(path, delimiter=",", ndmin=2)
 
         return X
 
-- 
2.43.0


From cb374fee4d1da2c6a0b29a597273606af1383a22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:55 +0000
Subject: [PATCH 13/23] fix: ArrayStreamer shuffles when iter is called so that
 Data.get_iterator's seed determines the order

---
 pysad/utils/array_streamer.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pysad/utils/array_streamer.py b/pysad/utils/array_streamer.py
index 58a502e..aba6d78 100644
--- a/pysad/utils/array_streamer.py
+++ b/pysad/utils/array_streamer.py
@@ -23,6 +23,9 @@ class ArrayStreamer(BaseStreamer):
         if self.shuffle:
             np.random.shuffle(indices)
 
+        return self._iter_indices(indices, X, y)
+
+    def _iter_indices(self, indices, X, y):
         if y is None:
             for i in indices:
                 yield X[i]
-- 
2.43.0


From bf27507627564a2671e55340c497fe473e76c8af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:55 +0000
Subject: [PATCH 14/23] fix: HalfSpaceTrees accepts an array as
 initial_window_X

---
 pysad/models/half_space_trees.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pysad/models/half_space_trees.py b/pysad/models/half_space_trees.py
index ea22e9a..2aaf177 100644
--- a/pysad/models/half_space_trees.py
+++ b/pysad/models/half_space_trees.py
@@ -42,7 +42,7 @@ class HalfSpaceTrees(BaseModel):
 
         self.is_first_window = True
         self.step = 0
-        if initial_window_X:
+        if initial_window_X is not None:
             self.fit(initial_window_X)
 
     def _build_single_hs_tree(self, mins, maxes, current_depth):
-- 
2.43.0


From 664be3d2d35cbb95a04c8c3246558f356508fdaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:09 +0000
Subject: [PATCH 15/23] fix: KNNCAD keeps only the values it still needs

---
 pysad/models/knn_cad.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pysad/models/knn_cad.py b/pysad/models/knn_cad.py
index d4db83f..d3c39b8 100644
--- a/pysad/models/knn_cad.py
+++ b/pysad/models/knn_cad.py
@@ -47,6 +47,7 @@ class KNNCAD(BaseModel):
             self.to_init = False
 
         self.buf.append(X[0])
+        self.buf = self.buf[-self.dim:]
         self.record_count += 1
         if len(self.buf) < self.dim:
             return self
-- 
2.43.0


From 503755fc3ee5c12f25a549a96b0ab208a236062c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:09 +0000
Subject: [PATCH 16/23] fix: RelativeEntropy keeps only the last window_size
 values

---
 pysad/models/relative_entropy.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pysad/models/relative_entropy.py b/pysad/models/relative_entropy.py
index be824b2..5455cc5 100644
--- a/pysad/models/relative_entropy.py
+++ b/pysad/models/relative_entropy.py
@@ -58,6 +58,7 @@ class RelativeEntropy(BaseModel):
             object: Returns the self.
         """
         self.util.append(X)
+        self.util = self.util[-self.W:]
         if len(self.util) >= self.W:
 
             # Extracting current window
-- 
2.43.0


From 12867cbf37f4fdaa0b3d8728a603a9ad12fa4c41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:09 +0000
Subject: [PATCH 17/23] fix: KitNet scores 0 instead of NaN before its
 autoencoders are trained

---
 pysad/models/kitnet_model/dA.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pysad/models/kitnet_model/dA.py b/pysad/models/kitnet_model/dA.py
index 09861d3..5ada6e2 100644
--- a/pysad/models/kitnet_model/dA.py
+++ b/pysad/models/kitnet_model/dA.py
@@ -112,7 +112,7 @@ class dA:
         return z
 
     def execute(self, x): #returns MSE of the reconstruction of x
-        if self.n < self.params.gracePeriod:
+        if self.n == 0 or self.n < self.params.gracePeriod:
             return 0.0
         else:
             # 0-1 normalize
-- 
2.43.0


From b8d8e623060422324b4f56c8b203bd07d6139256 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:20 +0000
Subject: [PATCH 18/23] fix: KitNet maps the features of univariate streams

---
 pysad/models/kitnet_model/corClust.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pysad/models/kitnet_model/corClust.py b/pysad/models/kitnet_model/corClust.py
index 2514553..31b2de2 100644
--- a/pysad/models/kitnet_model/corClust.py
+++ b/pysad/models/kitnet_model/corClust.py
@@ -35,6 +35,8 @@ class corClust:
 
     # clusters the features together, having no more than maxClust features per cluster
     def cluster(self,maxClust):
+        if self.n == 1:  # there is nothing to cluster
+            return [[0]]
         D = self.corrDist()
         Z = linkage(D[np.triu_indices(self.n, 1)])  # create a linkage matrix based on the distance matrix
         if maxClust < 1:
-- 
2.43.0


From 5a8dfbba81cb3127fa54fa7007485eee6aad9450 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:41:20 +0000
Subject: [PATCH 19/23] fix: IForestASD ignores labels instead of failing on
 them at the next slide

---
 pysad/models/iforest_asd.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/pysad/models/iforest_asd.py b/pysad/models/iforest_asd.py
index c6a2184..74bc2b1 100644
--- a/pysad/models/iforest_asd.py
+++ b/pysad/models/iforest_asd.py
@@ -12,3 +12,15 @@ class IForestASD(ReferenceWindowModel):
     def __init__(self, initial_window_X=None, window_size=2048, **kwargs):
         super().__init__(IForest, window_size, window_size, initial_window_X, **kwargs)
         # TODO: implement concept drift method
+
+    def fit_partial(self, X, y=None):
+        """Fits the model to next instance.
+
+        Args:
+            X (np.float64 array of shape (num_features,)): The instance to fit.
+            y (int): Ignored since the model is unsupervised (Default=None).
+
+        Returns:
+            object: self.
+        """
+        return super().fit_partial(X)
-- 
2.43.0


From 36f003673d0c3500fc25ee20c9eb9f7ebef9ab52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:41:20 +0000
Subject: [PATCH 20/23] fix: ReferenceWindowModel accepts labelled instances
 after an unlabelled initial window

---
 pysad/models/integrations/reference_window_model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pysad/models/integrations/reference_window_model.py b/pysad/models/integrations/reference_window_model.py
index d29da6c..f3784f1 100644
--- a/pysad/models/integrations/reference_window_model.py
+++ b/pysad/models/integrations/reference_window_model.py
@@ -75,7 +75,7 @@ class ReferenceWindowModel(PYODModel):
             self.reference_window_X = self.reference_window_X[max(
                 0, len(self.reference_window_X) - self.window_size):]
 
-            if y is not None:
+            if y is not None and self.reference_window_y is not None:
                 self.reference_window_y = np.concatenate(
                     [self.reference_window_y, self.cur_window_y], axis=0)
                 self.reference_window_y = self.reference_window_y[max(
-- 
2.43.0


From 3df26862b78ea638d3ff0f0a1ac5b4ff6d02ab39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:00:54 +0000
Subject: [PATCH 21/23] fix: KitNet autoencoders keep training their decoder
 after being copied or unpickled

The decoder used a stored view of the transposed weights. Copying or unpickling
a model turned that view into a separate array that training no longer updates.
---
 pysad/models/kitnet_model/dA.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pysad/models/kitnet_model/dA.py b/pysad/models/kitnet_model/dA.py
index 5ada6e2..fe19136 100644
--- a/pysad/models/kitnet_model/dA.py
+++ b/pysad/models/kitnet_model/dA.py
@@ -75,7 +75,7 @@ class dA:
 
     # Decode
     def get_reconstructed_input(self, hidden):
-        return sigmoid(numpy.dot(hidden, self.W_prime) + self.vbias)
+        return sigmoid(numpy.dot(hidden, self.W.T) + self.vbias)
 
     def train(self, x):
         self.n = self.n + 1
-- 
2.43.0


From beaa853aef91a09fa94ee0938d549b99e5bdbef6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:20:32 +0000
Subject: [PATCH 22/23] fix: RS-Hash told grid cells of large features apart
 only within 32-bit integers

---
 pysad/models/rs_hash.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pysad/models/rs_hash.py b/pysad/models/rs_hash.py
index b3645b2..7b320e7 100644
--- a/pysad/models/rs_hash.py
+++ b/pysad/models/rs_hash.py
@@ -66,7 +66,7 @@ class RSHash(BaseModel):
                 (X[np.array(self.V[r])] + np.array(self.alpha[r])) / float(self.f[r]))
 
             mod_entry = np.insert(Y, 0, r)
-            mod_entry = tuple(mod_entry.astype(np.int32))
+            mod_entry = tuple(mod_entry)
 
             c = []
             for w in range(len(self.cmsketches)):
-- 
2.43.0


From fce7ca557e20dbea7e426311a38ec581bf3c50e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:20:32 +0000
Subject: [PATCH 23/23] fix: xStream told bins of large features apart only
 within 32-bit integers

---
 pysad/models/xstream.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pysad/models/xstream.py b/pysad/models/xstream.py
index 28480fd..222c5e8 100644
--- a/pysad/models/xstream.py
+++ b/pysad/models/xstream.py
@@ -123,7 +123,7 @@ class _Chain:
             if self.is_first_window:
                 cmsketch = self.cmsketches[depth]
                 for prebin in prebins:
-                    l_index = tuple(np.floor(prebin).astype(np.int32))
+                    l_index = tuple(np.floor(prebin))
                     if l_index not in cmsketch:
                         cmsketch[l_index] = 0
                     cmsketch[l_index] += 1
@@ -136,7 +136,7 @@ class _Chain:
                 cmsketch = self.cmsketches_cur[depth]
 
                 for prebin in prebins:
-                    l_index = tuple(np.floor(prebin).astype(np.int32))
+                    l_index = tuple(np.floor(prebin))
                     if l_index not in cmsketch:
                         cmsketch[l_index] = 0
                     cmsketch[l_index] += 1
@@ -161,7 +161,7 @@ class _Chain:
 
             cmsketch = self.cmsketches[depth]
             for i, prebin in enumerate(prebins):
-                l_index = tuple(np.floor(prebin).astype(np.int32))
+                l_index = tuple(np.floor(prebin))
                 if l_index not in cmsketch:
                     scores[i, depth] = 0.0
                 else:
-- 
2.43.0

