From a71ab7526aafeb46f8637e2a8df576a6b43cd122 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:20 +0000
Subject: [PATCH 01/51] fix: PolynomialDecay gives NaN sparsity when begin_step
 equals end_step

---
 .../core/sparsity/keras/pruning_schedule.py      | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/tensorflow_model_optimization/python/core/sparsity/keras/pruning_schedule.py b/tensorflow_model_optimization/python/core/sparsity/keras/pruning_schedule.py
index c9bc2ec..45f2966 100644
--- a/tensorflow_model_optimization/python/core/sparsity/keras/pruning_schedule.py
+++ b/tensorflow_model_optimization/python/core/sparsity/keras/pruning_schedule.py
@@ -228,13 +228,15 @@ class PolynomialDecay(PruningSchedule):
 
     # TODO(pulkitb): Replace function with tf.polynomial_decay
     with tf.name_scope('polynomial_decay_pruning_schedule'):
-      p = tf.math.minimum(
-          1.0,
-          tf.math.maximum(
-              0.0,
-              divide(
-                  tf.dtypes.cast(step - self.begin_step, tf.float32),
-                  self.end_step - self.begin_step)))
+      if self.end_step > self.begin_step:
+        progress = divide(
+            tf.dtypes.cast(step - self.begin_step, tf.float32),
+            self.end_step - self.begin_step)
+      else:
+        # Nothing to interpolate: dividing would give NaN at begin_step.
+        progress = tf.dtypes.cast(
+            tf.math.greater_equal(step, self.end_step), tf.float32)
+      p = tf.math.minimum(1.0, tf.math.maximum(0.0, progress))
       sparsity = tf.math.add(
           tf.math.multiply(self.initial_sparsity - self.final_sparsity,
                            tf.math.pow(1 - p, self.power)),
-- 
2.43.0


From c95ed572d29fa503f8874a0b46fe2c8c81eb240c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:31 +0000
Subject: [PATCH 02/51] fix: block sparsity fails for matrices with a single
 row or column of blocks

---
 .../python/core/sparsity/keras/pruning_impl.py | 18 +++++-------------
 .../core/sparsity/keras/pruning_utils.py       |  4 +++-
 2 files changed, 8 insertions(+), 14 deletions(-)

diff --git a/tensorflow_model_optimization/python/core/sparsity/keras/pruning_impl.py b/tensorflow_model_optimization/python/core/sparsity/keras/pruning_impl.py
index f836f36..a9b6146 100644
--- a/tensorflow_model_optimization/python/core/sparsity/keras/pruning_impl.py
+++ b/tensorflow_model_optimization/python/core/sparsity/keras/pruning_impl.py
@@ -152,9 +152,9 @@ class Pruning(object):
     If sparsity_m_by_n is selected, then we return the relevant pruning mask,
     that nullify two out of four elements in the block.
 
-    Block pruning occurs only if the block_height or block_width is > 1 and
-    if the weight tensor, when squeezed, has ndims = 2. Otherwise, elementwise
-    pruning occurs.
+    Block pruning occurs only if the block_height or block_width is > 1, in
+    which case the weight tensor has ndims = 2. Otherwise, elementwise pruning
+    occurs.
     Args:
       weights: The weight tensor that needs to be masked.
 
@@ -177,11 +177,7 @@ class Pruning(object):
     if self._block_size == [1, 1]:
       return self._update_mask(weights)
 
-    # TODO(pulkitb): Check if squeeze operations should now be removed since
-    # we are only accepting 2-D weights.
-
-    squeezed_weights = tf.squeeze(weights)
-    abs_weights = tf.math.abs(squeezed_weights)
+    abs_weights = tf.math.abs(weights)
     pooled_weights = pruning_utils.factorized_pool(
         abs_weights,
         window_shape=self._block_size,
@@ -189,16 +185,12 @@ class Pruning(object):
         strides=self._block_size,
         padding='SAME')
 
-    if pooled_weights.get_shape().ndims != 2:
-      pooled_weights = tf.squeeze(pooled_weights)
-
     new_threshold, new_mask = self._update_mask(pooled_weights)
 
     updated_mask = pruning_utils.expand_tensor(new_mask, self._block_size)
     sliced_mask = tf.slice(
         updated_mask, [0, 0],
-        [squeezed_weights.get_shape()[0],
-         squeezed_weights.get_shape()[1]])
+        [weights.get_shape()[0], weights.get_shape()[1]])
     return new_threshold, tf.reshape(sliced_mask, tf.shape(weights))
 
   def _weight_assign_objs(self):
diff --git a/tensorflow_model_optimization/python/core/sparsity/keras/pruning_utils.py b/tensorflow_model_optimization/python/core/sparsity/keras/pruning_utils.py
index c92ff52..e46311e 100644
--- a/tensorflow_model_optimization/python/core/sparsity/keras/pruning_utils.py
+++ b/tensorflow_model_optimization/python/core/sparsity/keras/pruning_utils.py
@@ -156,7 +156,9 @@ def factorized_pool(input_tensor,
         strides=[1, strides[1]],
         padding=padding)
 
-  return tf.squeeze(tf.transpose(width_pooling, perm=[0, 1, 3, 2]))
+  # Keep rank 2 even if the pooled height or width is 1.
+  return tf.squeeze(
+      tf.transpose(width_pooling, perm=[0, 1, 3, 2]), axis=[0, 1])
 
 
 def convert_to_tuple_of_two_int(value, name):
-- 
2.43.0


From 95e5610ac75c3f6ac69e69952709431aa83b0097 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:15 +0000
Subject: [PATCH 03/51] fix: blocks at the border are pruned by the magnitudes
 of their neighbours

---
 .../core/sparsity/keras/pruning_impl.py       | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/tensorflow_model_optimization/python/core/sparsity/keras/pruning_impl.py b/tensorflow_model_optimization/python/core/sparsity/keras/pruning_impl.py
index a9b6146..ef8269b 100644
--- a/tensorflow_model_optimization/python/core/sparsity/keras/pruning_impl.py
+++ b/tensorflow_model_optimization/python/core/sparsity/keras/pruning_impl.py
@@ -18,6 +18,7 @@ from __future__ import absolute_import
 from __future__ import division
 from __future__ import print_function
 
+import numpy as np
 import tensorflow as tf
 
 from tensorflow_model_optimization.python.core.keras import compat as tf_compat
@@ -177,13 +178,27 @@ class Pruning(object):
     if self._block_size == [1, 1]:
       return self._update_mask(weights)
 
-    abs_weights = tf.math.abs(weights)
+    # Pad at the end only, so that the pooling windows are the same blocks that
+    # expand_tensor replicates the block mask to ('SAME' pads on both sides).
+    height, width = weights.get_shape().as_list()
+    block_height, block_width = self._block_size
+    abs_weights = tf.pad(
+        tf.math.abs(weights),
+        [[0, -height % block_height], [0, -width % block_width]])
     pooled_weights = pruning_utils.factorized_pool(
         abs_weights,
         window_shape=self._block_size,
         pooling_type=self._block_pooling_type,
         strides=self._block_size,
-        padding='SAME')
+        padding='VALID')
+    if self._block_pooling_type == 'AVG':
+      # Average over the entries of the weight only, not over the padding.
+      rows = np.minimum(block_height,
+                        height - np.arange(0, height, block_height))
+      cols = np.minimum(block_width, width - np.arange(0, width, block_width))
+      pooled_weights = (
+          pooled_weights * (block_height * block_width) /
+          tf.constant(np.outer(rows, cols), pooled_weights.dtype))
 
     new_threshold, new_mask = self._update_mask(pooled_weights)
 
-- 
2.43.0


From edc8b789bb1b46d2b1896e64055a2ff216890dbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:05 +0000
Subject: [PATCH 04/51] fix: m-by-n sparsity of a pruned layer is lost when the
 model is saved

PruneLowMagnitude.get_config left out sparsity_m_by_n, so a layer rebuilt from
its configuration pruned by magnitude instead.
---
 .../python/core/sparsity/keras/pruning_wrapper.py              | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tensorflow_model_optimization/python/core/sparsity/keras/pruning_wrapper.py b/tensorflow_model_optimization/python/core/sparsity/keras/pruning_wrapper.py
index 02fa34a..e40f30c 100644
--- a/tensorflow_model_optimization/python/core/sparsity/keras/pruning_wrapper.py
+++ b/tensorflow_model_optimization/python/core/sparsity/keras/pruning_wrapper.py
@@ -340,7 +340,8 @@ class PruneLowMagnitude(Wrapper):
     config = {
         'pruning_schedule': self.pruning_schedule.get_config(),
         'block_size': self.block_size,
-        'block_pooling_type': self.block_pooling_type
+        'block_pooling_type': self.block_pooling_type,
+        'sparsity_m_by_n': self.sparsity_m_by_n
     }
     return dict(list(base_config.items()) + list(config.items()))
 
-- 
2.43.0


From 57667099c8b4bdd70b57ab788ca2e6cf76b008b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:57 +0000
Subject: [PATCH 05/51] fix: starting to train resets the pruning step of
 restored layers

UpdatePruningStep looked at the first pruned layer only: when it was new, the
steps of all other layers were set to 0, also of layers restored from a
checkpoint; when it was not, new layers were left at -1 and training failed.
---
 .../python/core/sparsity/keras/pruning_callbacks.py  | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/tensorflow_model_optimization/python/core/sparsity/keras/pruning_callbacks.py b/tensorflow_model_optimization/python/core/sparsity/keras/pruning_callbacks.py
index 555de78..ceedcb9 100644
--- a/tensorflow_model_optimization/python/core/sparsity/keras/pruning_callbacks.py
+++ b/tensorflow_model_optimization/python/core/sparsity/keras/pruning_callbacks.py
@@ -56,13 +56,13 @@ class UpdatePruningStep(callbacks.Callback):
     self.prunable_layers = pruning_wrapper.collect_prunable_layers(self.model)
     if not self.prunable_layers:
       return
-    # If the model is newly created/initialized, set the 'pruning_step' to 0.
-    # If the model is saved and then restored, do nothing.
-    if self.prunable_layers[0].pruning_step == -1:
-      tuples = []
-      for layer in self.prunable_layers:
+    # If a layer is newly created/initialized, set its 'pruning_step' to 0.
+    # If it is saved and then restored, do nothing.
+    tuples = []
+    for layer in self.prunable_layers:
+      if layer.pruning_step == -1:
         tuples.append((layer.pruning_step, 0))
-      K.batch_set_value(tuples)
+    K.batch_set_value(tuples)
 
   def on_epoch_end(self, batch, logs=None):
     # At the end of every epoch, remask the weights. This ensures that when
-- 
2.43.0


From 95e16f66d455955dae8ee087df0ada62706d3774 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:17 +0000
Subject: [PATCH 06/51] fix: masks of a sequence are lost when a layer is
 wrapped for pruning

---
 .../python/core/sparsity/keras/pruning_wrapper.py      | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/tensorflow_model_optimization/python/core/sparsity/keras/pruning_wrapper.py b/tensorflow_model_optimization/python/core/sparsity/keras/pruning_wrapper.py
index e40f30c..d3f5238 100644
--- a/tensorflow_model_optimization/python/core/sparsity/keras/pruning_wrapper.py
+++ b/tensorflow_model_optimization/python/core/sparsity/keras/pruning_wrapper.py
@@ -197,6 +197,9 @@ class PruneLowMagnitude(Wrapper):
 
     self._track_trackable(layer, name='layer')
 
+    # Masks pass through the wrapper the same way as through the layer.
+    self.supports_masking = getattr(self.layer, 'supports_masking', False)
+
     # TODO(yunluli): Work-around to handle the first layer of Sequential model
     # properly. Can remove this when it is implemented in the Wrapper base
     # class.
@@ -325,6 +328,10 @@ class PruneLowMagnitude(Wrapper):
       args = inspect.getfullargspec(self.layer.call).args
     else:
       args = inspect.getargspec(self.layer.call).args
+    # Keras hands the mask of the inputs to the wrapper, because its call
+    # accepts any argument.
+    if 'mask' in kwargs and not self.layer._expects_mask_arg:  # pylint: disable=protected-access
+      del kwargs['mask']
     # Propagate the training bool to the underlying layer if it accepts
     # training as an arg.
     if 'training' in args:
@@ -335,6 +342,9 @@ class PruneLowMagnitude(Wrapper):
   def compute_output_shape(self, input_shape):
     return self.layer.compute_output_shape(input_shape)
 
+  def compute_mask(self, inputs, mask=None):
+    return self.layer.compute_mask(inputs, mask)
+
   def get_config(self):
     base_config = super(PruneLowMagnitude, self).get_config()
     config = {
-- 
2.43.0


From 4ebc727870493bf833b8418c98ec83a28db602cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:59 +0000
Subject: [PATCH 07/51] fix: Rescaling layers are refused by pruning

---
 .../python/core/sparsity/keras/prune_registry.py                 | 1 +
 1 file changed, 1 insertion(+)

diff --git a/tensorflow_model_optimization/python/core/sparsity/keras/prune_registry.py b/tensorflow_model_optimization/python/core/sparsity/keras/prune_registry.py
index b3dd74b..18783c4 100644
--- a/tensorflow_model_optimization/python/core/sparsity/keras/prune_registry.py
+++ b/tensorflow_model_optimization/python/core/sparsity/keras/prune_registry.py
@@ -127,6 +127,7 @@ class PruneRegistry(object):
       _LAYERS_WEIGHTS_MAP[
           layers.experimental.preprocessing.Rescaling.__class__
       ] = []
+      _LAYERS_WEIGHTS_MAP[layers.experimental.preprocessing.Rescaling] = []
 
   if base_layer:
     _LAYERS_WEIGHTS_MAP[base_layer.TensorFlowOpLayer] = []
-- 
2.43.0


From c3219fa6f32e168c1ad962efb736ff3d4076cc2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:16 +0000
Subject: [PATCH 08/51] fix: clustered layers do not see the training flag

---
 .../python/core/clustering/keras/cluster_wrapper.py           | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/tensorflow_model_optimization/python/core/clustering/keras/cluster_wrapper.py b/tensorflow_model_optimization/python/core/clustering/keras/cluster_wrapper.py
index 82c6346..b83fb30 100644
--- a/tensorflow_model_optimization/python/core/clustering/keras/cluster_wrapper.py
+++ b/tensorflow_model_optimization/python/core/clustering/keras/cluster_wrapper.py
@@ -329,6 +329,10 @@ class ClusterWeights(Wrapper):
     # Update cluster associations in order to set the latest weights
     self.update_clustered_weights_associations()
 
+    # Propagate the training flag to the underlying layer if it accepts it.
+    if self.layer._expects_training_arg:  # pylint: disable=protected-access
+      kwargs['training'] = training
+
     return self.layer.call(inputs, **kwargs)
 
   def compute_output_shape(self, input_shape):
-- 
2.43.0


From 98bfbfb55ff72c0b0f3583f0504503112d067140 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:16 +0000
Subject: [PATCH 09/51] fix: masks of a sequence are lost when a layer is
 wrapped for clustering

---
 .../python/core/clustering/keras/cluster_wrapper.py   | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/tensorflow_model_optimization/python/core/clustering/keras/cluster_wrapper.py b/tensorflow_model_optimization/python/core/clustering/keras/cluster_wrapper.py
index b83fb30..6ee376c 100644
--- a/tensorflow_model_optimization/python/core/clustering/keras/cluster_wrapper.py
+++ b/tensorflow_model_optimization/python/core/clustering/keras/cluster_wrapper.py
@@ -98,6 +98,9 @@ class ClusterWeights(Wrapper):
 
     self._track_trackable(layer, name='layer')
 
+    # Masks pass through the wrapper the same way as through the layer.
+    self.supports_masking = getattr(self.layer, 'supports_masking', False)
+
     # The way how cluster centroids will be initialized
     self.cluster_centroids_init = cluster_centroids_init
 
@@ -333,11 +336,19 @@ class ClusterWeights(Wrapper):
     if self.layer._expects_training_arg:  # pylint: disable=protected-access
       kwargs['training'] = training
 
+    # Keras hands the mask of the inputs to the wrapper, because its call
+    # accepts any argument.
+    if 'mask' in kwargs and not self.layer._expects_mask_arg:  # pylint: disable=protected-access
+      del kwargs['mask']
+
     return self.layer.call(inputs, **kwargs)
 
   def compute_output_shape(self, input_shape):
     return self.layer.compute_output_shape(input_shape)
 
+  def compute_mask(self, inputs, mask=None):
+    return self.layer.compute_mask(inputs, mask)
+
   def get_config(self):
     base_config = super(ClusterWeights, self).get_config()
     config = {
-- 
2.43.0


From 5d44ead6c382ad49d8462fcda1f7dd8e3ad90615 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:16 +0000
Subject: [PATCH 10/51] fix: clustered recurrent and attention layers cannot be
 loaded in cluster_scope

---
 .../python/core/clustering/keras/cluster.py                 | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/tensorflow_model_optimization/python/core/clustering/keras/cluster.py b/tensorflow_model_optimization/python/core/clustering/keras/cluster.py
index 4535a94..9203928 100644
--- a/tensorflow_model_optimization/python/core/clustering/keras/cluster.py
+++ b/tensorflow_model_optimization/python/core/clustering/keras/cluster.py
@@ -50,7 +50,11 @@ def cluster_scope():
     loaded_model = keras.models.load_model(keras_file)
   ```
   """
-  return CustomObjectScope({'ClusterWeights': cluster_wrapper.ClusterWeights})
+  return CustomObjectScope({
+      'ClusterWeights': cluster_wrapper.ClusterWeights,
+      'ClusterWeightsRNN': cluster_wrapper.ClusterWeightsRNN,
+      'ClusterWeightsMHA': cluster_wrapper.ClusterWeightsMHA,
+  })
 
 
 def cluster_weights(
-- 
2.43.0


From 3a37cdcec0bc9c5305b59ac381bf8c978532a793 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:16 +0000
Subject: [PATCH 11/51] fix: preserved sparsity is lost when a clustered model
 is saved

---
 .../core/clustering/keras/cluster_wrapper.py  | 26 ++++++++++++++++---
 1 file changed, 23 insertions(+), 3 deletions(-)

diff --git a/tensorflow_model_optimization/python/core/clustering/keras/cluster_wrapper.py b/tensorflow_model_optimization/python/core/clustering/keras/cluster_wrapper.py
index 6ee376c..8d345d7 100644
--- a/tensorflow_model_optimization/python/core/clustering/keras/cluster_wrapper.py
+++ b/tensorflow_model_optimization/python/core/clustering/keras/cluster_wrapper.py
@@ -271,11 +271,31 @@ class ClusterWeights(Wrapper):
         clustered_weights = (
             self.clustering_algorithms[weight_name].get_clustered_weight(
                 pulling_indices, original_weight))
-        self.sparsity_masks[weight_name] = (
-            tf.cast(tf.math.not_equal(clustered_weights, 0), dtype=tf.float32))
+        sparsity_mask = tf.cast(
+            tf.math.not_equal(clustered_weights, 0), dtype=tf.float32)
+        # The mask and the zero centroid are variables, so that they are saved
+        # with the model: they cannot be found again from trained weights.
+        self.sparsity_masks[weight_name] = self.add_weight(
+            '{}{}'.format('sparsity_mask_', weight_name),
+            shape=sparsity_mask.shape,
+            dtype=tf.float32,
+            trainable=False,
+            synchronization=tf.VariableSynchronization.ON_READ,
+            aggregation=tf.VariableAggregation.ONLY_FIRST_REPLICA,
+            initializer=keras.initializers.Constant(value=sparsity_mask),
+        )
         # If the model is pruned (which we suppose), this is approximately zero
-        self.zero_idx[weight_name] = tf.argmin(
+        zero_idx = tf.argmin(
             tf.abs(self.cluster_centroids[weight_name]), axis=-1)
+        self.zero_idx[weight_name] = self.add_weight(
+            '{}{}'.format('zero_idx_', weight_name),
+            shape=zero_idx.shape,
+            dtype=tf.int64,
+            trainable=False,
+            synchronization=tf.VariableSynchronization.ON_READ,
+            aggregation=tf.VariableAggregation.ONLY_FIRST_REPLICA,
+            initializer=keras.initializers.Constant(value=zero_idx),
+        )
 
   def update_clustered_weights_associations(self):
     for weight_name, original_weight in self.original_clusterable_weights.items(
-- 
2.43.0


From 9516c53664bc587c9607fe23796a8ae312e489e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:16 +0000
Subject: [PATCH 12/51] fix: sparsity preserving clustering per channel fails
 if a channel is all zero

---
 .../python/core/clustering/keras/clustering_centroids.py      | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/tensorflow_model_optimization/python/core/clustering/keras/clustering_centroids.py b/tensorflow_model_optimization/python/core/clustering/keras/clustering_centroids.py
index b71f86f..8b47fed 100644
--- a/tensorflow_model_optimization/python/core/clustering/keras/clustering_centroids.py
+++ b/tensorflow_model_optimization/python/core/clustering/keras/clustering_centroids.py
@@ -183,6 +183,10 @@ class AbstractCentroidsInitialisation:
           else self.weights[:, :, :, channel])
 
       zero_centroids = self._zero_centroid_initialization(channel_weights)
+      # A channel without any non-zero weight has the zero centroid only.
+      zero_centroids = tf.pad(
+          zero_centroids,
+          [[0, self.number_of_clusters - tf.size(zero_centroids)]])
 
       # Put all the centroids together: negative, zero, positive
       channel_centroids.append(zero_centroids)
-- 
2.43.0


From d088ccec2281867c1e5e5de32006cc4b2610fd3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:17 +0000
Subject: [PATCH 13/51] fix: stripped attention layers do not use their
 variables

---
 .../python/core/clustering/keras/cluster_wrapper.py             | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tensorflow_model_optimization/python/core/clustering/keras/cluster_wrapper.py b/tensorflow_model_optimization/python/core/clustering/keras/cluster_wrapper.py
index 8d345d7..c8a3649 100644
--- a/tensorflow_model_optimization/python/core/clustering/keras/cluster_wrapper.py
+++ b/tensorflow_model_optimization/python/core/clustering/keras/cluster_wrapper.py
@@ -517,6 +517,6 @@ class ClusterWeightsMHA(ClusterWeights):
 
       # Re-assign these weights to the original
       original_weight.assign(clustered_weight)
-      setattr(self.layer, weight_name, original_weight)
+      self.set_weight_to_layer(weight_name, original_weight)
 
     return self.layer
-- 
2.43.0


From b250042552d87d3ae064525236e2c7f1127d15e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:57 +0000
Subject: [PATCH 14/51] fix: convolutions without bias are never clustered per
 channel

---
 .../python/core/clustering/keras/cluster.py                    | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/tensorflow_model_optimization/python/core/clustering/keras/cluster.py b/tensorflow_model_optimization/python/core/clustering/keras/cluster.py
index 9203928..1a5c945 100644
--- a/tensorflow_model_optimization/python/core/clustering/keras/cluster.py
+++ b/tensorflow_model_optimization/python/core/clustering/keras/cluster.py
@@ -398,8 +398,7 @@ def layer_has_enough_weights_to_cluster(layer, number_of_clusters,
     raise ValueError(f'Layer {layer.name} has no weights to cluster.')
 
   number_of_layer_weights = tf.cast(tf.size(getattr(layer, 'kernel')), tf.int32)
-  channel_idx = 1 if layer.data_format == 'channels_first' else -1
-  number_of_channels = tf.size(layer.trainable_weights[channel_idx])
+  number_of_channels = getattr(layer, 'kernel').shape[-1]
 
   if cluster_per_channel:
     weights_to_cluster = number_of_layer_weights / number_of_channels
-- 
2.43.0


From 76519fd0a20521d7f2941c6166a8f744010420f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:57 +0000
Subject: [PATCH 15/51] fix: channels_first convolutions are clustered by
 kernel column, not by channel

---
 .../python/core/clustering/keras/cluster_wrapper.py      | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/tensorflow_model_optimization/python/core/clustering/keras/cluster_wrapper.py b/tensorflow_model_optimization/python/core/clustering/keras/cluster_wrapper.py
index c8a3649..92ebdc9 100644
--- a/tensorflow_model_optimization/python/core/clustering/keras/cluster_wrapper.py
+++ b/tensorflow_model_optimization/python/core/clustering/keras/cluster_wrapper.py
@@ -153,12 +153,9 @@ class ClusterWeights(Wrapper):
         hasattr(layer, '_batch_input_shape')):
       self._batch_input_shape = self.layer._batch_input_shape
 
-    # In the case of Conv2D layer, the data_format needs to be preserved to be
-    # used for per-channel clustering
-    if hasattr(layer, 'data_format'):
-      self.data_format = self.layer.data_format
-    else:
-      self.data_format = 'channels_last'
+    # Used for per-channel clustering of Conv2D layers. Their kernels have the
+    # channels last, whatever the data_format of the inputs and outputs is.
+    self.data_format = 'channels_last'
 
     # Save the input shape specified in the build
     self.build_input_shape = None
-- 
2.43.0


From 02d73380535cb927189d4ec0edb0bfeebc1a2f11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:09 +0000
Subject: [PATCH 16/51] fix: clustered recurrent layers cannot be loaded from
 JSON or .keras files

---
 .../python/core/clustering/keras/cluster_wrapper.py         | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/tensorflow_model_optimization/python/core/clustering/keras/cluster_wrapper.py b/tensorflow_model_optimization/python/core/clustering/keras/cluster_wrapper.py
index 92ebdc9..6a3b484 100644
--- a/tensorflow_model_optimization/python/core/clustering/keras/cluster_wrapper.py
+++ b/tensorflow_model_optimization/python/core/clustering/keras/cluster_wrapper.py
@@ -181,6 +181,12 @@ class ClusterWeights(Wrapper):
     setattr(self.layer, weight_name, new_weight)
 
   def build(self, input_shape):
+    # A shape which was read from JSON is a list, which recurrent layers take
+    # for the shapes of several inputs.
+    if isinstance(input_shape, list) and all(
+        dim is None or isinstance(dim, int) for dim in input_shape):
+      input_shape = tuple(input_shape)
+
     super(ClusterWeights, self).build(input_shape)
     self.build_input_shape = input_shape
 
-- 
2.43.0


From fcdb44a033f24424e814553476865503bcfa8ec5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:09 +0000
Subject: [PATCH 17/51] fix: pruned recurrent layers cannot be loaded from JSON
 or .keras files

---
 .../python/core/sparsity/keras/pruning_wrapper.py           | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/tensorflow_model_optimization/python/core/sparsity/keras/pruning_wrapper.py b/tensorflow_model_optimization/python/core/sparsity/keras/pruning_wrapper.py
index d3f5238..0775e48 100644
--- a/tensorflow_model_optimization/python/core/sparsity/keras/pruning_wrapper.py
+++ b/tensorflow_model_optimization/python/core/sparsity/keras/pruning_wrapper.py
@@ -228,6 +228,12 @@ class PruneLowMagnitude(Wrapper):
         layer.__class__.__name__)
 
   def build(self, input_shape):
+    # A shape which was read from JSON is a list, which recurrent layers take
+    # for the shapes of several inputs.
+    if isinstance(input_shape, list) and all(
+        dim is None or isinstance(dim, int) for dim in input_shape):
+      input_shape = tuple(input_shape)
+
     super(PruneLowMagnitude, self).build(input_shape)
 
     weight_vars, mask_vars, threshold_vars = [], [], []
-- 
2.43.0


From 484e8bba3889664059a727e132c1705f4b733eda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:58 +0000
Subject: [PATCH 18/51] fix: pruned layers with several kernels cannot be saved
 in HDF5 files

---
 .../python/core/sparsity/keras/pruning_wrapper.py         | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/tensorflow_model_optimization/python/core/sparsity/keras/pruning_wrapper.py b/tensorflow_model_optimization/python/core/sparsity/keras/pruning_wrapper.py
index 0775e48..2fb5693 100644
--- a/tensorflow_model_optimization/python/core/sparsity/keras/pruning_wrapper.py
+++ b/tensorflow_model_optimization/python/core/sparsity/keras/pruning_wrapper.py
@@ -241,7 +241,9 @@ class PruneLowMagnitude(Wrapper):
     self.prunable_weights = self.layer.get_prunable_weights()
 
     # For each of the prunable weights, add mask and threshold variables
-    for weight in self.prunable_weights:
+    for index, weight in enumerate(self.prunable_weights):
+      # Variables of the same name could not be saved in an HDF5 file.
+      suffix = '_{}'.format(index) if index else ''
       # Under a mixed precision policy, variables report their "cast" dtype.
       # However, we want to use the original dtype for mask and threshold.
       if hasattr(weight, 'true_dtype'):
@@ -249,7 +251,7 @@ class PruneLowMagnitude(Wrapper):
       else:
         dtype = weight.dtype
       mask = self.add_weight(
-          'mask',
+          'mask' + suffix,
           shape=weight.shape,
           initializer=keras.initializers.get('ones'),
           dtype=dtype,
@@ -257,7 +259,7 @@ class PruneLowMagnitude(Wrapper):
           aggregation=tf.VariableAggregation.MEAN,
       )
       threshold = self.add_weight(
-          'threshold',
+          'threshold' + suffix,
           shape=[],
           initializer=keras.initializers.get('zeros'),
           dtype=dtype,
-- 
2.43.0


From 256fb39cd8f5e5dbfe46796600e1c8bb9de26fd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:25 +0000
Subject: [PATCH 19/51] fix: per channel quantizers fail for tensors with other
 than 2 or 4 dimensions

---
 .../python/core/quantization/keras/quant_ops.py        | 10 ++--------
 1 file changed, 2 insertions(+), 8 deletions(-)

diff --git a/tensorflow_model_optimization/python/core/quantization/keras/quant_ops.py b/tensorflow_model_optimization/python/core/quantization/keras/quant_ops.py
index 7a0c2f8..e508c63 100644
--- a/tensorflow_model_optimization/python/core/quantization/keras/quant_ops.py
+++ b/tensorflow_model_optimization/python/core/quantization/keras/quant_ops.py
@@ -158,10 +158,7 @@ def LastValueQuantize(inputs,
           narrow_range=narrow_range)
 
     if per_channel:
-      if input_dim == 2:
-        reduce_dims = [0]
-      elif input_dim == 4:
-        reduce_dims = [0, 1, 2]
+      reduce_dims = list(range(input_dim - 1))
 
     if per_channel:
       if input_dim >= 2:
@@ -255,10 +252,7 @@ def MovingAvgQuantize(inputs,
           num_bits=num_bits,
           narrow_range=narrow_range)
     if per_channel:
-      if input_dim == 2:
-        reduce_dims = [0]
-      elif input_dim == 4:
-        reduce_dims = [0, 1, 2]
+      reduce_dims = list(range(input_dim - 1))
 
     if per_channel:
       if input_dim >= 2:
-- 
2.43.0


From ef4dd19fd099776b878eff6a5c593b2bf113c420 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:25 +0000
Subject: [PATCH 20/51] fix: quantization-aware training changes the weights of
 frozen layers

---
 .../python/core/quantization/keras/quantize_wrapper.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/tensorflow_model_optimization/python/core/quantization/keras/quantize_wrapper.py b/tensorflow_model_optimization/python/core/quantization/keras/quantize_wrapper.py
index 32a6e2d..c86589c 100644
--- a/tensorflow_model_optimization/python/core/quantization/keras/quantize_wrapper.py
+++ b/tensorflow_model_optimization/python/core/quantization/keras/quantize_wrapper.py
@@ -231,11 +231,17 @@ class QuantizeWrapper(keras.layers.Wrapper):
 
   @property
   def trainable_weights(self):
+    if not self.trainable:
+      return []
     return self.layer.trainable_weights + self._trainable_weights
 
   @property
   def non_trainable_weights(self):
-    return self.layer.non_trainable_weights + self._non_trainable_weights
+    weights = self.layer.non_trainable_weights + self._non_trainable_weights
+    if not self.trainable:
+      # The quantized weights of a frozen layer are only known to the wrapper.
+      weights = self._dedup_weights(self._trainable_weights + weights)
+    return weights
 
   @property
   def updates(self):
@@ -257,6 +263,8 @@ class QuantizeWrapperV2(QuantizeWrapper):
 
   @property
   def trainable_weights(self):
+    if not self.trainable:
+      return []
     # Change the order to keep the weight order after applying QAT.
     return self._dedup_weights(
         self._trainable_weights + self.layer.trainable_weights)
-- 
2.43.0


From 678e36f703184297d03d0ba80dc1750a9dd90815 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:25 +0000
Subject: [PATCH 21/51] fix: quantizers with a fixed range ignore the number of
 bits

---
 .../python/core/quantization/keras/quant_ops.py            | 7 +++++--
 .../python/core/quantization/keras/quantizers.py           | 1 +
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/tensorflow_model_optimization/python/core/quantization/keras/quant_ops.py b/tensorflow_model_optimization/python/core/quantization/keras/quant_ops.py
index e508c63..93860d3 100644
--- a/tensorflow_model_optimization/python/core/quantization/keras/quant_ops.py
+++ b/tensorflow_model_optimization/python/core/quantization/keras/quant_ops.py
@@ -24,7 +24,8 @@ from tensorflow_model_optimization.python.core.keras import compat as tf_compat
 
 
 def FixedQuantize(
-    inputs, init_min=-6.0, init_max=6.0, scope=None, narrow_range=False):
+    inputs, init_min=-6.0, init_max=6.0, scope=None, narrow_range=False,
+    num_bits=8):
   """Adds a fake quantize layer with fixed quantization interval.
 
   Args:
@@ -34,6 +35,7 @@ def FixedQuantize(
     scope: Optional scope for name_scope.
     narrow_range: Whether to use the narrow quantization range
       [1; 2^num_bits - 1] or wide range [0; 2^num_bits - 1].
+    num_bits: Number of bits to use for quantization.
   Returns:
     a tensor containing quantized values.
   """
@@ -42,7 +44,8 @@ def FixedQuantize(
 
   with tf.name_scope(scope):
     return tf.quantization.fake_quant_with_min_max_args(
-        inputs, min=init_min, max=init_max, narrow_range=narrow_range)
+        inputs, min=init_min, max=init_max, num_bits=num_bits,
+        narrow_range=narrow_range)
 
 
 def AllValuesQuantize(inputs,
diff --git a/tensorflow_model_optimization/python/core/quantization/keras/quantizers.py b/tensorflow_model_optimization/python/core/quantization/keras/quantizers.py
index a5a1f73..529fafb 100644
--- a/tensorflow_model_optimization/python/core/quantization/keras/quantizers.py
+++ b/tensorflow_model_optimization/python/core/quantization/keras/quantizers.py
@@ -413,6 +413,7 @@ class FixedQuantizer(_QuantizeHelper, Quantizer):
         self.init_min,
         self.init_max,
         narrow_range=self.narrow_range,
+        num_bits=self.num_bits,
     )
 
   def get_config(self):
-- 
2.43.0


From f10b69702db32092b5cd4ad5d3ebeb9e95298eb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:25 +0000
Subject: [PATCH 22/51] fix: moving average quantizers fail per axis

---
 .../python/core/quantization/keras/quantizers.py                | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tensorflow_model_optimization/python/core/quantization/keras/quantizers.py b/tensorflow_model_optimization/python/core/quantization/keras/quantizers.py
index 529fafb..f70a14d 100644
--- a/tensorflow_model_optimization/python/core/quantization/keras/quantizers.py
+++ b/tensorflow_model_optimization/python/core/quantization/keras/quantizers.py
@@ -245,7 +245,7 @@ class MovingAverageQuantizer(_QuantizeHelper, Quantizer):
     self.narrow_range = narrow_range
 
   def build(self, tensor_shape, name, layer):
-    return self._add_range_weights(layer, name)
+    return self._add_range_weights(layer, name, self.per_axis, tensor_shape)
 
   def __call__(self, inputs, training, weights, **kwargs):
     """Quantize tensor.
-- 
2.43.0


From a0ec68f11b12e71336287a12e55873234c87ffc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:23 +0000
Subject: [PATCH 23/51] fix: all values quantizers ignore the option per_axis

---
 .../python/core/quantization/keras/quant_ops.py  | 16 +++++++++++-----
 .../python/core/quantization/keras/quantizers.py |  6 ++++++
 2 files changed, 17 insertions(+), 5 deletions(-)

diff --git a/tensorflow_model_optimization/python/core/quantization/keras/quant_ops.py b/tensorflow_model_optimization/python/core/quantization/keras/quant_ops.py
index 93860d3..381e099 100644
--- a/tensorflow_model_optimization/python/core/quantization/keras/quant_ops.py
+++ b/tensorflow_model_optimization/python/core/quantization/keras/quant_ops.py
@@ -55,7 +55,8 @@ def AllValuesQuantize(inputs,
                       is_training=True,
                       num_bits=8,
                       narrow_range=False,
-                      symmetric=False):
+                      symmetric=False,
+                      per_channel=False):
   """Adds a layer that collects quantization ranges as min/max of tensor values.
 
   AllValuesQuantize creates variables called 'min' and 'max',
@@ -72,6 +73,8 @@ def AllValuesQuantize(inputs,
       [1; 2^num_bits - 1] or wide range [0; 2^num_bits - 1].
     symmetric: If true, use symmetric quantization limits instead of training
       the minimum and maximum of each quantization range separately.
+    per_channel: (Optional) a boolean specifying whether to use different
+      quantization ranges per output channel.
   Returns:
     a tensor containing quantized values.
   """
@@ -81,12 +84,15 @@ def AllValuesQuantize(inputs,
           inputs,
           min_var,
           max_var,
-          per_channel=False,
+          per_channel=per_channel,
           num_bits=num_bits,
           narrow_range=narrow_range)
 
-    batch_min = tf.math.reduce_min(inputs, name='BatchMin')
-    batch_max = tf.math.reduce_max(inputs, name='BatchMax')
+    # All dimensions, or all but the channels.
+    reduce_dims = list(range(len(inputs.get_shape()) - 1)) if (
+        per_channel) else None
+    batch_min = tf.math.reduce_min(inputs, axis=reduce_dims, name='BatchMin')
+    batch_max = tf.math.reduce_max(inputs, axis=reduce_dims, name='BatchMax')
 
     if symmetric:
       if narrow_range:
@@ -112,7 +118,7 @@ def AllValuesQuantize(inputs,
         inputs,
         assign_min,
         assign_max,
-        per_channel=False,
+        per_channel=per_channel,
         num_bits=num_bits,
         narrow_range=narrow_range)
 
diff --git a/tensorflow_model_optimization/python/core/quantization/keras/quantizers.py b/tensorflow_model_optimization/python/core/quantization/keras/quantizers.py
index f70a14d..9a13f4a 100644
--- a/tensorflow_model_optimization/python/core/quantization/keras/quantizers.py
+++ b/tensorflow_model_optimization/python/core/quantization/keras/quantizers.py
@@ -317,12 +317,17 @@ class AllValuesQuantizer(_QuantizeHelper, Quantizer):
     self.narrow_range = narrow_range
 
   def build(self, tensor_shape, name, layer):
+    shape = None
+    if self.per_axis and tensor_shape is not None:
+      shape = (tensor_shape[-1],)
     min_weight = layer.add_weight(
         name + '_min',
+        shape=shape,
         initializer=keras.initializers.Constant(0.0),
         trainable=False)
     max_weight = layer.add_weight(
         name + '_max',
+        shape=shape,
         initializer=keras.initializers.Constant(0.0),
         trainable=False)
     return {'min_var': min_weight, 'max_var': max_weight}
@@ -346,6 +351,7 @@ class AllValuesQuantizer(_QuantizeHelper, Quantizer):
         weights['max_var'],
         is_training=training,
         num_bits=self.num_bits,
+        per_channel=self.per_axis,
         symmetric=self.symmetric,
         narrow_range=self.narrow_range,
     )
-- 
2.43.0


From d52027fb14075218e2a1065483607b3111b74310 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:32 +0000
Subject: [PATCH 24/51] fix: output of dense layers with batch normalization is
 quantized before the ReLU

Dense, BatchNormalization, ReLU was matched as Dense, BatchNormalization
first, which quantizes after the normalization and then again after the
ReLU. The concatenation transforms have to run afterwards, as they do for
convolutions.
---
 .../default_8bit_quantize_layout_transform.py |  6 +++---
 ...default_n_bit_quantize_layout_transform.py | 20 +++++++++----------
 2 files changed, 13 insertions(+), 13 deletions(-)

diff --git a/tensorflow_model_optimization/python/core/quantization/keras/default_8bit/default_8bit_quantize_layout_transform.py b/tensorflow_model_optimization/python/core/quantization/keras/default_8bit/default_8bit_quantize_layout_transform.py
index 70b0681..f4281f9 100644
--- a/tensorflow_model_optimization/python/core/quantization/keras/default_8bit/default_8bit_quantize_layout_transform.py
+++ b/tensorflow_model_optimization/python/core/quantization/keras/default_8bit/default_8bit_quantize_layout_transform.py
@@ -60,14 +60,14 @@ class Default8BitQuantizeLayoutTransform(
         default_8bit_transforms.Conv2DBatchNormActivationQuantize(),
         default_8bit_transforms.Conv2DReshapeBatchNormQuantize(),
         default_8bit_transforms.Conv2DBatchNormQuantize(),
+        default_8bit_transforms.DenseBatchNormReLUQuantize(),
+        default_8bit_transforms.DenseBatchNormActivationQuantize(),
+        default_8bit_transforms.DenseBatchNormQuantize(),
         default_8bit_transforms.ConcatTransform6Inputs(),
         default_8bit_transforms.ConcatTransform5Inputs(),
         default_8bit_transforms.ConcatTransform4Inputs(),
         default_8bit_transforms.ConcatTransform3Inputs(),
         default_8bit_transforms.ConcatTransform(),
-        default_8bit_transforms.DenseBatchNormQuantize(),
-        default_8bit_transforms.DenseBatchNormReLUQuantize(),
-        default_8bit_transforms.DenseBatchNormActivationQuantize(),
         default_8bit_transforms.LayerReLUQuantize(),
         default_8bit_transforms.LayerReluActivationQuantize(),
     ]
diff --git a/tensorflow_model_optimization/python/core/quantization/keras/experimental/default_n_bit/default_n_bit_quantize_layout_transform.py b/tensorflow_model_optimization/python/core/quantization/keras/experimental/default_n_bit/default_n_bit_quantize_layout_transform.py
index 50089c5..8d388d0 100644
--- a/tensorflow_model_optimization/python/core/quantization/keras/experimental/default_n_bit/default_n_bit_quantize_layout_transform.py
+++ b/tensorflow_model_optimization/python/core/quantization/keras/experimental/default_n_bit/default_n_bit_quantize_layout_transform.py
@@ -91,43 +91,43 @@ class DefaultNBitQuantizeLayoutTransform(
             num_bits_weight=self._num_bits_weight,
             num_bits_activation=self._num_bits_activation,
         ),
-        default_n_bit_transforms.ConcatTransform6Inputs(
+        default_n_bit_transforms.DenseBatchNormReLUQuantize(
             num_bits_weight=self._num_bits_weight,
             num_bits_activation=self._num_bits_activation,
         ),
-        default_n_bit_transforms.ConcatTransform5Inputs(
+        default_n_bit_transforms.DenseBatchNormActivationQuantize(
             num_bits_weight=self._num_bits_weight,
             num_bits_activation=self._num_bits_activation,
         ),
-        default_n_bit_transforms.ConcatTransform4Inputs(
+        default_n_bit_transforms.DenseBatchNormQuantize(
             num_bits_weight=self._num_bits_weight,
             num_bits_activation=self._num_bits_activation,
         ),
-        default_n_bit_transforms.ConcatTransform3Inputs(
+        default_n_bit_transforms.ConcatTransform6Inputs(
             num_bits_weight=self._num_bits_weight,
             num_bits_activation=self._num_bits_activation,
         ),
-        default_n_bit_transforms.ConcatTransform(
+        default_n_bit_transforms.ConcatTransform5Inputs(
             num_bits_weight=self._num_bits_weight,
             num_bits_activation=self._num_bits_activation,
         ),
-        default_n_bit_transforms.LayerReLUQuantize(
+        default_n_bit_transforms.ConcatTransform4Inputs(
             num_bits_weight=self._num_bits_weight,
             num_bits_activation=self._num_bits_activation,
         ),
-        default_n_bit_transforms.LayerReluActivationQuantize(
+        default_n_bit_transforms.ConcatTransform3Inputs(
             num_bits_weight=self._num_bits_weight,
             num_bits_activation=self._num_bits_activation,
         ),
-        default_n_bit_transforms.DenseBatchNormQuantize(
+        default_n_bit_transforms.ConcatTransform(
             num_bits_weight=self._num_bits_weight,
             num_bits_activation=self._num_bits_activation,
         ),
-        default_n_bit_transforms.DenseBatchNormReLUQuantize(
+        default_n_bit_transforms.LayerReLUQuantize(
             num_bits_weight=self._num_bits_weight,
             num_bits_activation=self._num_bits_activation,
         ),
-        default_n_bit_transforms.DenseBatchNormActivationQuantize(
+        default_n_bit_transforms.LayerReluActivationQuantize(
             num_bits_weight=self._num_bits_weight,
             num_bits_activation=self._num_bits_activation,
         ),
-- 
2.43.0


From 01f262311ed4ed24d59643457f9f3ac1e6b79a5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:03 +0000
Subject: [PATCH 25/51] fix: patterns with alternatives match layers whose name
 only begins like one

'Conv2D|DepthwiseConv2D' was anchored as '^Conv2D|DepthwiseConv2D$'. The
default patterns now name Conv2DTranspose, which they matched that way.
---
 .../keras/default_8bit/default_8bit_transforms.py    | 12 ++++++++----
 .../default_n_bit/default_n_bit_transforms.py        | 12 ++++++++----
 .../keras/graph_transformations/model_transformer.py |  2 +-
 3 files changed, 17 insertions(+), 9 deletions(-)

diff --git a/tensorflow_model_optimization/python/core/quantization/keras/default_8bit/default_8bit_transforms.py b/tensorflow_model_optimization/python/core/quantization/keras/default_8bit/default_8bit_transforms.py
index bda38f6..06d9523 100644
--- a/tensorflow_model_optimization/python/core/quantization/keras/default_8bit/default_8bit_transforms.py
+++ b/tensorflow_model_optimization/python/core/quantization/keras/default_8bit/default_8bit_transforms.py
@@ -116,7 +116,8 @@ class Conv2DBatchNormQuantize(transforms.Transform):
     return LayerPattern(
         'BatchNormalization|SyncBatchNormalization',
         inputs=[LayerPattern(
-            'Conv2D|DepthwiseConv2D', config={'activation': 'linear'})])
+            'Conv2D|Conv2DTranspose|DepthwiseConv2D',
+            config={'activation': 'linear'})])
 
   def _replace(self, bn_layer_node, conv_layer_node):
     if _has_custom_quantize_config(bn_layer_node, conv_layer_node):
@@ -158,7 +159,7 @@ class Conv2DReshapeBatchNormQuantize(Conv2DBatchNormQuantize):
         inputs=[LayerPattern(
             'Lambda', config={'name': 'sepconv1d_squeeze.*'},
             inputs=[LayerPattern(
-                'Conv2D|DepthwiseConv2D',
+                'Conv2D|Conv2DTranspose|DepthwiseConv2D',
                 config={'activation': 'linear'})])])
 
   def replacement(self, match_layer):
@@ -573,7 +574,9 @@ class LayerReLUQuantize(transforms.Transform):
 
   def pattern(self):
     return LayerPattern(
-        'ReLU', inputs=[LayerPattern('Add|Conv2D|DepthwiseConv2D|Dense')])
+        'ReLU',
+        inputs=[LayerPattern(
+            'Add|Conv2D|Conv2DTranspose|DepthwiseConv2D|Dense')])
 
   def replacement(self, match_layer):
     relu_layer_node = match_layer
@@ -601,7 +604,8 @@ class LayerReluActivationQuantize(LayerReLUQuantize):
     return LayerPattern(
         'Activation',
         config={'activation': 'relu'},
-        inputs=[LayerPattern('Add|Conv2D|DepthwiseConv2D|Dense')])
+        inputs=[LayerPattern(
+            'Add|Conv2D|Conv2DTranspose|DepthwiseConv2D|Dense')])
 
 
 class InputLayerQuantize(transforms.Transform):
diff --git a/tensorflow_model_optimization/python/core/quantization/keras/experimental/default_n_bit/default_n_bit_transforms.py b/tensorflow_model_optimization/python/core/quantization/keras/experimental/default_n_bit/default_n_bit_transforms.py
index 0aa6629..764e614 100644
--- a/tensorflow_model_optimization/python/core/quantization/keras/experimental/default_n_bit/default_n_bit_transforms.py
+++ b/tensorflow_model_optimization/python/core/quantization/keras/experimental/default_n_bit/default_n_bit_transforms.py
@@ -116,7 +116,8 @@ class Conv2DBatchNormQuantize(transforms.Transform):
     return LayerPattern(
         'BatchNormalization|SyncBatchNormalization',
         inputs=[LayerPattern(
-            'Conv2D|DepthwiseConv2D', config={'activation': 'linear'})])
+            'Conv2D|Conv2DTranspose|DepthwiseConv2D',
+            config={'activation': 'linear'})])
 
   def _replace(self, bn_layer_node, conv_layer_node):
     if _has_custom_quantize_config(bn_layer_node, conv_layer_node):
@@ -165,7 +166,7 @@ class Conv2DReshapeBatchNormQuantize(Conv2DBatchNormQuantize):
         inputs=[LayerPattern(
             'Lambda', config={'name': 'sepconv1d_squeeze.*'},
             inputs=[LayerPattern(
-                'Conv2D|DepthwiseConv2D',
+                'Conv2D|Conv2DTranspose|DepthwiseConv2D',
                 config={'activation': 'linear'})])])
 
   def replacement(self, match_layer):
@@ -610,7 +611,9 @@ class LayerReLUQuantize(transforms.Transform):
 
   def pattern(self):
     return LayerPattern(
-        'ReLU', inputs=[LayerPattern('Add|Conv2D|DepthwiseConv2D|Dense')])
+        'ReLU',
+        inputs=[LayerPattern(
+            'Add|Conv2D|Conv2DTranspose|DepthwiseConv2D|Dense')])
 
   def replacement(self, match_layer):
     relu_layer_node = match_layer
@@ -642,7 +645,8 @@ class LayerReluActivationQuantize(LayerReLUQuantize):
     return LayerPattern(
         'Activation',
         config={'activation': 'relu'},
-        inputs=[LayerPattern('Add|Conv2D|DepthwiseConv2D|Dense')])
+        inputs=[LayerPattern(
+            'Add|Conv2D|Conv2DTranspose|DepthwiseConv2D|Dense')])
 
 
 class InputLayerQuantize(transforms.Transform):
diff --git a/tensorflow_model_optimization/python/core/quantization/keras/graph_transformations/model_transformer.py b/tensorflow_model_optimization/python/core/quantization/keras/graph_transformations/model_transformer.py
index 596ff35..56f5fea 100644
--- a/tensorflow_model_optimization/python/core/quantization/keras/graph_transformations/model_transformer.py
+++ b/tensorflow_model_optimization/python/core/quantization/keras/graph_transformations/model_transformer.py
@@ -133,7 +133,7 @@ class ModelTransformer(object):
     return self._layer_metadata_map.get(layer_name, {})
 
   def _match_pattern(self, target, pattern):
-    return re.match('^' + pattern + '$', target) is not None
+    return re.match('^(?:' + pattern + ')$', target) is not None
 
   def _match_layer(self, layer, pattern):
     """Check if specific layer matches the pattern."""
-- 
2.43.0


From a379def3c58cc6893d71860aff60ecea68ed844b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:03 +0000
Subject: [PATCH 26/51] fix: custom quantize config of a layer before a ReLU is
 discarded

---
 .../quantization/keras/default_8bit/default_8bit_transforms.py | 3 +++
 .../experimental/default_n_bit/default_n_bit_transforms.py     | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/tensorflow_model_optimization/python/core/quantization/keras/default_8bit/default_8bit_transforms.py b/tensorflow_model_optimization/python/core/quantization/keras/default_8bit/default_8bit_transforms.py
index 06d9523..077a00b 100644
--- a/tensorflow_model_optimization/python/core/quantization/keras/default_8bit/default_8bit_transforms.py
+++ b/tensorflow_model_optimization/python/core/quantization/keras/default_8bit/default_8bit_transforms.py
@@ -582,6 +582,9 @@ class LayerReLUQuantize(transforms.Transform):
     relu_layer_node = match_layer
     add_layer_node = relu_layer_node.input_layers[0]
 
+    if _has_custom_quantize_config(add_layer_node):
+      return match_layer
+
     add_layer_node.metadata['quantize_config'] = (
         default_8bit_quantize_configs.NoOpQuantizeConfig())
 
diff --git a/tensorflow_model_optimization/python/core/quantization/keras/experimental/default_n_bit/default_n_bit_transforms.py b/tensorflow_model_optimization/python/core/quantization/keras/experimental/default_n_bit/default_n_bit_transforms.py
index 764e614..d7b4979 100644
--- a/tensorflow_model_optimization/python/core/quantization/keras/experimental/default_n_bit/default_n_bit_transforms.py
+++ b/tensorflow_model_optimization/python/core/quantization/keras/experimental/default_n_bit/default_n_bit_transforms.py
@@ -619,6 +619,9 @@ class LayerReLUQuantize(transforms.Transform):
     relu_layer_node = match_layer
     add_layer_node = relu_layer_node.input_layers[0]
 
+    if _has_custom_quantize_config(add_layer_node):
+      return match_layer
+
     add_layer_node.metadata['quantize_config'] = (
         configs.NoOpQuantizeConfig())
 
-- 
2.43.0


From 94d5b6802bdb608c8fdb17deacf385c3af47bace Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:58 +0000
Subject: [PATCH 27/51] fix: layers before a concatenation keep their output
 quantizer in the n-bit scheme

---
 .../default_n_bit_quantize_configs.py             | 13 +++++++++----
 .../default_n_bit_quantize_registry.py            | 15 ++++++++++++++-
 .../default_n_bit/default_n_bit_transforms.py     |  9 +++++++++
 3 files changed, 32 insertions(+), 5 deletions(-)

diff --git a/tensorflow_model_optimization/python/core/quantization/keras/experimental/default_n_bit/default_n_bit_quantize_configs.py b/tensorflow_model_optimization/python/core/quantization/keras/experimental/default_n_bit/default_n_bit_quantize_configs.py
index 66bc47e..19276ac 100644
--- a/tensorflow_model_optimization/python/core/quantization/keras/experimental/default_n_bit/default_n_bit_quantize_configs.py
+++ b/tensorflow_model_optimization/python/core/quantization/keras/experimental/default_n_bit/default_n_bit_quantize_configs.py
@@ -22,9 +22,11 @@ from tensorflow_model_optimization.python.core.quantization.keras import quantiz
 class DefaultNBitOutputQuantizeConfig(quantize_config.QuantizeConfig):
   """QuantizeConfig which only quantizes the output from a layer."""
 
-  def __init__(self, num_bits_weight: int = 8, num_bits_activation: int = 8):
+  def __init__(self, num_bits_weight: int = 8, num_bits_activation: int = 8,
+               quantize_output: bool = True):
     self._num_bits_weight = num_bits_weight
     self._num_bits_activation = num_bits_activation
+    self.quantize_output = quantize_output
 
   def get_weights_and_quantizers(self, layer):
     return []
@@ -39,14 +41,17 @@ class DefaultNBitOutputQuantizeConfig(quantize_config.QuantizeConfig):
     pass
 
   def get_output_quantizers(self, layer):
-    return [quantizers.MovingAverageQuantizer(
-        num_bits=self._num_bits_activation, per_axis=False,
-        symmetric=False, narrow_range=False)]  # activation/output
+    if self.quantize_output:
+      return [quantizers.MovingAverageQuantizer(
+          num_bits=self._num_bits_activation, per_axis=False,
+          symmetric=False, narrow_range=False)]  # activation/output
+    return []
 
   def get_config(self) -> Dict[str, Any]:
     return {
         'num_bits_weight': self._num_bits_weight,
         'num_bits_activation': self._num_bits_activation,
+        'quantize_output': self.quantize_output,
     }
 
 
diff --git a/tensorflow_model_optimization/python/core/quantization/keras/experimental/default_n_bit/default_n_bit_quantize_registry.py b/tensorflow_model_optimization/python/core/quantization/keras/experimental/default_n_bit/default_n_bit_quantize_registry.py
index d33dc67..e376b4a 100644
--- a/tensorflow_model_optimization/python/core/quantization/keras/experimental/default_n_bit/default_n_bit_quantize_registry.py
+++ b/tensorflow_model_optimization/python/core/quantization/keras/experimental/default_n_bit/default_n_bit_quantize_registry.py
@@ -490,9 +490,19 @@ class DefaultNBitActivationQuantizeConfig(QuantizeConfig):
   decision to quantize depends on the specific activation type.
   """
 
-  def __init__(self, num_bits_weight: int = 8, num_bits_activation: int = 8):
+  def __init__(self, num_bits_weight: int = 8, num_bits_activation: int = 8,
+               quantize_output: bool = True):
+    """Construct a default QuantizeConfig for Activation layers.
+
+    Args:
+      num_bits_weight: Number of bits for weights.
+      num_bits_activation: Number of bits for activations.
+      quantize_output: Enable quantization of output, used to disable during
+        transform.
+    """
     self._num_bits_weight = num_bits_weight
     self._num_bits_activation = num_bits_activation
+    self.quantize_output = quantize_output
 
   def _assert_activation_layer(self, layer):
     if not isinstance(layer, layers.Activation):
@@ -516,6 +526,8 @@ class DefaultNBitActivationQuantizeConfig(QuantizeConfig):
 
   def get_output_quantizers(self, layer):
     self._assert_activation_layer(layer)
+    if not self.quantize_output:
+      return []
 
     if not hasattr(layer.activation, '__name__'):
       raise ValueError('Activation {} not supported by '
@@ -539,6 +551,7 @@ class DefaultNBitActivationQuantizeConfig(QuantizeConfig):
     return {
         'num_bits_weight': self._num_bits_weight,
         'num_bits_activation': self._num_bits_activation,
+        'quantize_output': self.quantize_output,
     }
 
 
diff --git a/tensorflow_model_optimization/python/core/quantization/keras/experimental/default_n_bit/default_n_bit_transforms.py b/tensorflow_model_optimization/python/core/quantization/keras/experimental/default_n_bit/default_n_bit_transforms.py
index d7b4979..f36c843 100644
--- a/tensorflow_model_optimization/python/core/quantization/keras/experimental/default_n_bit/default_n_bit_transforms.py
+++ b/tensorflow_model_optimization/python/core/quantization/keras/experimental/default_n_bit/default_n_bit_transforms.py
@@ -704,6 +704,8 @@ class ConcatTransform(transforms.Transform):
         'Concatenate', inputs=[LayerPattern('.*'), LayerPattern('.*')])
 
   def _get_layer_type(self, layer_class_name):
+    if layer_class_name == 'QuantizeLayer':
+      return quantize_layer.QuantizeLayer
     keras_layers = inspect.getmembers(keras.layers, inspect.isclass)
     for layer_name, layer_type in keras_layers:
       if layer_name == layer_class_name:
@@ -713,6 +715,9 @@ class ConcatTransform(transforms.Transform):
   def _disable_output_quantize(self, quantize_config):
     # TODO(pulkitb): Disabling quantize_config may also require handling
     # activation quantizers. Handle that properly.
+    if hasattr(quantize_config, 'quantize_output'):
+      quantize_config.quantize_output = False
+
     quantize_config.get_output_quantizers = lambda layer: []
 
   def replacement(self, match_layer):
@@ -739,6 +744,10 @@ class ConcatTransform(transforms.Transform):
               configs.NoOpQuantizeConfig())
           continue
 
+        if layer_class == quantize_layer.QuantizeLayer:
+          feed_layer_node.metadata['quantizer'] = None
+          continue
+
         if not default_registry._is_supported_layer(layer_class):
           # Feeding layer is not supported by registry
           return match_layer
-- 
2.43.0


From b422c0e40889be17ba7751ac4047cb8d93cff88f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:58 +0000
Subject: [PATCH 28/51] fix: creating an n-bit quantization registry changes
 the bits of existing ones

---
 .../default_n_bit/default_n_bit_quantize_registry.py        | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/tensorflow_model_optimization/python/core/quantization/keras/experimental/default_n_bit/default_n_bit_quantize_registry.py b/tensorflow_model_optimization/python/core/quantization/keras/experimental/default_n_bit/default_n_bit_quantize_registry.py
index e376b4a..8b5d8d4 100644
--- a/tensorflow_model_optimization/python/core/quantization/keras/experimental/default_n_bit/default_n_bit_quantize_registry.py
+++ b/tensorflow_model_optimization/python/core/quantization/keras/experimental/default_n_bit/default_n_bit_quantize_registry.py
@@ -185,8 +185,6 @@ class DefaultNBitQuantizeRegistry(
     self._num_bits_activation = num_bits_activation
     self._layer_quantize_map = {}
     for quantize_info in self._LAYER_QUANTIZE_INFO:
-      quantize_info.num_bits_weight = num_bits_weight
-      quantize_info.num_bits_activation = num_bits_activation
       self._layer_quantize_map[quantize_info.layer_type] = quantize_info
 
     # Hack for `Activation` layer. That is the only layer with a separate
@@ -275,8 +273,8 @@ class DefaultNBitQuantizeRegistry(
     return DefaultNBitQuantizeConfig(quantize_info.weight_attrs,
                                      quantize_info.activation_attrs,
                                      quantize_info.quantize_output,
-                                     quantize_info.num_bits_weight,
-                                     quantize_info.num_bits_activation)
+                                     self._num_bits_weight,
+                                     self._num_bits_activation)
 
   def get_quantize_config(self, layer):
     """Returns the quantization config for the given layer.
-- 
2.43.0


From cdd354685fb024ea2792844c98e569ad6cabcfae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:00 +0000
Subject: [PATCH 29/51] fix: rewriting layers with several inputs reorders the
 inputs

---
 .../keras/graph_transformations/model_transformer.py     | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/tensorflow_model_optimization/python/core/quantization/keras/graph_transformations/model_transformer.py b/tensorflow_model_optimization/python/core/quantization/keras/graph_transformations/model_transformer.py
index 56f5fea..b562a4e 100644
--- a/tensorflow_model_optimization/python/core/quantization/keras/graph_transformations/model_transformer.py
+++ b/tensorflow_model_optimization/python/core/quantization/keras/graph_transformations/model_transformer.py
@@ -233,7 +233,14 @@ class ModelTransformer(object):
     # tensors and multiple tensors from that layer may be used by the
     # connection. Ignoring those for now.
     input_layer_names = self._get_input_layer_names(layer)
-    input_layers = self._get_layers(input_layer_names)
+    if len(set(input_layer_names)) != len(input_layer_names):
+      # The layer uses an input several times, which LayerNodes can't express.
+      return None
+
+    # Keep the order of the inputs, it may differ from the order of the layers.
+    input_layers = sorted(
+        self._get_layers(input_layer_names),
+        key=lambda layer: input_layer_names.index(layer['config']['name']))
 
     if len(input_layers) != len(pattern.inputs):
       # Number of inputs this layer takes is different from the number of
-- 
2.43.0


From e872ab9c24e8a65f2f7a4172fab62714ba59adaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:59 +0000
Subject: [PATCH 30/51] fix: ModelTransformer matches input layers, operators,
 call arguments and reused tensors correctly

Patterns with inputs raised IndexError when they reached an input layer and
TypeError for operators, matches of layers which use another than the first
output of a layer were connected to the first one, arguments of calls were
dropped, and consumers which use a tensor in a nested argument were neither
counted nor renamed.
---
 .../model_transformer.py                      | 64 +++++++++++++++----
 1 file changed, 53 insertions(+), 11 deletions(-)

diff --git a/tensorflow_model_optimization/python/core/quantization/keras/graph_transformations/model_transformer.py b/tensorflow_model_optimization/python/core/quantization/keras/graph_transformations/model_transformer.py
index b562a4e..8e6b7ea 100644
--- a/tensorflow_model_optimization/python/core/quantization/keras/graph_transformations/model_transformer.py
+++ b/tensorflow_model_optimization/python/core/quantization/keras/graph_transformations/model_transformer.py
@@ -80,6 +80,16 @@ class ModelTransformer(object):
       else:
         yield inbound_node
 
+  def _get_kwarg_connections(self, kwarg):
+    """Return the connections, i.e. [name, node, tensor], a kwarg contains."""
+    if isinstance(kwarg, dict):
+      kwarg = list(kwarg.values())
+    if not isinstance(kwarg, (list, tuple)):
+      return []
+    if len(kwarg) >= 3 and isinstance(kwarg[0], str):
+      return [kwarg]
+    return sum([self._get_kwarg_connections(value) for value in kwarg], [])
+
   def _get_inbound_layer_names(self, layer):
     """Return all the inbound connection layer names for the layer."""
     inbound_layer_names = []
@@ -93,8 +103,8 @@ class ModelTransformer(object):
         inbound_layer_names.append(connection_info[0])
         # **kwarg argument case.
         inbound_layer_names += [
-            value[0] for value in connection_info[3].values() if isinstance(
-                value, list)
+            value[0] for value in self._get_kwarg_connections(
+                connection_info[3])
         ]
 
     return inbound_layer_names
@@ -198,10 +208,36 @@ class ModelTransformer(object):
 
     return True
 
+  def _are_inputs_supported(self, layer):
+    """Check if replacing the inputs of a functional layer is supported.
+
+    Only layers called with a tensor or a list of tensors, each being the only
+    output of its layer, can be connected to replaced inputs.
+
+    Args:
+      layer: layer for pattern matching. Must come from a Functional model.
+
+    Returns:
+      whether the inputs can be replaced.
+    """
+    for inbound_node in layer['inbound_nodes']:
+      for connection_info in inbound_node:
+        if not isinstance(connection_info, list):
+          return False  # Dictionary of tensors, or operator.
+        if connection_info[1] != 0 or connection_info[2] != 0:
+          return False
+        if self._get_kwarg_connections(connection_info[3]):
+          return False
+
+    return True
+
   def _get_input_layer_names(self, layer):
     """Get the names of a layer's input layers."""
     if self._is_functional_model(self.model):
       inbound_nodes = layer['inbound_nodes']
+      if not inbound_nodes:
+        # Input layers have no inputs.
+        return []
       return [connection_info[0] for connection_info in inbound_nodes[0]]
     else:  # Sequential model.
       layers = self._config['layers']
@@ -229,9 +265,10 @@ class ModelTransformer(object):
           self._get_layer_metadata(layer['config']['name']),
           self._get_layer_names_and_weights(layer['config']['name']))
 
-    # There is a possible edge case where a single layer may output multiple
-    # tensors and multiple tensors from that layer may be used by the
-    # connection. Ignoring those for now.
+    if self._is_functional_model(
+        self.model) and not self._are_inputs_supported(layer):
+      return None
+
     input_layer_names = self._get_input_layer_names(layer)
     if len(set(input_layer_names)) != len(input_layer_names):
       # The layer uses an input several times, which LayerNodes can't express.
@@ -336,10 +373,9 @@ class ModelTransformer(object):
                                                 replacement_name):
       if connection_info[0] == match_name:
         connection_info[0] = replacement_name
-      for key in connection_info[3]:
-        if isinstance(connection_info[3][key], list):
-          if connection_info[3][key][0] == match_name:
-            connection_info[3][key][0] = replacement_name
+      for kwarg_connection in self._get_kwarg_connections(connection_info[3]):
+        if kwarg_connection[0] == match_name:
+          kwarg_connection[0] = replacement_name
 
     for consumer in consuming_layers:
       for inbound_node in self._inbound_node_generator(consumer):
@@ -362,17 +398,23 @@ class ModelTransformer(object):
       if not layer_node.input_layers:
         return
 
+      # Keep the arguments the layer was called with.
+      inbound_nodes = layer_node.layer.get('inbound_nodes') or [[]]
+      kwargs = {}
+      if inbound_nodes[0] and isinstance(inbound_nodes[0][0], list):
+        kwargs = inbound_nodes[0][0][3]
+
       layer_node.layer['inbound_nodes'] = [[]]
       for input_layer in layer_node.input_layers:
         # inbound_nodes can be specific tensors from multiple inbound
         # connections. We make the following assumptions.
         # - Only 1 inbound node for each replacement layer.
         # - Only 1 tensor output from the previous layer which is connected.
-        # - call() method during construction does not have any args.
+        # - call() method during construction only has constant args.
         # These are reasonable assumptions for almost all case we are
         # interested in.
         layer_node.layer['inbound_nodes'][0].append(
-            [input_layer.layer['config']['name'], 0, 0, {}])
+            [input_layer.layer['config']['name'], 0, 0, kwargs])
 
         _assign_inbounds_for_replacement(input_layer)
 
-- 
2.43.0


From 93a54e880519a62a826c1a71cc65c9114c0d65c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:44 +0000
Subject: [PATCH 31/51] fix: QuantizeLayer is built twice when a model is
 rebuilt from its configuration

---
 .../python/core/quantization/keras/quantize_layer.py             | 1 +
 1 file changed, 1 insertion(+)

diff --git a/tensorflow_model_optimization/python/core/quantization/keras/quantize_layer.py b/tensorflow_model_optimization/python/core/quantization/keras/quantize_layer.py
index 59df68c..af71b85 100644
--- a/tensorflow_model_optimization/python/core/quantization/keras/quantize_layer.py
+++ b/tensorflow_model_optimization/python/core/quantization/keras/quantize_layer.py
@@ -54,6 +54,7 @@ class QuantizeLayer(keras.layers.Layer):
     self.quantizer = quantizer
 
   def build(self, input_shape):
+    super(QuantizeLayer, self).build(input_shape)
     if self.quantizer:
       self.quantizer_vars = self.quantizer.build(
           input_shape, self.name, self)
-- 
2.43.0


From ebeefe70fa3b40d3b8dd889e119d114ea217a142 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:44 +0000
Subject: [PATCH 32/51] fix: QuantizeWrapperV2 rebuilt from its configuration
 is built before the layer it wraps

---
 .../python/core/quantization/keras/quantize_wrapper.py    | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/tensorflow_model_optimization/python/core/quantization/keras/quantize_wrapper.py b/tensorflow_model_optimization/python/core/quantization/keras/quantize_wrapper.py
index c86589c..ea8eb21 100644
--- a/tensorflow_model_optimization/python/core/quantization/keras/quantize_wrapper.py
+++ b/tensorflow_model_optimization/python/core/quantization/keras/quantize_wrapper.py
@@ -258,6 +258,14 @@ class QuantizeWrapper(keras.layers.Wrapper):
 class QuantizeWrapperV2(QuantizeWrapper):
 
   def build(self, input_shape):
+    # A shape which was read from JSON is a list, which recurrent layers take
+    # for the shapes of several inputs.
+    if isinstance(input_shape, list) and all(
+        dim is None or isinstance(dim, int) for dim in input_shape):
+      input_shape = tuple(input_shape)
+
+    # Layers rebuilt from a config only have weights once they are built.
+    keras.layers.Wrapper.build(self, input_shape)
     self._trainable_weights.extend(self.layer.trainable_weights)
     super(QuantizeWrapperV2, self).build(input_shape)
 
-- 
2.43.0


From 81232cac583bcc7aa317e1df58623ef6d786f027 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:45 +0000
Subject: [PATCH 33/51] fix: quantized activations of one layer have variables
 of the same name

---
 .../quantization/keras/quantize_aware_activation.py | 13 ++++++++-----
 .../core/quantization/keras/quantize_wrapper.py     |  6 ++++--
 2 files changed, 12 insertions(+), 7 deletions(-)

diff --git a/tensorflow_model_optimization/python/core/quantization/keras/quantize_aware_activation.py b/tensorflow_model_optimization/python/core/quantization/keras/quantize_aware_activation.py
index a46da3f..e69dcaf 100644
--- a/tensorflow_model_optimization/python/core/quantization/keras/quantize_aware_activation.py
+++ b/tensorflow_model_optimization/python/core/quantization/keras/quantize_aware_activation.py
@@ -99,7 +99,8 @@ class QuantizeAwareActivation(object):
       'config using `QuantizeConfig`.'
   )
 
-  def __init__(self, activation, quantizer, step, quantize_wrapper):
+  def __init__(self, activation, quantizer, step, quantize_wrapper,
+               name_suffix=''):
     """Constructs object, and initializes weights for quantization.
 
     Args:
@@ -107,6 +108,8 @@ class QuantizeAwareActivation(object):
       quantizer: `Quantizer` to be used to quantize the activation.
       step: Variable which tracks optimizer step.
       quantize_wrapper: `QuantizeWrapper` which owns this activation.
+      name_suffix: Suffix for the names of the weights, to distinguish several
+        activations of a layer.
     """
     self.activation = activation
     self.quantizer = quantizer
@@ -117,12 +120,12 @@ class QuantizeAwareActivation(object):
       raise ValueError(self._CUSTOM_ACTIVATION_ERR_MSG)
 
     if self._should_pre_quantize():
-      self._pre_activation_vars = quantizer.build(None, 'pre_activation',
-                                                  quantize_wrapper)
+      self._pre_activation_vars = quantizer.build(
+          None, 'pre_activation' + name_suffix, quantize_wrapper)
 
     if self._should_post_quantize():
-      self._post_activation_vars = quantizer.build(None, 'post_activation',
-                                                   quantize_wrapper)
+      self._post_activation_vars = quantizer.build(
+          None, 'post_activation' + name_suffix, quantize_wrapper)
 
   def _name(self, activation):
     if hasattr(activation, '__name__'):
diff --git a/tensorflow_model_optimization/python/core/quantization/keras/quantize_wrapper.py b/tensorflow_model_optimization/python/core/quantization/keras/quantize_wrapper.py
index ea8eb21..5ed76d3 100644
--- a/tensorflow_model_optimization/python/core/quantization/keras/quantize_wrapper.py
+++ b/tensorflow_model_optimization/python/core/quantization/keras/quantize_wrapper.py
@@ -121,10 +121,12 @@ class QuantizeWrapper(keras.layers.Wrapper):
       self._trainable_weights.append(weight)
 
     self._quantize_activations = []
-    for activation, quantizer in (
+    for index, (activation, quantizer) in enumerate(
         self.quantize_config.get_activations_and_quantizers(self.layer)):
+      # Variables of the same name could not be saved in an HDF5 file.
       quantize_activation = quantize_aware_activation.QuantizeAwareActivation(
-          activation, quantizer, self.optimizer_step, self)
+          activation, quantizer, self.optimizer_step, self,
+          name_suffix='_{}'.format(index) if index else '')
 
       self._quantize_activations.append(quantize_activation)
 
-- 
2.43.0


From c6b69caa1eb1ee538aa7d9d8c21961849349850b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:16:38 +0000
Subject: [PATCH 34/51] fix: preserving quantization ignores frozen layers that
 are trained later

---
 .../prune_preserve/prune_preserve_quantize_registry.py         | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tensorflow_model_optimization/python/core/quantization/keras/collab_opts/prune_preserve/prune_preserve_quantize_registry.py b/tensorflow_model_optimization/python/core/quantization/keras/collab_opts/prune_preserve/prune_preserve_quantize_registry.py
index e8301df..ef25df2 100644
--- a/tensorflow_model_optimization/python/core/quantization/keras/collab_opts/prune_preserve/prune_preserve_quantize_registry.py
+++ b/tensorflow_model_optimization/python/core/quantization/keras/collab_opts/prune_preserve/prune_preserve_quantize_registry.py
@@ -196,7 +196,8 @@ class PrunePreserveQuantizeRegistry():
       Returns quantize_config with addon sparsity preserve weight_quantizer.
     """
     if self.supports(layer):
-      if (self._no_trainable_weights(layer) or
+      # Frozen layers may be trained later, so that their class decides.
+      if (layer.__class__ not in self._LAYERS_CONFIG_MAP or
           self._disable_prune_preserve(layer)):
         return quantize_config
       if (quantize_config.__class__.__name__
-- 
2.43.0


From bbc25637073e9f62f05d1bc765527c8cbd0e1523 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:16:47 +0000
Subject: [PATCH 35/51] fix: cluster preserving quantization treats every layer
 and channel by its own weights

---
 .../cluster_preserve_quantize_registry.py     | 21 +++++++++++--------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/tensorflow_model_optimization/python/core/quantization/keras/collab_opts/cluster_preserve/cluster_preserve_quantize_registry.py b/tensorflow_model_optimization/python/core/quantization/keras/collab_opts/cluster_preserve/cluster_preserve_quantize_registry.py
index ff2381f..76c6297 100644
--- a/tensorflow_model_optimization/python/core/quantization/keras/collab_opts/cluster_preserve/cluster_preserve_quantize_registry.py
+++ b/tensorflow_model_optimization/python/core/quantization/keras/collab_opts/cluster_preserve/cluster_preserve_quantize_registry.py
@@ -260,8 +260,9 @@ class ClusterPreserveQuantizeRegistry(object):
 
     # Example: ReLU, Softmax, and AveragePooling2D (without trainable weights)
     # DepthwiseConv2D (cluster_preserve is disabled)
-    if self._no_trainable_weights(layer) or self._disable_cluster_preserve(
-        layer):
+    # Frozen layers may be trained later, so that their class decides.
+    if (layer.__class__ not in self._LAYERS_CONFIG_MAP or
+        self._disable_cluster_preserve(layer)):
       return quantize_config
 
     # Example: Conv2D, Dense layers
@@ -344,8 +345,10 @@ class ClusterPreserveDefaultWeightsQuantizer(quantizers.LastValueQuantizer):
     """
     result = {}
     weights = getattr(layer.layer, name)
-    if self.preserve_sparsity and not tf.reduce_any(weights == 0):
-      self.preserve_sparsity = False
+    # The quantizer is shared by all layers, so that this is decided per layer.
+    preserve_sparsity = self.preserve_sparsity
+    if preserve_sparsity and not tf.reduce_any(weights == 0):
+      preserve_sparsity = False
       logging.warning(
           'Input layer does not contain zero weights, so apply CQAT instead.')
     centroids_mask = None
@@ -355,10 +358,10 @@ class ClusterPreserveDefaultWeightsQuantizer(quantizers.LastValueQuantizer):
     centroids, num_centroids, lookup, cluster_per_channel = get_centroids(
         layer, weights, data_format)
 
-    if self.preserve_sparsity:
+    if preserve_sparsity:
       sparsity_mask = tf.math.divide_no_nan(weights, weights)
-      zero_idx = tf.argmin(tf.abs(centroids), axis=-1)
-      centroids_mask = 1.0 - tf.one_hot(zero_idx, num_centroids)
+      # Channels which have no zeros have no centroid to keep at zero.
+      centroids_mask = tf.math.divide_no_nan(centroids, centroids)
       result = {SPARSITY_MASK: sparsity_mask}
 
     # Prepare clustering variables for the Keras graph when clusters
@@ -467,7 +470,7 @@ class ClusterPreserveDefaultWeightsQuantizer(quantizers.LastValueQuantizer):
     """
     if training:
       if CLUSTER_CENTROIDS in weights:
-        if self.preserve_sparsity:
+        if SPARSITY_MASK in weights:
           weights[ORIGINAL_WEIGHTS].assign(
               tf.multiply(weights[ORIGINAL_WEIGHTS],
                           weights[SPARSITY_MASK]))
@@ -489,7 +492,7 @@ class ClusterPreserveDefaultWeightsQuantizer(quantizers.LastValueQuantizer):
             weights[PULLING_INDICES], weights[ORIGINAL_WEIGHTS])
         inputs.assign(output)
       else:
-        if self.preserve_sparsity:
+        if SPARSITY_MASK in weights:
           inputs = tf.multiply(inputs, weights[SPARSITY_MASK])
         output = inputs
     else:
-- 
2.43.0


From a5ee65140a43f449c7eec1697a2663ce77471495 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:16:47 +0000
Subject: [PATCH 36/51] fix: strip_clustering_cqat leaves cluster variables of
 layers with depthwise in their name

---
 .../cluster_preserve/cluster_utils.py         | 31 +++++++++----------
 1 file changed, 15 insertions(+), 16 deletions(-)

diff --git a/tensorflow_model_optimization/python/core/quantization/keras/collab_opts/cluster_preserve/cluster_utils.py b/tensorflow_model_optimization/python/core/quantization/keras/collab_opts/cluster_preserve/cluster_utils.py
index 0226163..98ccd5b 100644
--- a/tensorflow_model_optimization/python/core/quantization/keras/collab_opts/cluster_preserve/cluster_utils.py
+++ b/tensorflow_model_optimization/python/core/quantization/keras/collab_opts/cluster_preserve/cluster_utils.py
@@ -86,22 +86,21 @@ def strip_clustering_cqat(to_strip):
     # we only handle conv2d and dense layers here
     if hasattr(layer, 'layer'):
       # pylint:disable=protected-access
-      if 'depthwise' not in layer.layer.name:
-        if isinstance(layer.layer, (keras.layers.Conv2D, keras.layers.Dense)):
-          new_variables = []
-          for v in layer._trainable_weights:
-            if 'cluster_centroids_tf' in v.name or (
-                'ori_weights_vars_tf' in v.name):
-              continue
-            new_variables.append(v)
-          layer._trainable_weights = new_variables
-
-          new_variables = []
-          for v in layer._non_trainable_weights:
-            if 'pulling_indices_tf' in v.name:
-              continue
-            new_variables.append(v)
-          layer._non_trainable_weights = new_variables
+      if isinstance(layer.layer, (keras.layers.Conv2D, keras.layers.Dense)):
+        new_variables = []
+        for v in layer._trainable_weights:
+          if 'cluster_centroids_tf' in v.name or (
+              'ori_weights_vars_tf' in v.name):
+            continue
+          new_variables.append(v)
+        layer._trainable_weights = new_variables
+
+        new_variables = []
+        for v in layer._non_trainable_weights:
+          if 'pulling_indices_tf' in v.name:
+            continue
+          new_variables.append(v)
+        layer._non_trainable_weights = new_variables
 
     return layer
 
-- 
2.43.0


From 7a79dade96d1a010c3436539b767448e7d47a6fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:35:53 +0000
Subject: [PATCH 37/51] fix: fix_input_output_range and remove_input_range lose
 the weights of the model

---
 .../core/quantization/keras/quantize.py       | 45 +++++++++++++++----
 1 file changed, 37 insertions(+), 8 deletions(-)

diff --git a/tensorflow_model_optimization/python/core/quantization/keras/quantize.py b/tensorflow_model_optimization/python/core/quantization/keras/quantize.py
index b5e4337..bc7f203 100644
--- a/tensorflow_model_optimization/python/core/quantization/keras/quantize.py
+++ b/tensorflow_model_optimization/python/core/quantization/keras/quantize.py
@@ -560,6 +560,29 @@ def _nested_to_flatten_node_data_list(nested):
   raise ValueError('{} is not a supported nested node data.'.format(nested))
 
 
+def _copy_weights(source, target):
+  """Copies the weights of a model to one with fewer range variables.
+
+  Args:
+    source: A `keras` model which has been quantized.
+    target: A `keras` model with the same layers, some of whose quantizers have
+      been replaced by quantizers without variables.
+  """
+  def base_name(weight):
+    return weight.name.split('/')[-1]
+
+  for target_layer in target.layers:
+    weights = iter(source.get_layer(target_layer.name).weights)
+    values = []
+    for target_weight in target_layer.weights:
+      for weight in weights:
+        if (base_name(weight) == base_name(target_weight) and
+            weight.shape == target_weight.shape):
+          values.append(keras.backend.get_value(weight))
+          break
+    target_layer.set_weights(values)
+
+
 def fix_input_output_range(
     model,
     num_bits=8,
@@ -617,6 +640,8 @@ def fix_input_output_range(
   if _is_functional_model(model):
     input_layer_list = _nested_to_flatten_node_data_list(config['input_layers'])
     for layer_config in config['layers']:
+      if layer_config['class_name'] != 'QuantizeLayer':
+        continue
       input_name = _unwrap_first_input_name(layer_config['inbound_nodes'])
       if input_name is None:
         continue
@@ -641,9 +666,9 @@ def fix_input_output_range(
                     narrow_range=narrow_range))
           break
 
-    model = keras.Model.from_config(config)
+    new_model = keras.Model.from_config(config)
   else:
-    if (len(config['layers']) < 1 or
+    if (len(config['layers']) < 2 or
         config['layers'][1]['class_name'] != 'QuantizeLayer'):
       raise ValueError('`model` should be already quantized.')
     config['layers'][1]['config'][
@@ -657,9 +682,10 @@ def fix_input_output_range(
               init_max=output_max,
               narrow_range=narrow_range))
 
-    model = keras.Sequential.from_config(config)
+    new_model = keras.Sequential.from_config(config)
 
-  return model
+  _copy_weights(model, new_model)
+  return new_model
 
 
 def _is_functional_model(model):
@@ -702,6 +728,8 @@ def remove_input_range(model):
   if _is_functional_model(model):
     input_layer_list = _nested_to_flatten_node_data_list(config['input_layers'])
     for layer_config in config['layers']:
+      if layer_config['class_name'] != 'QuantizeLayer':
+        continue
       input_name = _unwrap_first_input_name(layer_config['inbound_nodes'])
       if input_name is None:
         continue
@@ -711,14 +739,15 @@ def remove_input_range(model):
           layer_config['config']['quantizer'] = serialized_input_quantizer
           break
 
-    model = keras.Model.from_config(config)
+    new_model = keras.Model.from_config(config)
   else:
-    if (len(config['layers']) < 1 or
+    if (len(config['layers']) < 2 or
         config['layers'][1]['class_name'] != 'QuantizeLayer'):
       raise ValueError('`model` should be already quantized.')
     config['layers'][1]['config'][
         'quantizer'] = serialized_input_quantizer
 
-    model = keras.Sequential.from_config(config)
+    new_model = keras.Sequential.from_config(config)
 
-  return model
+  _copy_weights(model, new_model)
+  return new_model
-- 
2.43.0


From cdfeda6e7cd477c4d322f3a5244944f638a03871 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:11 +0000
Subject: [PATCH 38/51] fix: compression loses weights of uncompressed layers,
 fails without a bias and unfreezes layers

---
 .../keras/compression/algorithms/bias_only.py |  3 +-
 .../keras/compression/internal/optimize.py    | 67 +++++++++++--------
 2 files changed, 42 insertions(+), 28 deletions(-)

diff --git a/tensorflow_model_optimization/python/core/common/keras/compression/algorithms/bias_only.py b/tensorflow_model_optimization/python/core/common/keras/compression/algorithms/bias_only.py
index 792966f..e077402 100644
--- a/tensorflow_model_optimization/python/core/common/keras/compression/algorithms/bias_only.py
+++ b/tensorflow_model_optimization/python/core/common/keras/compression/algorithms/bias_only.py
@@ -65,7 +65,8 @@ class BiasOnly(algorithm.WeightCompressor):
     if isinstance(original_layer, keras.layers.Conv2D) or isinstance(
         original_layer, keras.layers.Dense
     ):
-      return [original_layer.bias]
+      if original_layer.bias is not None:
+        return [original_layer.bias]
     return []
 
   def compress_model(self, to_optimize: keras.Model) -> keras.Model:
diff --git a/tensorflow_model_optimization/python/core/common/keras/compression/internal/optimize.py b/tensorflow_model_optimization/python/core/common/keras/compression/internal/optimize.py
index 7c916f6..9d76724 100644
--- a/tensorflow_model_optimization/python/core/common/keras/compression/internal/optimize.py
+++ b/tensorflow_model_optimization/python/core/common/keras/compression/internal/optimize.py
@@ -325,19 +325,27 @@ def _map_to_inference_weights(training_weights, algorithm, training_tensors):
   """
 
   compressed_weights = []
-  weights = ['kernel', 'bias']
-  layer_weights_i = 0
-  for weight in weights:
-    if weight in training_tensors:
-      compressed = algorithm.compress_training_weights(
-          *training_tensors[weight])
-      for c in compressed:
-        compressed_weights.append(c.numpy())
-      layer_weights_i += len(training_tensors[weight])
-    else:
-      compressed_weights.append(training_weights[layer_weights_i])
-      layer_weights_i += 1
-  return compressed_weights
+  num_compressible_weights = 0
+  for tensors in training_tensors.values():
+    compressed = algorithm.compress_training_weights(*tensors)
+    compressed_weights.extend(c.numpy() for c in compressed)
+    num_compressible_weights += len(tensors)
+  # The weights of the algorithm come before the ones of the nested layer.
+  return compressed_weights + training_weights[num_compressible_weights:]
+
+
+def _clone_layer_with_weights(layer):
+  """Clones a layer without compressible weights, including its weights."""
+  cloned_layer = layer.__class__.from_config(layer.get_config())
+  weights = layer.get_weights()
+  if weights:
+    if not cloned_layer.built:
+      with keras.backend.name_scope(cloned_layer.name):
+        cloned_layer.build(layer.get_input_shape_at(0))
+      # See `create_layer_for_training`.
+      cloned_layer._build_input_shape = None  # pylint: disable=protected-access
+    cloned_layer.set_weights(weights)
+  return cloned_layer
 
 
 def create_layer_for_training(layer, algorithm):
@@ -358,9 +366,11 @@ def create_layer_for_training(layer, algorithm):
     raise ValueError('`_create_layer_for_training` requires `layer` to '
                      'be built.')
 
-  input_shape = layer.input_shape
-
   compressible_weights = algorithm.get_compressible_weights(layer)
+  if not compressible_weights:
+    return _clone_layer_with_weights(layer)
+
+  input_shape = layer.input_shape
 
   # Clone layer for two reasons:
   #
@@ -401,18 +411,18 @@ def create_layer_for_training(layer, algorithm):
       algorithm,
       compressible_weights_name)
 
-  if compressible_weights:
-    # Set pretrained weight values.
-    wrapped_layer.build(input_shape)
-    # Clear `_build_input_shape` so that `build()` is not immediately called
-    # during reloading. We want the wrapper layer to initiate `build()`.
-    wrapped_layer.layer._build_input_shape = None  # pylint: disable=protected-access
-    training_weights = _map_to_training_weights(
-        algorithm,
-        layer,
-        compressible_weights)
-    wrapped_layer.set_weights(
-        [weight.numpy() for weight in training_weights])
+  # Set pretrained weight values.
+  wrapped_layer.build(input_shape)
+  # Clear `_build_input_shape` so that `build()` is not immediately called
+  # during reloading. We want the wrapper layer to initiate `build()`.
+  wrapped_layer.layer._build_input_shape = None  # pylint: disable=protected-access
+  training_weights = _map_to_training_weights(
+      algorithm,
+      layer,
+      compressible_weights)
+  wrapped_layer.set_weights(
+      [weight.numpy() for weight in training_weights])
+  wrapped_layer.trainable = layer.trainable
 
   return wrapped_layer
 
@@ -430,6 +440,9 @@ def create_layer_for_inference(layer: _TrainingWrapper, algorithm):
     raise ValueError(
         '`_create_layer_for_inference` requires `layer` to be built.')
 
+  if not isinstance(layer, _TrainingWrapper):
+    return _clone_layer_with_weights(layer)
+
   # Process layer.
   nested_layer = layer.layer
   input_shape = layer.input_shape
-- 
2.43.0


From 21a8a86be1d42fc14f79182f5628f7ff2261b798 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:42:01 +0000
Subject: [PATCH 39/51] fix: compression updates training weights during
 inference

---
 .../python/core/common/keras/compression/algorithm.py     | 8 ++++++--
 .../core/common/keras/compression/internal/optimize.py    | 7 +++++--
 2 files changed, 11 insertions(+), 4 deletions(-)

diff --git a/tensorflow_model_optimization/python/core/common/keras/compression/algorithm.py b/tensorflow_model_optimization/python/core/common/keras/compression/algorithm.py
index 3707116..e998d69 100644
--- a/tensorflow_model_optimization/python/core/common/keras/compression/algorithm.py
+++ b/tensorflow_model_optimization/python/core/common/keras/compression/algorithm.py
@@ -106,9 +106,10 @@ class WeightCompressor(metaclass=abc.ABCMeta):
        tf.Tensor to set the compressible weight to.
     """
 
-  def init_update_ops(self, tensor_weight_pairs):
+  def init_update_ops(self, tensor_weight_pairs, training=True):
     self.update_ops = []
     self.tensor_weight_pairs = tensor_weight_pairs
+    self.training = training
 
   def update_training_weight(
       self, training_weight: tf.Tensor, value: tf.Tensor):
@@ -131,7 +132,10 @@ class WeightCompressor(metaclass=abc.ABCMeta):
     """
     for tensor, weight in self.tensor_weight_pairs:
       if training_weight is tensor:
-        self.update_ops.append(weight.assign(value))
+        # The training weights don't change during inference.
+        self.update_ops.append(
+            weight.assign(tf.where(tf.cast(self.training, tf.bool), value,
+                                   weight)))
         return
 
     raise ValueError('Training weight not found. Please call '
diff --git a/tensorflow_model_optimization/python/core/common/keras/compression/internal/optimize.py b/tensorflow_model_optimization/python/core/common/keras/compression/internal/optimize.py
index 9d76724..ba55b73 100644
--- a/tensorflow_model_optimization/python/core/common/keras/compression/internal/optimize.py
+++ b/tensorflow_model_optimization/python/core/common/keras/compression/internal/optimize.py
@@ -134,7 +134,10 @@ class _TrainingWrapper(keras.layers.Wrapper):
       if name:
         self.attr_name_map[attr_name] = name
 
-  def call(self, inputs):
+  def call(self, inputs, training=None):
+    if training is None:
+      training = keras.backend.learning_phase()
+
     for attr_name, name in self.attr_name_map.items():
       # TODO(tfmot): move constant folding prevention to the inference graph
       # only, since constant folding won't happen during training.
@@ -145,7 +148,7 @@ class _TrainingWrapper(keras.layers.Wrapper):
         training_weight_tensors.append(tensor)
         tensor_weight_pairs.append((tensor, v))
 
-      self.algorithm.init_update_ops(tensor_weight_pairs)
+      self.algorithm.init_update_ops(tensor_weight_pairs, training)
       weight_tensor = self.algorithm.project_training_weights(
           *training_weight_tensors)
       # TODO(tfmot): Needs to check when this update is happen.
-- 
2.43.0


From 3080aeb10f50da94f018b98f643a49ae2f239b57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:04:41 +0000
Subject: [PATCH 40/51] fix: compression schedules with integer end values fail
 in compiled functions

---
 .../python/core/common/keras/compression/schedules.py           | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tensorflow_model_optimization/python/core/common/keras/compression/schedules.py b/tensorflow_model_optimization/python/core/common/keras/compression/schedules.py
index 6043af6..9a07dde 100644
--- a/tensorflow_model_optimization/python/core/common/keras/compression/schedules.py
+++ b/tensorflow_model_optimization/python/core/common/keras/compression/schedules.py
@@ -115,7 +115,7 @@ class PolynomialDecay(Scheduler):
       decay_term = tf.math.divide(local_steps,
                                   tf.cast(self.decay_steps, dtype=tf.float32))
       total_delta = tf.cast(self.start_value - self.end_value, dtype=tf.float32)
-      target = tf.math.add(self.end_value, tf.cast(
+      target = tf.math.add(tf.cast(self.end_value, dtype=self.dtype), tf.cast(
           tf.math.multiply(total_delta, tf.pow(1 - decay_term, self.exponent)),
           dtype=self.dtype))
       val = tf.stop_gradient(target)
-- 
2.43.0


From e16f3b28ebcbc66257f6d4139255d0649230b391 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:16:23 +0000
Subject: [PATCH 41/51] fix: random signs are zero when the random value is
 exactly 0.5

The randomized Hadamard and Kashin encoding stages then lose the value
multiplied by that sign.
---
 .../core/internal/tensor_encoding/utils/tf_utils.py  | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/tensorflow_model_optimization/python/core/internal/tensor_encoding/utils/tf_utils.py b/tensorflow_model_optimization/python/core/internal/tensor_encoding/utils/tf_utils.py
index bf58eb8..7cde5be 100644
--- a/tensorflow_model_optimization/python/core/internal/tensor_encoding/utils/tf_utils.py
+++ b/tensorflow_model_optimization/python/core/internal/tensor_encoding/utils/tf_utils.py
@@ -241,8 +241,10 @@ def random_signs(num_elements, seed, dtype=tf.float32):
   Returns:
     A Tensor of `num_elements` random +1/-1 values as `dtype`.
   """
-  return tf.cast(
-      tf.sign(tf.random.stateless_uniform([num_elements], seed) - 0.5), dtype)
+  # Note that `tf.sign` would be zero for a random value of exactly 0.5.
+  return tf.where(
+      tf.random.stateless_uniform([num_elements], seed) < 0.5,
+      tf.constant(-1, dtype), tf.constant(1, dtype))
 
 
 def random_floats(num_elements, seed, dtype=tf.float32):
@@ -271,8 +273,10 @@ def random_floats(num_elements, seed, dtype=tf.float32):
 
 def random_signs_cmwc(num_elements, seed, dtype=tf.float32):
   """Returns a Tensor of `num_elements` random +1/-1 values as `dtype`."""
-  return tf.cast(
-      tf.sign(_cmwc_random_sequence(num_elements, seed) - 0.5), dtype)
+  # Note that `tf.sign` would be zero for a random value of exactly 0.5.
+  return tf.where(
+      _cmwc_random_sequence(num_elements, seed) < 0.5, tf.constant(-1, dtype),
+      tf.constant(1, dtype))
 
 
 def random_floats_cmwc(num_elements, seed, dtype=tf.float32):
-- 
2.43.0


From 25f771e0544c1e4d4af30d70d7f7c9e8290ac9d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:43:58 +0000
Subject: [PATCH 42/51] fix: GatherEncoder.fully_commutes_with_sum is true if
 any stage commutes with sum

---
 .../python/core/internal/tensor_encoding/core/gather_encoder.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tensorflow_model_optimization/python/core/internal/tensor_encoding/core/gather_encoder.py b/tensorflow_model_optimization/python/core/internal/tensor_encoding/core/gather_encoder.py
index 38b8b2d..1ce8730 100644
--- a/tensorflow_model_optimization/python/core/internal/tensor_encoding/core/gather_encoder.py
+++ b/tensorflow_model_optimization/python/core/internal/tensor_encoding/core/gather_encoder.py
@@ -370,7 +370,7 @@ class GatherEncoder:
   @property
   def fully_commutes_with_sum(self):
     # If any element is not True, the whole thing does not fully commute.
-    return sum(tf.nest.flatten(self._commuting_structure))
+    return all(tf.nest.flatten(self._commuting_structure))
 
   @property
   def state_update_aggregation_modes(self):
-- 
2.43.0


From 3949ce1bd42ad75d84e10d3856d2ac564d97c389 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:46:59 +0000
Subject: [PATCH 43/51] fix: encoders mix up encoded tensors whose keys sort
 before the path separator

The simple and gather encoders flatten encoded tensors to a dictionary of
joined paths and matched them by sorted key, which is another order than the
one of the nested structure, e.g. for the keys 'x' (with a child) and 'x-lo'.
---
 .../tensor_encoding/core/gather_encoder.py    | 11 +++++-----
 .../tensor_encoding/core/simple_encoder.py    |  4 ++--
 .../tensor_encoding/utils/py_utils.py         | 20 +++++++++++++++++++
 3 files changed, 28 insertions(+), 7 deletions(-)

diff --git a/tensorflow_model_optimization/python/core/internal/tensor_encoding/core/gather_encoder.py b/tensorflow_model_optimization/python/core/internal/tensor_encoding/core/gather_encoder.py
index 1ce8730..8758aa3 100644
--- a/tensorflow_model_optimization/python/core/internal/tensor_encoding/core/gather_encoder.py
+++ b/tensorflow_model_optimization/python/core/internal/tensor_encoding/core/gather_encoder.py
@@ -297,8 +297,8 @@ class GatherEncoder:
       py_utils.assert_compatible(decode_before_sum_params_spec, params)
 
       encoded_structure = py_utils.merge_dicts(
-          tf.nest.pack_sequence_as(internal_structure['encoded_structure'],
-                                   tf.nest.flatten(encoded_structure)),
+          py_utils.pack_joined_string_paths_as(
+              internal_structure['encoded_structure'], encoded_structure),
           internal_py_values['encoded_structure'])
       params = py_utils.merge_dicts(
           tf.nest.pack_sequence_as(
@@ -328,9 +328,10 @@ class GatherEncoder:
                                  part_decoded_structure)
       py_utils.assert_compatible(decode_after_sum_params_spec, params)
 
-      part_decoded_structure = tf.nest.pack_sequence_as(
-          internal_structure['part_decoded_structure'],
-          tf.nest.flatten(part_decoded_structure))
+      if isinstance(part_decoded_structure, dict):
+        part_decoded_structure = py_utils.pack_joined_string_paths_as(
+            internal_structure['part_decoded_structure'],
+            part_decoded_structure)
       params = py_utils.merge_dicts(
           tf.nest.pack_sequence_as(
               internal_structure['decode_after_sum_params'], params),
diff --git a/tensorflow_model_optimization/python/core/internal/tensor_encoding/core/simple_encoder.py b/tensorflow_model_optimization/python/core/internal/tensor_encoding/core/simple_encoder.py
index 0396656..5fd0d5b 100644
--- a/tensorflow_model_optimization/python/core/internal/tensor_encoding/core/simple_encoder.py
+++ b/tensorflow_model_optimization/python/core/internal/tensor_encoding/core/simple_encoder.py
@@ -133,8 +133,8 @@ class SimpleEncoder(object):
     def decode_fn(encoded_structure):
       encoded_structure = py_utils.merge_dicts(encoded_structure,
                                                encoded_py_structure['flat_py'])
-      encoded_structure = tf.nest.pack_sequence_as(
-          encoded_py_structure['full'], tf.nest.flatten(encoded_structure))
+      encoded_structure = py_utils.pack_joined_string_paths_as(
+          encoded_py_structure['full'], encoded_structure)
       return encoder.decode(encoded_structure[_TENSORS],
                             encoded_structure[_PARAMS],
                             encoded_structure[_SHAPES])
diff --git a/tensorflow_model_optimization/python/core/internal/tensor_encoding/utils/py_utils.py b/tensorflow_model_optimization/python/core/internal/tensor_encoding/utils/py_utils.py
index c91f8c2..344b352 100644
--- a/tensorflow_model_optimization/python/core/internal/tensor_encoding/utils/py_utils.py
+++ b/tensorflow_model_optimization/python/core/internal/tensor_encoding/utils/py_utils.py
@@ -167,6 +167,26 @@ def flatten_with_joined_string_paths(structure, separator='/'):
           for path, item in tree.flatten_with_path(structure)]
 
 
+def pack_joined_string_paths_as(structure, flat_dict, separator='/'):
+  """Inverse of `flatten_with_joined_string_paths`.
+
+  Values are matched by path, as the order of sorted joined paths can differ
+  from the order of the flattened `structure`.
+
+  Args:
+    structure: The structure to pack the values into.
+    flat_dict: A dictionary mapping the joined paths of `structure` to values.
+    separator: The separator used in joined paths.
+
+  Returns:
+    The values of `flat_dict`, packed into the same structure as `structure`.
+  """
+  paths = [
+      path for path, _ in flatten_with_joined_string_paths(structure, separator)
+  ]
+  return tf.nest.pack_sequence_as(structure, [flat_dict[p] for p in paths])
+
+
 def assert_compatible(spec, value):
   """Asserts that values are compatible with given specs.
 
-- 
2.43.0


From 1741d301fce236ab7bc44a9cc428c4cdf9971de1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:18:04 +0000
Subject: [PATCH 44/51] fix: models with an unsupported activation in a layer
 that is not annotated are rejected

---
 .../core/quantization/keras/quantize.py       | 13 ++++++++++
 .../keras/quantize_aware_activation.py        | 26 ++++++++++++++-----
 2 files changed, 33 insertions(+), 6 deletions(-)

diff --git a/tensorflow_model_optimization/python/core/quantization/keras/quantize.py b/tensorflow_model_optimization/python/core/quantization/keras/quantize.py
index bc7f203..48263a8 100644
--- a/tensorflow_model_optimization/python/core/quantization/keras/quantize.py
+++ b/tensorflow_model_optimization/python/core/quantization/keras/quantize.py
@@ -399,6 +399,17 @@ def quantize_apply(
         model_to_unwrap, input_tensors=None, clone_function=_unwrap)
     return unwrapped_model, layer_quantize_map, requires_output_quantize
 
+  def _supports_output_quantize(layer, quantize_config):
+    """Whether the output of a layer which is not annotated can be quantized."""
+    try:
+      quantize_config.get_output_quantizers(layer)
+    except ValueError:  # An `Activation` layer of an unsupported activation.
+      return False
+    return all(
+        quantize_aware_activation.QuantizeAwareActivation.supports(activation)
+        for activation, _ in
+        quantize_config.get_activations_and_quantizers(layer))
+
   def _quantize(layer):  # pylint: disable=missing-docstring
     # Handle quantize layer before any layers.
     # layer is a QuantizeLayer, possibly rebuild
@@ -432,6 +443,8 @@ def quantize_apply(
         return layer
       quantize_config = quantize_config_mod.OutputOnlyConfig(
           full_quantize_config)
+      if not _supports_output_quantize(layer, quantize_config):
+        return layer
     else:
       quantize_config = layer_quantize_map[layer.name].get('quantize_config')
       if not quantize_config and quantize_registry.supports(layer):
diff --git a/tensorflow_model_optimization/python/core/quantization/keras/quantize_aware_activation.py b/tensorflow_model_optimization/python/core/quantization/keras/quantize_aware_activation.py
index e69dcaf..d412232 100644
--- a/tensorflow_model_optimization/python/core/quantization/keras/quantize_aware_activation.py
+++ b/tensorflow_model_optimization/python/core/quantization/keras/quantize_aware_activation.py
@@ -127,17 +127,31 @@ class QuantizeAwareActivation(object):
       self._post_activation_vars = quantizer.build(
           None, 'post_activation' + name_suffix, quantize_wrapper)
 
-  def _name(self, activation):
+  @classmethod
+  def supports(cls, activation):
+    """Returns whether the activation can be quantized.
+
+    Args:
+      activation: Activation function to check for support.
+
+    Returns:
+      True/False whether the activation is supported.
+    """
+    return cls._is_supported_activation(activation)
+
+  @classmethod
+  def _name(cls, activation):
     if hasattr(activation, '__name__'):
       return activation.__name__
     return activation.__class__.__name__
 
-  def _is_supported_activation(self, activation):
-    activation_name = self._name(activation)
+  @classmethod
+  def _is_supported_activation(cls, activation):
+    activation_name = cls._name(activation)
 
-    return activation_name in self._PRE_QUANT_ACTIVATIONS \
-           or activation_name in self._POST_QUANT_ACTIVATIONS \
-           or activation_name in self._NO_QUANTIZE_ACTIVATIONS
+    return activation_name in cls._PRE_QUANT_ACTIVATIONS \
+           or activation_name in cls._POST_QUANT_ACTIVATIONS \
+           or activation_name in cls._NO_QUANTIZE_ACTIVATIONS
 
   def _should_pre_quantize(self):
     return self._name(self.activation) in self._PRE_QUANT_ACTIVATIONS
-- 
2.43.0


From 9b2c6b04df8d020a89d08c7b058e82e92cd62bae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:16:09 +0000
Subject: [PATCH 45/51] fix: clustered weights of large negative weights keep
 the sign of their centroid

---
 .../python/core/clustering/keras/clustering_algorithm.py      | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tensorflow_model_optimization/python/core/clustering/keras/clustering_algorithm.py b/tensorflow_model_optimization/python/core/clustering/keras/clustering_algorithm.py
index 4039d00..cd55ee6 100644
--- a/tensorflow_model_optimization/python/core/clustering/keras/clustering_algorithm.py
+++ b/tensorflow_model_optimization/python/core/clustering/keras/clustering_algorithm.py
@@ -85,7 +85,7 @@ class ClusteringAlgorithm(object):
     This function overrides gradients in the backprop stage: the Jacobian
     matrix of multiplication is replaced with the identity matrix, which
     effectively changes multiplication into add in the backprop. Since
-    the gradient of tf.sign is 0, overwriting it with identity follows
+    the gradient of tf.ones_like is 0, overwriting it with identity follows
     the design of straight-through-estimator, which accepts all upstream
     gradients and uses them to update original non-clustered weights of
     the layer. Here, we assume the gradient updates on individual elements
@@ -99,7 +99,7 @@ class ClusteringAlgorithm(object):
     Returns:
       result and custom gradient, as expected by @tf.custom_gradient
     """
-    override_weights = tf.sign(original_weight + 1e+6)
+    override_weights = tf.ones_like(original_weight)
     override_clustered_weight = clustered_weight * override_weights
 
     def grad(d_override_clustered_weight):
-- 
2.43.0


From 30412fe2210c65d6a443c558f98e94a7916e15fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:16:09 +0000
Subject: [PATCH 46/51] fix: stripping puts clustered weights at their
 positions in whatever order a layer lists them

---
 .../python/core/clustering/keras/cluster.py                   | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tensorflow_model_optimization/python/core/clustering/keras/cluster.py b/tensorflow_model_optimization/python/core/clustering/keras/cluster.py
index 1a5c945..faff0f8 100644
--- a/tensorflow_model_optimization/python/core/clustering/keras/cluster.py
+++ b/tensorflow_model_optimization/python/core/clustering/keras/cluster.py
@@ -359,8 +359,8 @@ def strip_clustering(model):
       # non-clusterable weights only
       updated_weights = layer.layer.get_weights()
       for (position_variable,
-           weight_name) in layer.position_original_weights.items():
-        # Add the clustered weights at the correct position
+           weight_name) in sorted(layer.position_original_weights.items()):
+        # Add the clustered weights at the correct position, lower ones first
         clustered_weight = layer.get_weight_from_layer(weight_name)
         updated_weights.insert(position_variable, clustered_weight)
 
-- 
2.43.0


From 60d5a92d612eb353fd9c90d434adef007ac79f75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:18:07 +0000
Subject: [PATCH 47/51] fix: weight compression takes weights in the order in
 which an algorithm lists them

---
 .../keras/compression/internal/optimize.py    | 29 ++++++++++---------
 1 file changed, 15 insertions(+), 14 deletions(-)

diff --git a/tensorflow_model_optimization/python/core/common/keras/compression/internal/optimize.py b/tensorflow_model_optimization/python/core/common/keras/compression/internal/optimize.py
index ba55b73..551f599 100644
--- a/tensorflow_model_optimization/python/core/common/keras/compression/internal/optimize.py
+++ b/tensorflow_model_optimization/python/core/common/keras/compression/internal/optimize.py
@@ -283,21 +283,22 @@ def _map_to_training_weights(
   if isinstance(layer, keras.layers.Conv2D) or isinstance(
       layer, keras.layers.Dense
   ):
+    # The wrapper adds its weights in the order of `compressible_weights`.
+    for weight in compressible_weights:
+      algorithm.weight_reprs = []
+      algorithm.init_training_weights(weight)
+      for weight_repr in algorithm.weight_reprs:
+        # Assumes initializer is keras.initializers.Constant.
+        # TODO(tfmot): add check for this assumption.
+        # TODO(tfmot): the documentation for
+        # keras.initializers.Constant(value)
+        # suggests that the `value` cannot be any arbitrary shape and
+        # only a single scalar value. It works in this implementation
+        # to make `value` any tensor - check this.
+        training_weights.append(weight_repr.kwargs['initializer'](
+            shape=None, dtype=weight_repr.kwargs['dtype']))
     for weight in layer.weights:
-      if _find(weight, compressible_weights):
-        algorithm.weight_reprs = []
-        algorithm.init_training_weights(weight)
-        for weight_repr in algorithm.weight_reprs:
-          # Assumes initializer is keras.initializers.Constant.
-          # TODO(tfmot): add check for this assumption.
-          # TODO(tfmot): the documentation for
-          # keras.initializers.Constant(value)
-          # suggests that the `value` cannot be any arbitrary shape and
-          # only a single scalar value. It works in this implementation
-          # to make `value` any tensor - check this.
-          training_weights.append(weight_repr.kwargs['initializer'](
-              shape=None, dtype=weight_repr.kwargs['dtype']))
-      else:
+      if not _find(weight, compressible_weights):
         original_weights.append(weight)
 
   return training_weights + original_weights
-- 
2.43.0


From 98c1bff8619891573a9754d1e84312f6e70b86cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:24:51 +0000
Subject: [PATCH 48/51] fix: clustering summaries get batch hooks also when no
 other callback has any

---
 .../python/core/clustering/keras/clustering_callbacks.py     | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/tensorflow_model_optimization/python/core/clustering/keras/clustering_callbacks.py b/tensorflow_model_optimization/python/core/clustering/keras/clustering_callbacks.py
index 7bb825b..f7cbd38 100644
--- a/tensorflow_model_optimization/python/core/clustering/keras/clustering_callbacks.py
+++ b/tensorflow_model_optimization/python/core/clustering/keras/clustering_callbacks.py
@@ -51,6 +51,11 @@ class ClusteringSummaries(keras.callbacks.TensorBoard):
 
     self.continuous_batch = 0
 
+  def _implements_train_batch_hooks(self):
+    # The base class asks for batch hooks only while it traces, but batches
+    # are counted here.
+    return True
+
   def on_train_batch_begin(self, batch, logs=None):
     super().on_train_batch_begin(batch, logs)
     # Count batches manually to get a continuous batch count spanning
-- 
2.43.0


From c0bc2fa298496d00bb88d32354d7cc8a6398b3a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:25:15 +0000
Subject: [PATCH 49/51] fix: masks of a sequence pass through layers annotated
 for quantization and quantized layers

---
 .../core/quantization/keras/quantize_annotate.py     | 11 +++++++++++
 .../core/quantization/keras/quantize_wrapper.py      | 12 ++++++++++++
 2 files changed, 23 insertions(+)

diff --git a/tensorflow_model_optimization/python/core/quantization/keras/quantize_annotate.py b/tensorflow_model_optimization/python/core/quantization/keras/quantize_annotate.py
index 40e637b..a3094b4 100644
--- a/tensorflow_model_optimization/python/core/quantization/keras/quantize_annotate.py
+++ b/tensorflow_model_optimization/python/core/quantization/keras/quantize_annotate.py
@@ -75,6 +75,10 @@ class QuantizeAnnotate(keras.layers.Wrapper):
     self.quantize_config = quantize_config
 
     self._track_trackable(layer, name='layer')
+
+    # Masks pass through the wrapper the same way as through the layer.
+    self.supports_masking = getattr(self.layer, 'supports_masking', False)
+
     # Enables end-user to annotate the first layer in Sequential models, while
     # passing the input shape to the original layer.
     #
@@ -103,6 +107,10 @@ class QuantizeAnnotate(keras.layers.Wrapper):
     # accepts the training bool.
     if 'training' not in arg and 'training' in kwargs:
       del kwargs['training']
+    # Keras hands the mask of the inputs to the wrapper, because its call
+    # accepts any argument.
+    if 'mask' in kwargs and not self.layer._expects_mask_arg:  # pylint: disable=protected-access
+      del kwargs['mask']
     return self.layer.call(*args, **kwargs)
 
   def get_config(self):
@@ -131,6 +139,9 @@ class QuantizeAnnotate(keras.layers.Wrapper):
   def compute_output_shape(self, input_shape):
     return self.layer.compute_output_shape(input_shape)
 
+  def compute_mask(self, inputs, mask=None):
+    return self.layer.compute_mask(inputs, mask)
+
   @property
   def trainable(self):
     return self.layer.trainable
diff --git a/tensorflow_model_optimization/python/core/quantization/keras/quantize_wrapper.py b/tensorflow_model_optimization/python/core/quantization/keras/quantize_wrapper.py
index 5ed76d3..ebeb164 100644
--- a/tensorflow_model_optimization/python/core/quantization/keras/quantize_wrapper.py
+++ b/tensorflow_model_optimization/python/core/quantization/keras/quantize_wrapper.py
@@ -81,6 +81,10 @@ class QuantizeWrapper(keras.layers.Wrapper):
     self.quantize_config = quantize_config
 
     self._track_trackable(layer, name='layer')
+
+    # Masks pass through the wrapper the same way as through the layer.
+    self.supports_masking = getattr(self.layer, 'supports_masking', False)
+
     metrics.MonitorBoolGauge('quantize_wrapper_usage').set(
         layer.__class__.__name__)
 
@@ -139,6 +143,9 @@ class QuantizeWrapper(keras.layers.Wrapper):
   def compute_output_shape(self, input_shape):
     return self.layer.compute_output_shape(self.layer.input_shape)
 
+  def compute_mask(self, inputs, mask=None):
+    return self.layer.compute_mask(inputs, mask)
+
   def _make_quantizer_fn(self, quantizer, x, training, quantizer_vars):
     """Use currying to return True/False specialized fns to the cond."""
 
@@ -174,6 +181,11 @@ class QuantizeWrapper(keras.layers.Wrapper):
     self.quantize_config.set_quantize_activations(self.layer,
                                                   self._quantize_activations)
 
+    # Keras hands the mask of the inputs to the wrapper, because its call
+    # accepts any argument.
+    if 'mask' in kwargs and not self.layer._expects_mask_arg:  # pylint: disable=protected-access
+      del kwargs['mask']
+
     args = tf_inspect.getfullargspec(self.layer.call).args
     if 'training' in args:
       outputs = self.layer.call(inputs, training=training, **kwargs)
-- 
2.43.0


From 6ccff97950ebe5dad238c84c4d189a212572c9dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:47:43 +0000
Subject: [PATCH 50/51] fix: check_sparsity_m_by_n reports the weights of
 models with intermediate tensors

The tool stopped with "Tensor data is null" at the first intermediate tensor
whose name none of the ignored words is part of, e.g. the output of a hidden
Dense layer without activation.
---
 .../core/sparsity/keras/tools/check_sparsity_m_by_n.py      | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/tensorflow_model_optimization/python/core/sparsity/keras/tools/check_sparsity_m_by_n.py b/tensorflow_model_optimization/python/core/sparsity/keras/tools/check_sparsity_m_by_n.py
index 99bf274..ec542c1 100644
--- a/tensorflow_model_optimization/python/core/sparsity/keras/tools/check_sparsity_m_by_n.py
+++ b/tensorflow_model_optimization/python/core/sparsity/keras/tools/check_sparsity_m_by_n.py
@@ -76,7 +76,11 @@ def run(input_tflite_path, m_by_n_str):
   for detail in details:
     name = detail["name"]
     shape = detail["shape"]
-    weights = interpreter.tensor(detail["index"])()
+    try:
+      weights = interpreter.tensor(detail["index"])()
+    except ValueError:
+      # An intermediate tensor which holds no data, so not the weights of a layer.
+      continue
 
     weights_ts = tf.constant(weights)
     pruned_m_by_n = pruning_utils.is_pruned_m_by_n(weights_ts, m_by_n, "C_IN")
-- 
2.43.0


From c911dbe9b5d993c46886c3db3a1ef3cc984cb1b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:51:05 +0000
Subject: [PATCH 51/51] Revert "fix: check_sparsity_m_by_n reports the weights
 of models with intermediate tensors"

This reverts commit 6ccff97950ebe5dad238c84c4d189a212572c9dd.
---
 .../core/sparsity/keras/tools/check_sparsity_m_by_n.py      | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/tensorflow_model_optimization/python/core/sparsity/keras/tools/check_sparsity_m_by_n.py b/tensorflow_model_optimization/python/core/sparsity/keras/tools/check_sparsity_m_by_n.py
index ec542c1..99bf274 100644
--- a/tensorflow_model_optimization/python/core/sparsity/keras/tools/check_sparsity_m_by_n.py
+++ b/tensorflow_model_optimization/python/core/sparsity/keras/tools/check_sparsity_m_by_n.py
@@ -76,11 +76,7 @@ def run(input_tflite_path, m_by_n_str):
   for detail in details:
     name = detail["name"]
     shape = detail["shape"]
-    try:
-      weights = interpreter.tensor(detail["index"])()
-    except ValueError:
-      # An intermediate tensor which holds no data, so not the weights of a layer.
-      continue
+    weights = interpreter.tensor(detail["index"])()
 
     weights_ts = tf.constant(weights)
     pruned_m_by_n = pruning_utils.is_pruned_m_by_n(weights_ts, m_by_n, "C_IN")
-- 
2.43.0

