From 7cb7bd87a16acba0ab063bbd76a1290500667a83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:44 +0000
Subject: [PATCH 01/65] fix: PolynomialDecay reports NaN sparsity when
 begin_step equals end_step

---
 .../core/sparsity/keras/pruning_schedule.py   | 20 ++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/tensorflow_model_optimization/python/core/sparsity/keras/pruning_schedule.py b/tensorflow_model_optimization/python/core/sparsity/keras/pruning_schedule.py
index c9bc2ec..44dda65 100644
--- a/tensorflow_model_optimization/python/core/sparsity/keras/pruning_schedule.py
+++ b/tensorflow_model_optimization/python/core/sparsity/keras/pruning_schedule.py
@@ -228,13 +228,19 @@ class PolynomialDecay(PruningSchedule):
 
     # TODO(pulkitb): Replace function with tf.polynomial_decay
     with tf.name_scope('polynomial_decay_pruning_schedule'):
-      p = tf.math.minimum(
-          1.0,
-          tf.math.maximum(
-              0.0,
-              divide(
-                  tf.dtypes.cast(step - self.begin_step, tf.float32),
-                  self.end_step - self.begin_step)))
+      if self.end_step == self.begin_step:
+        # Empty decay window: go straight from the initial to the final
+        # sparsity instead of dividing by zero.
+        p = tf.dtypes.cast(tf.math.greater_equal(step, self.end_step),
+                           tf.float32)
+      else:
+        p = tf.math.minimum(
+            1.0,
+            tf.math.maximum(
+                0.0,
+                divide(
+                    tf.dtypes.cast(step - self.begin_step, tf.float32),
+                    self.end_step - self.begin_step)))
       sparsity = tf.math.add(
           tf.math.multiply(self.initial_sparsity - self.final_sparsity,
                            tf.math.pow(1 - p, self.power)),
-- 
2.43.0


From d5074b1cb118e5e44b781a7fce5d3bebc8934436 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:09 +0000
Subject: [PATCH 02/65] fix: PruneLowMagnitude config loses sparsity_m_by_n

---
 .../python/core/sparsity/keras/pruning_wrapper.py              | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tensorflow_model_optimization/python/core/sparsity/keras/pruning_wrapper.py b/tensorflow_model_optimization/python/core/sparsity/keras/pruning_wrapper.py
index 02fa34a..3963ee5 100644
--- a/tensorflow_model_optimization/python/core/sparsity/keras/pruning_wrapper.py
+++ b/tensorflow_model_optimization/python/core/sparsity/keras/pruning_wrapper.py
@@ -340,7 +340,8 @@ class PruneLowMagnitude(Wrapper):
     config = {
         'pruning_schedule': self.pruning_schedule.get_config(),
         'block_size': self.block_size,
-        'block_pooling_type': self.block_pooling_type
+        'block_pooling_type': self.block_pooling_type,
+        'sparsity_m_by_n': self.sparsity_m_by_n,
     }
     return dict(list(base_config.items()) + list(config.items()))
 
-- 
2.43.0


From 9674bb44ed436b073db67f8bb04474a7e2a1d115 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:36 +0000
Subject: [PATCH 03/65] fix: block pruning fails when blocks span a whole
 weight dimension

---
 .../python/core/sparsity/keras/pruning_impl.py      | 13 +++----------
 .../python/core/sparsity/keras/pruning_utils.py     |  3 ++-
 2 files changed, 5 insertions(+), 11 deletions(-)

diff --git a/tensorflow_model_optimization/python/core/sparsity/keras/pruning_impl.py b/tensorflow_model_optimization/python/core/sparsity/keras/pruning_impl.py
index f836f36..043536e 100644
--- a/tensorflow_model_optimization/python/core/sparsity/keras/pruning_impl.py
+++ b/tensorflow_model_optimization/python/core/sparsity/keras/pruning_impl.py
@@ -177,11 +177,7 @@ class Pruning(object):
     if self._block_size == [1, 1]:
       return self._update_mask(weights)
 
-    # TODO(pulkitb): Check if squeeze operations should now be removed since
-    # we are only accepting 2-D weights.
-
-    squeezed_weights = tf.squeeze(weights)
-    abs_weights = tf.math.abs(squeezed_weights)
+    abs_weights = tf.math.abs(weights)
     pooled_weights = pruning_utils.factorized_pool(
         abs_weights,
         window_shape=self._block_size,
@@ -189,16 +185,13 @@ class Pruning(object):
         strides=self._block_size,
         padding='SAME')
 
-    if pooled_weights.get_shape().ndims != 2:
-      pooled_weights = tf.squeeze(pooled_weights)
-
     new_threshold, new_mask = self._update_mask(pooled_weights)
 
     updated_mask = pruning_utils.expand_tensor(new_mask, self._block_size)
     sliced_mask = tf.slice(
         updated_mask, [0, 0],
-        [squeezed_weights.get_shape()[0],
-         squeezed_weights.get_shape()[1]])
+        [weights.get_shape()[0],
+         weights.get_shape()[1]])
     return new_threshold, tf.reshape(sliced_mask, tf.shape(weights))
 
   def _weight_assign_objs(self):
diff --git a/tensorflow_model_optimization/python/core/sparsity/keras/pruning_utils.py b/tensorflow_model_optimization/python/core/sparsity/keras/pruning_utils.py
index c92ff52..c5fa279 100644
--- a/tensorflow_model_optimization/python/core/sparsity/keras/pruning_utils.py
+++ b/tensorflow_model_optimization/python/core/sparsity/keras/pruning_utils.py
@@ -156,7 +156,8 @@ def factorized_pool(input_tensor,
         strides=[1, strides[1]],
         padding=padding)
 
-  return tf.squeeze(tf.transpose(width_pooling, perm=[0, 1, 3, 2]))
+  return tf.squeeze(
+      tf.transpose(width_pooling, perm=[0, 1, 3, 2]), axis=[0, 1])
 
 
 def convert_to_tuple_of_two_int(value, name):
-- 
2.43.0


From 295775737b25ce6ad9bca7f31455d786bb81c2d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:55 +0000
Subject: [PATCH 04/65] fix: block pruning ranks shifted windows when blocks do
 not divide the weight

---
 .../core/sparsity/keras/pruning_impl.py       | 23 ++++++++++++++-----
 1 file changed, 17 insertions(+), 6 deletions(-)

diff --git a/tensorflow_model_optimization/python/core/sparsity/keras/pruning_impl.py b/tensorflow_model_optimization/python/core/sparsity/keras/pruning_impl.py
index 043536e..28df5e0 100644
--- a/tensorflow_model_optimization/python/core/sparsity/keras/pruning_impl.py
+++ b/tensorflow_model_optimization/python/core/sparsity/keras/pruning_impl.py
@@ -177,13 +177,24 @@ class Pruning(object):
     if self._block_size == [1, 1]:
       return self._update_mask(weights)
 
+    # Blocks are anchored at the origin. Pad only at the far edges, since 'SAME'
+    # pooling may also pad at the near edges and pool over shifted windows.
+    paddings = [[0, -dim % block] for dim, block in zip(
+        weights.get_shape().as_list(), self._block_size)]
+
+    def pool(tensor):
+      return pruning_utils.factorized_pool(
+          tf.pad(tensor, paddings),
+          window_shape=self._block_size,
+          pooling_type=self._block_pooling_type,
+          strides=self._block_size,
+          padding='VALID')
+
     abs_weights = tf.math.abs(weights)
-    pooled_weights = pruning_utils.factorized_pool(
-        abs_weights,
-        window_shape=self._block_size,
-        pooling_type=self._block_pooling_type,
-        strides=self._block_size,
-        padding='SAME')
+    pooled_weights = pool(abs_weights)
+    if self._block_pooling_type == 'AVG':
+      # The padding does not count in the average of the partial blocks.
+      pooled_weights /= pool(tf.ones_like(abs_weights))
 
     new_threshold, new_mask = self._update_mask(pooled_weights)
 
-- 
2.43.0


From 67cef76ae5e916871094b15321fc6349144e0e09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:08 +0000
Subject: [PATCH 05/65] fix: FixedQuantizer ignores num_bits

---
 .../python/core/quantization/keras/quant_ops.py            | 7 +++++--
 .../python/core/quantization/keras/quantizers.py           | 1 +
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/tensorflow_model_optimization/python/core/quantization/keras/quant_ops.py b/tensorflow_model_optimization/python/core/quantization/keras/quant_ops.py
index 7a0c2f8..e0a3d35 100644
--- a/tensorflow_model_optimization/python/core/quantization/keras/quant_ops.py
+++ b/tensorflow_model_optimization/python/core/quantization/keras/quant_ops.py
@@ -24,7 +24,8 @@ from tensorflow_model_optimization.python.core.keras import compat as tf_compat
 
 
 def FixedQuantize(
-    inputs, init_min=-6.0, init_max=6.0, scope=None, narrow_range=False):
+    inputs, init_min=-6.0, init_max=6.0, scope=None, narrow_range=False,
+    num_bits=8):
   """Adds a fake quantize layer with fixed quantization interval.
 
   Args:
@@ -34,6 +35,7 @@ def FixedQuantize(
     scope: Optional scope for name_scope.
     narrow_range: Whether to use the narrow quantization range
       [1; 2^num_bits - 1] or wide range [0; 2^num_bits - 1].
+    num_bits: Number of bits to use for quantization.
   Returns:
     a tensor containing quantized values.
   """
@@ -42,7 +44,8 @@ def FixedQuantize(
 
   with tf.name_scope(scope):
     return tf.quantization.fake_quant_with_min_max_args(
-        inputs, min=init_min, max=init_max, narrow_range=narrow_range)
+        inputs, min=init_min, max=init_max, num_bits=num_bits,
+        narrow_range=narrow_range)
 
 
 def AllValuesQuantize(inputs,
diff --git a/tensorflow_model_optimization/python/core/quantization/keras/quantizers.py b/tensorflow_model_optimization/python/core/quantization/keras/quantizers.py
index a5a1f73..529fafb 100644
--- a/tensorflow_model_optimization/python/core/quantization/keras/quantizers.py
+++ b/tensorflow_model_optimization/python/core/quantization/keras/quantizers.py
@@ -413,6 +413,7 @@ class FixedQuantizer(_QuantizeHelper, Quantizer):
         self.init_min,
         self.init_max,
         narrow_range=self.narrow_range,
+        num_bits=self.num_bits,
     )
 
   def get_config(self):
-- 
2.43.0


From 3dec288d350458960fb158e82fc67de6fb546800 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:08 +0000
Subject: [PATCH 06/65] fix: quantize config equality ignores activation_attrs

---
 .../keras/default_8bit/default_8bit_quantize_registry.py        | 2 +-
 .../default_n_bit/default_n_bit_quantize_registry.py            | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/tensorflow_model_optimization/python/core/quantization/keras/default_8bit/default_8bit_quantize_registry.py b/tensorflow_model_optimization/python/core/quantization/keras/default_8bit/default_8bit_quantize_registry.py
index 244a6c0..2fe5027 100644
--- a/tensorflow_model_optimization/python/core/quantization/keras/default_8bit/default_8bit_quantize_registry.py
+++ b/tensorflow_model_optimization/python/core/quantization/keras/default_8bit/default_8bit_quantize_registry.py
@@ -366,7 +366,7 @@ class Default8BitQuantizeConfig(QuantizeConfig):
       return False
 
     return (self.weight_attrs == other.weight_attrs and
-            self.activation_attrs == self.activation_attrs and
+            self.activation_attrs == other.activation_attrs and
             self.weight_quantizer == other.weight_quantizer and
             self.activation_quantizer == other.activation_quantizer and
             self.quantize_output == other.quantize_output)
diff --git a/tensorflow_model_optimization/python/core/quantization/keras/experimental/default_n_bit/default_n_bit_quantize_registry.py b/tensorflow_model_optimization/python/core/quantization/keras/experimental/default_n_bit/default_n_bit_quantize_registry.py
index d33dc67..9c46c6f 100644
--- a/tensorflow_model_optimization/python/core/quantization/keras/experimental/default_n_bit/default_n_bit_quantize_registry.py
+++ b/tensorflow_model_optimization/python/core/quantization/keras/experimental/default_n_bit/default_n_bit_quantize_registry.py
@@ -406,7 +406,7 @@ class DefaultNBitQuantizeConfig(QuantizeConfig):
       return False
 
     return (self.weight_attrs == other.weight_attrs and
-            self.activation_attrs == self.activation_attrs and
+            self.activation_attrs == other.activation_attrs and
             self.weight_quantizer == other.weight_quantizer and
             self.activation_quantizer == other.activation_quantizer and
             self.quantize_output == other.quantize_output)
-- 
2.43.0


From bb4211d0a6f45b36e273316500ace69694e5eaa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:52 +0000
Subject: [PATCH 07/65] fix: MovingAverageQuantizer cannot be used with
 per_axis

---
 .../python/core/quantization/keras/quantizers.py                | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tensorflow_model_optimization/python/core/quantization/keras/quantizers.py b/tensorflow_model_optimization/python/core/quantization/keras/quantizers.py
index 529fafb..f70a14d 100644
--- a/tensorflow_model_optimization/python/core/quantization/keras/quantizers.py
+++ b/tensorflow_model_optimization/python/core/quantization/keras/quantizers.py
@@ -245,7 +245,7 @@ class MovingAverageQuantizer(_QuantizeHelper, Quantizer):
     self.narrow_range = narrow_range
 
   def build(self, tensor_shape, name, layer):
-    return self._add_range_weights(layer, name)
+    return self._add_range_weights(layer, name, self.per_axis, tensor_shape)
 
   def __call__(self, inputs, training, weights, **kwargs):
     """Quantize tensor.
-- 
2.43.0


From fa811a4555ee631ef1299694766d1c6f8f4d11d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:29 +0000
Subject: [PATCH 08/65] fix: QuantizeLayer creates its weights twice when
 rebuilt from JSON

---
 .../python/core/quantization/keras/quantize_layer.py             | 1 +
 1 file changed, 1 insertion(+)

diff --git a/tensorflow_model_optimization/python/core/quantization/keras/quantize_layer.py b/tensorflow_model_optimization/python/core/quantization/keras/quantize_layer.py
index 59df68c..6971c6f 100644
--- a/tensorflow_model_optimization/python/core/quantization/keras/quantize_layer.py
+++ b/tensorflow_model_optimization/python/core/quantization/keras/quantize_layer.py
@@ -64,6 +64,7 @@ class QuantizeLayer(keras.layers.Layer):
         dtype=tf.dtypes.int32,
         trainable=False,
     )
+    super(QuantizeLayer, self).build(input_shape)
 
   def call(self, inputs, training=None):
     if not self.quantizer:
-- 
2.43.0


From 4211137f95350220a439b99341671ce93fcaff5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:59 +0000
Subject: [PATCH 09/65] fix: quantized models cannot be reloaded from the
 native Keras format

---
 .../python/core/quantization/keras/quantize_wrapper.py         | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/tensorflow_model_optimization/python/core/quantization/keras/quantize_wrapper.py b/tensorflow_model_optimization/python/core/quantization/keras/quantize_wrapper.py
index 32a6e2d..06db86a 100644
--- a/tensorflow_model_optimization/python/core/quantization/keras/quantize_wrapper.py
+++ b/tensorflow_model_optimization/python/core/quantization/keras/quantize_wrapper.py
@@ -252,6 +252,9 @@ class QuantizeWrapper(keras.layers.Wrapper):
 class QuantizeWrapperV2(QuantizeWrapper):
 
   def build(self, input_shape):
+    if not self.layer.built:
+      self.layer.build(input_shape)
+      self.layer.built = True
     self._trainable_weights.extend(self.layer.trainable_weights)
     super(QuantizeWrapperV2, self).build(input_shape)
 
-- 
2.43.0


From 17072b6c081af9d670b3d0dffeb3c591e1b9421d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:28 +0000
Subject: [PATCH 10/65] fix: fix_input_output_range and remove_input_range drop
 the trained weights

---
 .../core/quantization/keras/quantize.py       | 29 +++++++++++++++----
 1 file changed, 23 insertions(+), 6 deletions(-)

diff --git a/tensorflow_model_optimization/python/core/quantization/keras/quantize.py b/tensorflow_model_optimization/python/core/quantization/keras/quantize.py
index b5e4337..1751612 100644
--- a/tensorflow_model_optimization/python/core/quantization/keras/quantize.py
+++ b/tensorflow_model_optimization/python/core/quantization/keras/quantize.py
@@ -560,6 +560,21 @@ def _nested_to_flatten_node_data_list(nested):
   raise ValueError('{} is not a supported nested node data.'.format(nested))
 
 
+def _copy_weights(source_model, target_model):
+  """Copies the weights that the same-named layers of both models share."""
+  for layer in target_model.layers:
+    source_layer = source_model.get_layer(layer.name)
+    if len(layer.weights) == len(source_layer.weights):
+      layer.set_weights(source_layer.get_weights())
+      continue
+    # Layers whose range got fixed have no range weights any more.
+    source_weights = {
+        weight.name.split('/')[-1]: weight for weight in source_layer.weights
+    }
+    for weight in layer.weights:
+      weight.assign(source_weights[weight.name.split('/')[-1]])
+
+
 def fix_input_output_range(
     model,
     num_bits=8,
@@ -641,7 +656,7 @@ def fix_input_output_range(
                     narrow_range=narrow_range))
           break
 
-    model = keras.Model.from_config(config)
+    new_model = keras.Model.from_config(config)
   else:
     if (len(config['layers']) < 1 or
         config['layers'][1]['class_name'] != 'QuantizeLayer'):
@@ -657,9 +672,10 @@ def fix_input_output_range(
               init_max=output_max,
               narrow_range=narrow_range))
 
-    model = keras.Sequential.from_config(config)
+    new_model = keras.Sequential.from_config(config)
 
-  return model
+  _copy_weights(model, new_model)
+  return new_model
 
 
 def _is_functional_model(model):
@@ -711,7 +727,7 @@ def remove_input_range(model):
           layer_config['config']['quantizer'] = serialized_input_quantizer
           break
 
-    model = keras.Model.from_config(config)
+    new_model = keras.Model.from_config(config)
   else:
     if (len(config['layers']) < 1 or
         config['layers'][1]['class_name'] != 'QuantizeLayer'):
@@ -719,6 +735,7 @@ def remove_input_range(model):
     config['layers'][1]['config'][
         'quantizer'] = serialized_input_quantizer
 
-    model = keras.Sequential.from_config(config)
+    new_model = keras.Sequential.from_config(config)
 
-  return model
+  _copy_weights(model, new_model)
+  return new_model
-- 
2.43.0


From ac3dcf6b80f2d58a81d631793b7c539e2a5b4c11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:23 +0000
Subject: [PATCH 11/65] fix: cluster_scope cannot deserialize clustered RNN
 layers

---
 .../python/core/clustering/keras/cluster.py                  | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/tensorflow_model_optimization/python/core/clustering/keras/cluster.py b/tensorflow_model_optimization/python/core/clustering/keras/cluster.py
index 4535a94..1b1c9a8 100644
--- a/tensorflow_model_optimization/python/core/clustering/keras/cluster.py
+++ b/tensorflow_model_optimization/python/core/clustering/keras/cluster.py
@@ -50,7 +50,10 @@ def cluster_scope():
     loaded_model = keras.models.load_model(keras_file)
   ```
   """
-  return CustomObjectScope({'ClusterWeights': cluster_wrapper.ClusterWeights})
+  return CustomObjectScope({
+      'ClusterWeights': cluster_wrapper.ClusterWeights,
+      'ClusterWeightsRNN': cluster_wrapper.ClusterWeightsRNN,
+  })
 
 
 def cluster_weights(
-- 
2.43.0


From bef9746f6eec2b52e6ddaa2d2436bdba74bc97bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:23 +0000
Subject: [PATCH 12/65] fix: strip_clustering misplaces weights clustered out
 of order

---
 .../python/core/clustering/keras/cluster.py                     | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tensorflow_model_optimization/python/core/clustering/keras/cluster.py b/tensorflow_model_optimization/python/core/clustering/keras/cluster.py
index 1b1c9a8..514a87a 100644
--- a/tensorflow_model_optimization/python/core/clustering/keras/cluster.py
+++ b/tensorflow_model_optimization/python/core/clustering/keras/cluster.py
@@ -358,7 +358,7 @@ def strip_clustering(model):
       # non-clusterable weights only
       updated_weights = layer.layer.get_weights()
       for (position_variable,
-           weight_name) in layer.position_original_weights.items():
+           weight_name) in sorted(layer.position_original_weights.items()):
         # Add the clustered weights at the correct position
         clustered_weight = layer.get_weight_from_layer(weight_name)
         updated_weights.insert(position_variable, clustered_weight)
-- 
2.43.0


From 2ab86de14e023f65741191834a86aef13381af47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:41 +0000
Subject: [PATCH 13/65] fix: clustered layers ignore training mode

---
 .../python/core/clustering/keras/cluster_wrapper.py         | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/tensorflow_model_optimization/python/core/clustering/keras/cluster_wrapper.py b/tensorflow_model_optimization/python/core/clustering/keras/cluster_wrapper.py
index 82c6346..c4c3c49 100644
--- a/tensorflow_model_optimization/python/core/clustering/keras/cluster_wrapper.py
+++ b/tensorflow_model_optimization/python/core/clustering/keras/cluster_wrapper.py
@@ -14,6 +14,7 @@
 # ==============================================================================
 """Keras ClusterWeights wrapper API."""
 
+import inspect
 import operator
 
 import tensorflow as tf
@@ -329,6 +330,11 @@ class ClusterWeights(Wrapper):
     # Update cluster associations in order to set the latest weights
     self.update_clustered_weights_associations()
 
+    # Propagate the training bool to the underlying layer if it accepts
+    # training as an arg.
+    if 'training' in inspect.getfullargspec(self.layer.call).args:
+      return self.layer.call(inputs, training=training, **kwargs)
+
     return self.layer.call(inputs, **kwargs)
 
   def compute_output_shape(self, input_shape):
-- 
2.43.0


From ae2b252d7772256b8e04b46b2a0a9ec0e4c354aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:11 +0000
Subject: [PATCH 14/65] fix: stripped MultiHeadAttention layers keep constant
 kernels

---
 .../python/core/clustering/keras/cluster_wrapper.py      | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/tensorflow_model_optimization/python/core/clustering/keras/cluster_wrapper.py b/tensorflow_model_optimization/python/core/clustering/keras/cluster_wrapper.py
index c4c3c49..46ec7d4 100644
--- a/tensorflow_model_optimization/python/core/clustering/keras/cluster_wrapper.py
+++ b/tensorflow_model_optimization/python/core/clustering/keras/cluster_wrapper.py
@@ -488,6 +488,13 @@ class ClusterWeightsMHA(ClusterWeights):
 
       # Re-assign these weights to the original
       original_weight.assign(clustered_weight)
-      setattr(self.layer, weight_name, original_weight)
+      self.set_weight_to_layer(weight_name, original_weight)
+
+      # Track the bias again, so that it still comes after the kernel.
+      sublayer = attrgetter(weight_name.rpartition('.')[0])(self.layer)
+      if getattr(sublayer, 'bias', None) is not None:
+        bias = sublayer.bias
+        sublayer.bias = None
+        sublayer.bias = bias
 
     return self.layer
-- 
2.43.0


From 7e1eb1553905a56255e1790b12a287114e7510fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:19 +0000
Subject: [PATCH 15/65] fix: sparsity-preserving clustered models lose their
 sparsity pattern when reloaded

---
 .../core/clustering/keras/cluster_wrapper.py  | 21 +++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/tensorflow_model_optimization/python/core/clustering/keras/cluster_wrapper.py b/tensorflow_model_optimization/python/core/clustering/keras/cluster_wrapper.py
index 46ec7d4..1d1b768 100644
--- a/tensorflow_model_optimization/python/core/clustering/keras/cluster_wrapper.py
+++ b/tensorflow_model_optimization/python/core/clustering/keras/cluster_wrapper.py
@@ -269,12 +269,29 @@ class ClusterWeights(Wrapper):
         clustered_weights = (
             self.clustering_algorithms[weight_name].get_clustered_weight(
                 pulling_indices, original_weight))
-        self.sparsity_masks[weight_name] = (
+        sparsity_mask = (
             tf.cast(tf.math.not_equal(clustered_weights, 0), dtype=tf.float32))
         # If the model is pruned (which we suppose), this is approximately zero
-        self.zero_idx[weight_name] = tf.argmin(
+        zero_idx = tf.argmin(
             tf.abs(self.cluster_centroids[weight_name]), axis=-1)
 
+        # Both are saved with the model, since they cannot be recovered from
+        # the weights once the layer is rebuilt.
+        self.sparsity_masks[weight_name] = self.add_weight(
+            '{}{}'.format('sparsity_mask_', weight_name),
+            shape=sparsity_mask.shape,
+            dtype=tf.float32,
+            trainable=False,
+            initializer=keras.initializers.Constant(value=sparsity_mask),
+        )
+        self.zero_idx[weight_name] = self.add_weight(
+            '{}{}'.format('zero_idx_', weight_name),
+            shape=zero_idx.shape,
+            dtype=tf.int64,
+            trainable=False,
+            initializer=keras.initializers.Constant(value=zero_idx),
+        )
+
   def update_clustered_weights_associations(self):
     for weight_name, original_weight in self.original_clusterable_weights.items(
     ):
-- 
2.43.0


From 766cf18fa5955d4a3549d697c9a322a8970c2e9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:34 +0000
Subject: [PATCH 16/65] fix: partially commuting GatherEncoder claims to fully
 commute with sum

---
 .../python/core/internal/tensor_encoding/core/gather_encoder.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tensorflow_model_optimization/python/core/internal/tensor_encoding/core/gather_encoder.py b/tensorflow_model_optimization/python/core/internal/tensor_encoding/core/gather_encoder.py
index 38b8b2d..1ce8730 100644
--- a/tensorflow_model_optimization/python/core/internal/tensor_encoding/core/gather_encoder.py
+++ b/tensorflow_model_optimization/python/core/internal/tensor_encoding/core/gather_encoder.py
@@ -370,7 +370,7 @@ class GatherEncoder:
   @property
   def fully_commutes_with_sum(self):
     # If any element is not True, the whole thing does not fully commute.
-    return sum(tf.nest.flatten(self._commuting_structure))
+    return all(tf.nest.flatten(self._commuting_structure))
 
   @property
   def state_update_aggregation_modes(self):
-- 
2.43.0


From 2e96b3d424d4ed2404969f27df11f41647c0c24c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:00 +0000
Subject: [PATCH 17/65] fix: random_signs may return zero signs

---
 .../core/internal/tensor_encoding/utils/tf_utils.py  | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/tensorflow_model_optimization/python/core/internal/tensor_encoding/utils/tf_utils.py b/tensorflow_model_optimization/python/core/internal/tensor_encoding/utils/tf_utils.py
index bf58eb8..2b6fdcc 100644
--- a/tensorflow_model_optimization/python/core/internal/tensor_encoding/utils/tf_utils.py
+++ b/tensorflow_model_optimization/python/core/internal/tensor_encoding/utils/tf_utils.py
@@ -223,6 +223,11 @@ def _cmwc_random_sequence(num_elements, seed):
   return  values
 
 
+def _signs_from_floats(values, dtype):
+  """Maps values in [0, 1) to -1 or +1, never to 0."""
+  return tf.cast(tf.where(values < 0.5, -1, 1), dtype)
+
+
 def random_signs(num_elements, seed, dtype=tf.float32):
   """Returns a Tensor of `num_elements` random +1/-1 values as `dtype`.
 
@@ -241,8 +246,8 @@ def random_signs(num_elements, seed, dtype=tf.float32):
   Returns:
     A Tensor of `num_elements` random +1/-1 values as `dtype`.
   """
-  return tf.cast(
-      tf.sign(tf.random.stateless_uniform([num_elements], seed) - 0.5), dtype)
+  return _signs_from_floats(
+      tf.random.stateless_uniform([num_elements], seed), dtype)
 
 
 def random_floats(num_elements, seed, dtype=tf.float32):
@@ -271,8 +276,7 @@ def random_floats(num_elements, seed, dtype=tf.float32):
 
 def random_signs_cmwc(num_elements, seed, dtype=tf.float32):
   """Returns a Tensor of `num_elements` random +1/-1 values as `dtype`."""
-  return tf.cast(
-      tf.sign(_cmwc_random_sequence(num_elements, seed) - 0.5), dtype)
+  return _signs_from_floats(_cmwc_random_sequence(num_elements, seed), dtype)
 
 
 def random_floats_cmwc(num_elements, seed, dtype=tf.float32):
-- 
2.43.0


From 107f299ecb7e0cacf0230d16bdfb8b10902ad7e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:28 +0000
Subject: [PATCH 18/65] fix: one dense layer disables sparsity preservation of
 all layers in PCQAT

---
 .../cluster_preserve_quantize_registry.py           | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/tensorflow_model_optimization/python/core/quantization/keras/collab_opts/cluster_preserve/cluster_preserve_quantize_registry.py b/tensorflow_model_optimization/python/core/quantization/keras/collab_opts/cluster_preserve/cluster_preserve_quantize_registry.py
index ff2381f..8901496 100644
--- a/tensorflow_model_optimization/python/core/quantization/keras/collab_opts/cluster_preserve/cluster_preserve_quantize_registry.py
+++ b/tensorflow_model_optimization/python/core/quantization/keras/collab_opts/cluster_preserve/cluster_preserve_quantize_registry.py
@@ -344,8 +344,11 @@ class ClusterPreserveDefaultWeightsQuantizer(quantizers.LastValueQuantizer):
     """
     result = {}
     weights = getattr(layer.layer, name)
-    if self.preserve_sparsity and not tf.reduce_any(weights == 0):
-      self.preserve_sparsity = False
+    # The quantizer is shared by several layers, so that this must only affect
+    # the current one.
+    preserve_sparsity = self.preserve_sparsity
+    if preserve_sparsity and not tf.reduce_any(weights == 0):
+      preserve_sparsity = False
       logging.warning(
           'Input layer does not contain zero weights, so apply CQAT instead.')
     centroids_mask = None
@@ -355,7 +358,7 @@ class ClusterPreserveDefaultWeightsQuantizer(quantizers.LastValueQuantizer):
     centroids, num_centroids, lookup, cluster_per_channel = get_centroids(
         layer, weights, data_format)
 
-    if self.preserve_sparsity:
+    if preserve_sparsity:
       sparsity_mask = tf.math.divide_no_nan(weights, weights)
       zero_idx = tf.argmin(tf.abs(centroids), axis=-1)
       centroids_mask = 1.0 - tf.one_hot(zero_idx, num_centroids)
@@ -467,7 +470,7 @@ class ClusterPreserveDefaultWeightsQuantizer(quantizers.LastValueQuantizer):
     """
     if training:
       if CLUSTER_CENTROIDS in weights:
-        if self.preserve_sparsity:
+        if SPARSITY_MASK in weights:
           weights[ORIGINAL_WEIGHTS].assign(
               tf.multiply(weights[ORIGINAL_WEIGHTS],
                           weights[SPARSITY_MASK]))
@@ -489,7 +492,7 @@ class ClusterPreserveDefaultWeightsQuantizer(quantizers.LastValueQuantizer):
             weights[PULLING_INDICES], weights[ORIGINAL_WEIGHTS])
         inputs.assign(output)
       else:
-        if self.preserve_sparsity:
+        if SPARSITY_MASK in weights:
           inputs = tf.multiply(inputs, weights[SPARSITY_MASK])
         output = inputs
     else:
-- 
2.43.0


From 4a0a158089e7384369017d1b74c6ae36b8e8f9fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:22 +0000
Subject: [PATCH 19/65] fix: weight compression loses the weights of layers it
 does not compress

Only Conv2D and Dense layers with a bias were carried over; every other layer
(BatchNormalization, DepthwiseConv2D, ...) came back freshly initialised, and
layers without a bias failed.
---
 .../keras/compression/algorithms/bias_only.py |  4 +-
 .../keras/compression/internal/optimize.py    | 55 ++++++++-----------
 2 files changed, 27 insertions(+), 32 deletions(-)

diff --git a/tensorflow_model_optimization/python/core/common/keras/compression/algorithms/bias_only.py b/tensorflow_model_optimization/python/core/common/keras/compression/algorithms/bias_only.py
index 792966f..39d7fd2 100644
--- a/tensorflow_model_optimization/python/core/common/keras/compression/algorithms/bias_only.py
+++ b/tensorflow_model_optimization/python/core/common/keras/compression/algorithms/bias_only.py
@@ -65,7 +65,9 @@ class BiasOnly(algorithm.WeightCompressor):
     if isinstance(original_layer, keras.layers.Conv2D) or isinstance(
         original_layer, keras.layers.Dense
     ):
-      return [original_layer.bias]
+      # `bias` is None for layers with `use_bias=False`.
+      if original_layer.bias is not None:
+        return [original_layer.bias]
     return []
 
   def compress_model(self, to_optimize: keras.Model) -> keras.Model:
diff --git a/tensorflow_model_optimization/python/core/common/keras/compression/internal/optimize.py b/tensorflow_model_optimization/python/core/common/keras/compression/internal/optimize.py
index 7c916f6..92dbad5 100644
--- a/tensorflow_model_optimization/python/core/common/keras/compression/internal/optimize.py
+++ b/tensorflow_model_optimization/python/core/common/keras/compression/internal/optimize.py
@@ -277,25 +277,22 @@ def _map_to_training_weights(
   # TODO(tfmot): see if Keras can introduce changes to simplify this.
   original_weights = []
   training_weights = []
-  if isinstance(layer, keras.layers.Conv2D) or isinstance(
-      layer, keras.layers.Dense
-  ):
-    for weight in layer.weights:
-      if _find(weight, compressible_weights):
-        algorithm.weight_reprs = []
-        algorithm.init_training_weights(weight)
-        for weight_repr in algorithm.weight_reprs:
-          # Assumes initializer is keras.initializers.Constant.
-          # TODO(tfmot): add check for this assumption.
-          # TODO(tfmot): the documentation for
-          # keras.initializers.Constant(value)
-          # suggests that the `value` cannot be any arbitrary shape and
-          # only a single scalar value. It works in this implementation
-          # to make `value` any tensor - check this.
-          training_weights.append(weight_repr.kwargs['initializer'](
-              shape=None, dtype=weight_repr.kwargs['dtype']))
-      else:
-        original_weights.append(weight)
+  for weight in layer.weights:
+    if _find(weight, compressible_weights):
+      algorithm.weight_reprs = []
+      algorithm.init_training_weights(weight)
+      for weight_repr in algorithm.weight_reprs:
+        # Assumes initializer is keras.initializers.Constant.
+        # TODO(tfmot): add check for this assumption.
+        # TODO(tfmot): the documentation for
+        # keras.initializers.Constant(value)
+        # suggests that the `value` cannot be any arbitrary shape and
+        # only a single scalar value. It works in this implementation
+        # to make `value` any tensor - check this.
+        training_weights.append(weight_repr.kwargs['initializer'](
+            shape=None, dtype=weight_repr.kwargs['dtype']))
+    else:
+      original_weights.append(weight)
 
   return training_weights + original_weights
 
@@ -324,19 +321,15 @@ def _map_to_inference_weights(training_weights, algorithm, training_tensors):
       [kernel_var1, kernel_var2]), bias]
   """
 
+  # The wrapper's own weights come first, followed by the weights of the nested
+  # layer that are not compressed.
   compressed_weights = []
-  weights = ['kernel', 'bias']
   layer_weights_i = 0
-  for weight in weights:
-    if weight in training_tensors:
-      compressed = algorithm.compress_training_weights(
-          *training_tensors[weight])
-      for c in compressed:
-        compressed_weights.append(c.numpy())
-      layer_weights_i += len(training_tensors[weight])
-    else:
-      compressed_weights.append(training_weights[layer_weights_i])
-      layer_weights_i += 1
+  for tensors in training_tensors.values():
+    for c in algorithm.compress_training_weights(*tensors):
+      compressed_weights.append(c.numpy())
+    layer_weights_i += len(tensors)
+  compressed_weights.extend(training_weights[layer_weights_i:])
   return compressed_weights
 
 
@@ -401,7 +394,7 @@ def create_layer_for_training(layer, algorithm):
       algorithm,
       compressible_weights_name)
 
-  if compressible_weights:
+  if layer.weights:
     # Set pretrained weight values.
     wrapped_layer.build(input_shape)
     # Clear `_build_input_shape` so that `build()` is not immediately called
-- 
2.43.0


From 4664b49a36078eaa42bbebbd5d6d599e83b51053 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:24 +0000
Subject: [PATCH 20/65] fix: weight compression wrappers ignore training mode

---
 .../common/keras/compression/internal/optimize.py | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/tensorflow_model_optimization/python/core/common/keras/compression/internal/optimize.py b/tensorflow_model_optimization/python/core/common/keras/compression/internal/optimize.py
index 92dbad5..4bb58db 100644
--- a/tensorflow_model_optimization/python/core/common/keras/compression/internal/optimize.py
+++ b/tensorflow_model_optimization/python/core/common/keras/compression/internal/optimize.py
@@ -13,6 +13,7 @@
 # limitations under the License.
 # ==============================================================================
 """Internal APIs and core implementation of weight compression API."""
+import inspect
 from typing import List, Mapping
 
 import tensorflow as tf
@@ -38,6 +39,13 @@ def _prevent_constant_folding(tensor, dummy_inputs):
   return outputs
 
 
+def _call_layer(layer, inputs, training):
+  """Calls `layer`, in the given mode if its behavior depends on it."""
+  if 'training' in inspect.getfullargspec(layer.call).args:
+    return layer.call(inputs, training=training)
+  return layer.call(inputs)
+
+
 class _TrainingWrapper(keras.layers.Wrapper):
   """Represent modifications to training graph for weight compression."""
 
@@ -134,7 +142,7 @@ class _TrainingWrapper(keras.layers.Wrapper):
       if name:
         self.attr_name_map[attr_name] = name
 
-  def call(self, inputs):
+  def call(self, inputs, training=None):
     for attr_name, name in self.attr_name_map.items():
       # TODO(tfmot): move constant folding prevention to the inference graph
       # only, since constant folding won't happen during training.
@@ -155,7 +163,7 @@ class _TrainingWrapper(keras.layers.Wrapper):
     # This assumes that all changes to the forward pass happen "prior" to
     # the nested layer's portion of the forward pass. This suffices since
     # the scope of this API is to only optimize the weights.
-    return self.layer.call(inputs)
+    return _call_layer(self.layer, inputs, training)
 
 
 # TODO(tfmot): deduplicate code with _TrainingWrapper.
@@ -242,8 +250,7 @@ class _InferenceWrapper(keras.layers.Wrapper):
           *compressed_weight_tensors)
       setattr(self.layer, attr_name, weight_tensor)
 
-    # TODO(tfmot): handle training arg if needed given this is inference only.
-    return self.layer.call(inputs)
+    return _call_layer(self.layer, inputs, training)
 
 
 def _find(value, items):
-- 
2.43.0


From 47ccccd3df3f2f2ffe33c19241afa8555d078108 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:33 +0000
Subject: [PATCH 21/65] fix: evaluating a model in compression training changes
 its weights

---
 .../python/core/common/keras/compression/algorithm.py     | 8 ++++++--
 .../core/common/keras/compression/internal/optimize.py    | 2 +-
 2 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/tensorflow_model_optimization/python/core/common/keras/compression/algorithm.py b/tensorflow_model_optimization/python/core/common/keras/compression/algorithm.py
index 3707116..fc32c1b 100644
--- a/tensorflow_model_optimization/python/core/common/keras/compression/algorithm.py
+++ b/tensorflow_model_optimization/python/core/common/keras/compression/algorithm.py
@@ -39,6 +39,7 @@ class WeightCompressor(metaclass=abc.ABCMeta):
      This interface is a purely functional one.
   """
   update_ops = []  # type: List
+  skip_updates = False
 
   # TODO(tfmot): Consider separate from algorithm API for custom layer supports.
   def get_compressible_weights(
@@ -106,8 +107,10 @@ class WeightCompressor(metaclass=abc.ABCMeta):
        tf.Tensor to set the compressible weight to.
     """
 
-  def init_update_ops(self, tensor_weight_pairs):
+  def init_update_ops(self, tensor_weight_pairs, training=None):
     self.update_ops = []
+    # Inference must not modify the training weights.
+    self.skip_updates = isinstance(training, (bool, int)) and not training
     self.tensor_weight_pairs = tensor_weight_pairs
 
   def update_training_weight(
@@ -131,7 +134,8 @@ class WeightCompressor(metaclass=abc.ABCMeta):
     """
     for tensor, weight in self.tensor_weight_pairs:
       if training_weight is tensor:
-        self.update_ops.append(weight.assign(value))
+        if not self.skip_updates:
+          self.update_ops.append(weight.assign(value))
         return
 
     raise ValueError('Training weight not found. Please call '
diff --git a/tensorflow_model_optimization/python/core/common/keras/compression/internal/optimize.py b/tensorflow_model_optimization/python/core/common/keras/compression/internal/optimize.py
index 4bb58db..3f89467 100644
--- a/tensorflow_model_optimization/python/core/common/keras/compression/internal/optimize.py
+++ b/tensorflow_model_optimization/python/core/common/keras/compression/internal/optimize.py
@@ -153,7 +153,7 @@ class _TrainingWrapper(keras.layers.Wrapper):
         training_weight_tensors.append(tensor)
         tensor_weight_pairs.append((tensor, v))
 
-      self.algorithm.init_update_ops(tensor_weight_pairs)
+      self.algorithm.init_update_ops(tensor_weight_pairs, training)
       weight_tensor = self.algorithm.project_training_weights(
           *training_weight_tensors)
       # TODO(tfmot): Needs to check when this update is happen.
-- 
2.43.0


From 051709672769e06f548663406d397557a44d8584 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:02 +0000
Subject: [PATCH 22/65] fix: check_sparsity_m_by_n fails on models with
 delegated intermediate tensors

---
 .../core/sparsity/keras/tools/check_sparsity_m_by_n.py      | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/tensorflow_model_optimization/python/core/sparsity/keras/tools/check_sparsity_m_by_n.py b/tensorflow_model_optimization/python/core/sparsity/keras/tools/check_sparsity_m_by_n.py
index 99bf274..5709b94 100644
--- a/tensorflow_model_optimization/python/core/sparsity/keras/tools/check_sparsity_m_by_n.py
+++ b/tensorflow_model_optimization/python/core/sparsity/keras/tools/check_sparsity_m_by_n.py
@@ -66,7 +66,11 @@ def run(input_tflite_path, m_by_n_str):
   # convert first 2 value string to a tuple of 2 value
   m_by_n = tuple(map(int, m_by_n_str[:2]))
 
-  interpreter = tf.lite.Interpreter(model_path=input_tflite_path)
+  # With the default delegates, intermediate tensors may have no data to read.
+  interpreter = tf.lite.Interpreter(
+      model_path=input_tflite_path,
+      experimental_op_resolver_type=tf.lite.experimental.OpResolverType
+      .BUILTIN_WITHOUT_DEFAULT_DELEGATES)
   interpreter.allocate_tensors()
 
   details = interpreter.get_tensor_details()
-- 
2.43.0


From c58643d94da2c6cb5dcb05b837a25400c17ffb44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:28 +0000
Subject: [PATCH 23/65] fix: pruned recurrent layers cannot be rebuilt from
 JSON and native Keras files

---
 .../python/core/sparsity/keras/pruning_wrapper.py            | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/tensorflow_model_optimization/python/core/sparsity/keras/pruning_wrapper.py b/tensorflow_model_optimization/python/core/sparsity/keras/pruning_wrapper.py
index 3963ee5..e1ac5fe 100644
--- a/tensorflow_model_optimization/python/core/sparsity/keras/pruning_wrapper.py
+++ b/tensorflow_model_optimization/python/core/sparsity/keras/pruning_wrapper.py
@@ -225,6 +225,11 @@ class PruneLowMagnitude(Wrapper):
         layer.__class__.__name__)
 
   def build(self, input_shape):
+    # A layer rebuilt from its configuration gets its input shape as a list,
+    # which recurrent layers take for a list of shapes.
+    if isinstance(input_shape, list) and all(
+        dim is None or isinstance(dim, int) for dim in input_shape):
+      input_shape = tuple(input_shape)
     super(PruneLowMagnitude, self).build(input_shape)
 
     weight_vars, mask_vars, threshold_vars = [], [], []
-- 
2.43.0


From bbc69989f82b71e5b3a985e6e061f16ff7977c8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:28 +0000
Subject: [PATCH 24/65] fix: models with several pruned weights in one layer
 cannot be saved to HDF5

---
 .../python/core/sparsity/keras/pruning_wrapper.py         | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/tensorflow_model_optimization/python/core/sparsity/keras/pruning_wrapper.py b/tensorflow_model_optimization/python/core/sparsity/keras/pruning_wrapper.py
index e1ac5fe..46f59ee 100644
--- a/tensorflow_model_optimization/python/core/sparsity/keras/pruning_wrapper.py
+++ b/tensorflow_model_optimization/python/core/sparsity/keras/pruning_wrapper.py
@@ -237,7 +237,9 @@ class PruneLowMagnitude(Wrapper):
     self.prunable_weights = self.layer.get_prunable_weights()
 
     # For each of the prunable weights, add mask and threshold variables
-    for weight in self.prunable_weights:
+    for i, weight in enumerate(self.prunable_weights):
+      # HDF5 files need distinct names for the variables of a layer.
+      suffix = f'_{i}' if i else ''
       # Under a mixed precision policy, variables report their "cast" dtype.
       # However, we want to use the original dtype for mask and threshold.
       if hasattr(weight, 'true_dtype'):
@@ -245,7 +247,7 @@ class PruneLowMagnitude(Wrapper):
       else:
         dtype = weight.dtype
       mask = self.add_weight(
-          'mask',
+          'mask' + suffix,
           shape=weight.shape,
           initializer=keras.initializers.get('ones'),
           dtype=dtype,
@@ -253,7 +255,7 @@ class PruneLowMagnitude(Wrapper):
           aggregation=tf.VariableAggregation.MEAN,
       )
       threshold = self.add_weight(
-          'threshold',
+          'threshold' + suffix,
           shape=[],
           initializer=keras.initializers.get('zeros'),
           dtype=dtype,
-- 
2.43.0


From 24202dcc83a98a73e626833fc79e69216c02cc2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:46 +0000
Subject: [PATCH 25/65] fix: pruned MultiHeadAttention layers cannot be cloned,
 saved or reloaded

---
 .../python/core/sparsity/keras/prune_registry.py     | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/tensorflow_model_optimization/python/core/sparsity/keras/prune_registry.py b/tensorflow_model_optimization/python/core/sparsity/keras/prune_registry.py
index b3dd74b..15495d2 100644
--- a/tensorflow_model_optimization/python/core/sparsity/keras/prune_registry.py
+++ b/tensorflow_model_optimization/python/core/sparsity/keras/prune_registry.py
@@ -239,6 +239,18 @@ class PruneRegistry(object):
         pre, _, post = weight_name.rpartition('.')
         return getattr(getattr(layer, pre), post)
 
+      # A layer rebuilt from its configuration knows the shapes of its inputs
+      # but only builds its projections when it is called.
+      output_shape = (
+          list(layer._query_shape)[:-1] + [layer._num_heads, layer._value_dim])
+      for dense, input_shape in [(layer._query_dense, layer._query_shape),
+                                 (layer._key_dense, layer._key_shape),
+                                 (layer._value_dense, layer._value_shape),
+                                 (layer._output_dense, output_shape)]:
+        if not dense.built:
+          with tf.name_scope(f'{layer.name}/{dense.name}'):
+            dense.build(tf.TensorShape(input_shape))
+
       prunable_weights = []
       for weight_name in cls._weight_names(layer):
         prunable_weights.append(get_prunable_weights_mha_weight(weight_name))
-- 
2.43.0


From 02f46e2b9888d9e8bce5ef48e92b2c8077d6a152 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:28 +0000
Subject: [PATCH 26/65] fix: pruning a model drops or trips over Keras masks

---
 .../python/core/sparsity/keras/pruning_wrapper.py  | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/tensorflow_model_optimization/python/core/sparsity/keras/pruning_wrapper.py b/tensorflow_model_optimization/python/core/sparsity/keras/pruning_wrapper.py
index 46f59ee..66502b1 100644
--- a/tensorflow_model_optimization/python/core/sparsity/keras/pruning_wrapper.py
+++ b/tensorflow_model_optimization/python/core/sparsity/keras/pruning_wrapper.py
@@ -196,6 +196,7 @@ class PruneLowMagnitude(Wrapper):
           '{input}'.format(input=layer.__class__))
 
     self._track_trackable(layer, name='layer')
+    self.supports_masking = layer.supports_masking
 
     # TODO(yunluli): Work-around to handle the first layer of Sequential model
     # properly. Can remove this when it is implemented in the Wrapper base
@@ -329,9 +330,15 @@ class PruneLowMagnitude(Wrapper):
     # TODO(evcu) remove this check after dropping py2 support. In py3 getargspec
     # is deprecated.
     if hasattr(inspect, 'getfullargspec'):
-      args = inspect.getfullargspec(self.layer.call).args
+      argspec = inspect.getfullargspec(self.layer.call)
+      args, accepts_kwargs = argspec.args, argspec.varkw is not None
     else:
-      args = inspect.getargspec(self.layer.call).args
+      argspec = inspect.getargspec(self.layer.call)
+      args, accepts_kwargs = argspec.args, argspec.keywords is not None
+    # Keras passes the mask of the inputs to every layer whose `call` has
+    # keyword arguments; the underlying layer may not take it.
+    if 'mask' not in args and not accepts_kwargs:
+      kwargs.pop('mask', None)
     # Propagate the training bool to the underlying layer if it accepts
     # training as an arg.
     if 'training' in args:
@@ -342,6 +349,9 @@ class PruneLowMagnitude(Wrapper):
   def compute_output_shape(self, input_shape):
     return self.layer.compute_output_shape(input_shape)
 
+  def compute_mask(self, inputs, mask=None):
+    return self.layer.compute_mask(inputs, mask)
+
   def get_config(self):
     base_config = super(PruneLowMagnitude, self).get_config()
     config = {
-- 
2.43.0


From f5e346d3695213da2bd3c2ce8983e12c7bd66405 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:06 +0000
Subject: [PATCH 27/65] fix: per-channel clustering skips Conv2D layers without
 bias

layer_has_enough_weights_to_cluster looked up the number of channels as the
size of trainable_weights[-1], which is the bias only if there is one; for a
layer without bias it is the whole kernel, so one weight per channel was
counted and the layer silently left unclustered.
---
 .../python/core/clustering/keras/cluster.py                     | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tensorflow_model_optimization/python/core/clustering/keras/cluster.py b/tensorflow_model_optimization/python/core/clustering/keras/cluster.py
index 514a87a..c05ce51 100644
--- a/tensorflow_model_optimization/python/core/clustering/keras/cluster.py
+++ b/tensorflow_model_optimization/python/core/clustering/keras/cluster.py
@@ -398,7 +398,7 @@ def layer_has_enough_weights_to_cluster(layer, number_of_clusters,
 
   number_of_layer_weights = tf.cast(tf.size(getattr(layer, 'kernel')), tf.int32)
   channel_idx = 1 if layer.data_format == 'channels_first' else -1
-  number_of_channels = tf.size(layer.trainable_weights[channel_idx])
+  number_of_channels = layer.kernel.shape[channel_idx]
 
   if cluster_per_channel:
     weights_to_cluster = number_of_layer_weights / number_of_channels
-- 
2.43.0


From 16c8ea5b5a9ce58f5e9a09dec0f07ee96764c922 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:47 +0000
Subject: [PATCH 28/65] fix: clustering a model drops or trips over Keras masks

---
 .../python/core/clustering/keras/cluster_wrapper.py  | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/tensorflow_model_optimization/python/core/clustering/keras/cluster_wrapper.py b/tensorflow_model_optimization/python/core/clustering/keras/cluster_wrapper.py
index 1d1b768..3ec88ea 100644
--- a/tensorflow_model_optimization/python/core/clustering/keras/cluster_wrapper.py
+++ b/tensorflow_model_optimization/python/core/clustering/keras/cluster_wrapper.py
@@ -98,6 +98,7 @@ class ClusterWeights(Wrapper):
               limit_number_of_clusters, number_of_clusters))
 
     self._track_trackable(layer, name='layer')
+    self.supports_masking = layer.supports_masking
 
     # The way how cluster centroids will be initialized
     self.cluster_centroids_init = cluster_centroids_init
@@ -347,9 +348,15 @@ class ClusterWeights(Wrapper):
     # Update cluster associations in order to set the latest weights
     self.update_clustered_weights_associations()
 
+    argspec = inspect.getfullargspec(self.layer.call)
+    # Keras passes the mask of the inputs to every layer whose `call` has
+    # keyword arguments; the underlying layer may not take it.
+    if 'mask' not in argspec.args and argspec.varkw is None:
+      kwargs.pop('mask', None)
+
     # Propagate the training bool to the underlying layer if it accepts
     # training as an arg.
-    if 'training' in inspect.getfullargspec(self.layer.call).args:
+    if 'training' in argspec.args:
       return self.layer.call(inputs, training=training, **kwargs)
 
     return self.layer.call(inputs, **kwargs)
@@ -357,6 +364,9 @@ class ClusterWeights(Wrapper):
   def compute_output_shape(self, input_shape):
     return self.layer.compute_output_shape(input_shape)
 
+  def compute_mask(self, inputs, mask=None):
+    return self.layer.compute_mask(inputs, mask)
+
   def get_config(self):
     base_config = super(ClusterWeights, self).get_config()
     config = {
-- 
2.43.0


From a36bf99660ffaceca3ee01288e15c9f929932a0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:24 +0000
Subject: [PATCH 29/65] fix: sparsity-preserving per-channel clustering fails
 on all-zero channels

---
 .../python/core/clustering/keras/clustering_centroids.py    | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/tensorflow_model_optimization/python/core/clustering/keras/clustering_centroids.py b/tensorflow_model_optimization/python/core/clustering/keras/clustering_centroids.py
index b71f86f..3d6cf8c 100644
--- a/tensorflow_model_optimization/python/core/clustering/keras/clustering_centroids.py
+++ b/tensorflow_model_optimization/python/core/clustering/keras/clustering_centroids.py
@@ -184,6 +184,12 @@ class AbstractCentroidsInitialisation:
 
       zero_centroids = self._zero_centroid_initialization(channel_weights)
 
+      # A channel with no non-zero weights has the zero-centroid only: pad it,
+      # so that all the channels have the same number of centroids
+      zero_centroids = tf.pad(
+          zero_centroids,
+          [[0, self.number_of_clusters - tf.size(zero_centroids)]])
+
       # Put all the centroids together: negative, zero, positive
       channel_centroids.append(zero_centroids)
 
-- 
2.43.0


From 1778ce23ed2097f411eddd3c76c03a5280fe8f60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:08 +0000
Subject: [PATCH 30/65] fix: clustered recurrent layers cannot be reloaded from
 native Keras files

---
 .../python/core/clustering/keras/cluster_wrapper.py          | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/tensorflow_model_optimization/python/core/clustering/keras/cluster_wrapper.py b/tensorflow_model_optimization/python/core/clustering/keras/cluster_wrapper.py
index 3ec88ea..356d82d 100644
--- a/tensorflow_model_optimization/python/core/clustering/keras/cluster_wrapper.py
+++ b/tensorflow_model_optimization/python/core/clustering/keras/cluster_wrapper.py
@@ -183,6 +183,11 @@ class ClusterWeights(Wrapper):
     setattr(self.layer, weight_name, new_weight)
 
   def build(self, input_shape):
+    # A layer rebuilt from its configuration gets its input shape as a list,
+    # which recurrent layers take for a list of shapes.
+    if isinstance(input_shape, list) and all(
+        dim is None or isinstance(dim, int) for dim in input_shape):
+      input_shape = tuple(input_shape)
     super(ClusterWeights, self).build(input_shape)
     self.build_input_shape = input_shape
 
-- 
2.43.0


From c2bc8dd97c1a8483048c6ad4c3b0894ce88754a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:45 +0000
Subject: [PATCH 31/65] fix: clustered MultiHeadAttention layers cannot be
 reloaded from HDF5 and native Keras files

---
 .../python/core/clustering/keras/cluster.py   |  1 +
 .../core/clustering/keras/cluster_wrapper.py  |  6 +++---
 .../clustering/keras/clustering_registry.py   | 20 +++++++++++++++----
 3 files changed, 20 insertions(+), 7 deletions(-)

diff --git a/tensorflow_model_optimization/python/core/clustering/keras/cluster.py b/tensorflow_model_optimization/python/core/clustering/keras/cluster.py
index c05ce51..b5f7660 100644
--- a/tensorflow_model_optimization/python/core/clustering/keras/cluster.py
+++ b/tensorflow_model_optimization/python/core/clustering/keras/cluster.py
@@ -53,6 +53,7 @@ def cluster_scope():
   return CustomObjectScope({
       'ClusterWeights': cluster_wrapper.ClusterWeights,
       'ClusterWeightsRNN': cluster_wrapper.ClusterWeightsRNN,
+      'ClusterWeightsMHA': cluster_wrapper.ClusterWeightsMHA,
   })
 
 
diff --git a/tensorflow_model_optimization/python/core/clustering/keras/cluster_wrapper.py b/tensorflow_model_optimization/python/core/clustering/keras/cluster_wrapper.py
index 356d82d..a84e41b 100644
--- a/tensorflow_model_optimization/python/core/clustering/keras/cluster_wrapper.py
+++ b/tensorflow_model_optimization/python/core/clustering/keras/cluster_wrapper.py
@@ -495,11 +495,11 @@ class ClusterWeightsMHA(ClusterWeights):
   """This wrapper augments a keras MHA layer so that the weights can be clustered."""
 
   def get_weight_from_layer(self, weight_name):
-    pre, _, post = weight_name.rpartition('.')
+    pre, _, post = weight_name.rpartition('/')
     return getattr(getattr(self.layer, pre), post)
 
   def set_weight_to_layer(self, weight_name, new_weight):
-    pre, _, post = weight_name.rpartition('.')
+    pre, _, post = weight_name.rpartition('/')
     layer = attrgetter(pre)(self.layer)
     setattr(layer, post, new_weight)
 
@@ -523,7 +523,7 @@ class ClusterWeightsMHA(ClusterWeights):
       self.set_weight_to_layer(weight_name, original_weight)
 
       # Track the bias again, so that it still comes after the kernel.
-      sublayer = attrgetter(weight_name.rpartition('.')[0])(self.layer)
+      sublayer = attrgetter(weight_name.rpartition('/')[0])(self.layer)
       if getattr(sublayer, 'bias', None) is not None:
         bias = sublayer.bias
         sublayer.bias = None
diff --git a/tensorflow_model_optimization/python/core/clustering/keras/clustering_registry.py b/tensorflow_model_optimization/python/core/clustering/keras/clustering_registry.py
index 8d55cd3..f1e5c18 100644
--- a/tensorflow_model_optimization/python/core/clustering/keras/clustering_registry.py
+++ b/tensorflow_model_optimization/python/core/clustering/keras/clustering_registry.py
@@ -216,10 +216,22 @@ class ClusteringRegistry(object):
 
     def get_clusterable_weights_mha():  # pylint: disable=missing-docstring
       # pylint: disable=protected-access
-      return [('_query_dense.kernel', layer._query_dense.kernel),
-              ('_key_dense.kernel', layer._key_dense.kernel),
-              ('_value_dense.kernel', layer._value_dense.kernel),
-              ('_output_dense.kernel', layer._output_dense.kernel)]
+      # A layer rebuilt from its configuration knows the shapes of its inputs
+      # but only builds its projections when it is called.
+      output_shape = (
+          list(layer._query_shape)[:-1] + [layer._num_heads, layer._value_dim])
+      for dense, input_shape in [(layer._query_dense, layer._query_shape),
+                                 (layer._key_dense, layer._key_shape),
+                                 (layer._value_dense, layer._value_shape),
+                                 (layer._output_dense, output_shape)]:
+        if not dense.built:
+          with tf.name_scope(f'{layer.name}/{dense.name}'):
+            dense.build(tf.TensorShape(input_shape))
+
+      return [('_query_dense/kernel', layer._query_dense.kernel),
+              ('_key_dense/kernel', layer._key_dense.kernel),
+              ('_value_dense/kernel', layer._value_dense.kernel),
+              ('_output_dense/kernel', layer._output_dense.kernel)]
 
     if layer.__class__ in cls._SUPPORTED_RNN_LAYERS:
       layer.get_clusterable_weights = get_clusterable_weights_rnn
-- 
2.43.0


From 3104e8f7981e128aac3fe51ecbfd33ae964bbad8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:25 +0000
Subject: [PATCH 32/65] fix: sparsity-preserving clustering of all-zero weights
 cannot be reloaded

---
 .../python/core/clustering/keras/cluster_wrapper.py        | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/tensorflow_model_optimization/python/core/clustering/keras/cluster_wrapper.py b/tensorflow_model_optimization/python/core/clustering/keras/cluster_wrapper.py
index a84e41b..5aa838d 100644
--- a/tensorflow_model_optimization/python/core/clustering/keras/cluster_wrapper.py
+++ b/tensorflow_model_optimization/python/core/clustering/keras/cluster_wrapper.py
@@ -228,6 +228,13 @@ class ClusterWeights(Wrapper):
 
       # Init the cluster centroids
       cluster_centroids = (centroid_init.get_cluster_centroids())
+      if cluster_centroids.shape.rank == 1:
+        # Weights that are all zero have the zero-centroid only. The number of
+        # centroids must not depend on the values of the weights, for a saved
+        # layer to be loadable.
+        cluster_centroids = tf.pad(
+            cluster_centroids,
+            [[0, self.number_of_clusters - tf.size(cluster_centroids)]])
 
       self.cluster_centroids[weight_name] = self.add_weight(
           '{}{}'.format('cluster_centroids_', weight_name),
-- 
2.43.0


From e4efeebc92943b2ccbf6523c2da08ab45b36695e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:49 +0000
Subject: [PATCH 33/65] fix: models with nested models cannot be saved to HDF5
 after strip_clustering

The weights of stripped layers had no layer name, so that those of the layers
of a nested model clashed.
---
 .../python/core/clustering/keras/cluster.py                   | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/tensorflow_model_optimization/python/core/clustering/keras/cluster.py b/tensorflow_model_optimization/python/core/clustering/keras/cluster.py
index b5f7660..9bfb405 100644
--- a/tensorflow_model_optimization/python/core/clustering/keras/cluster.py
+++ b/tensorflow_model_optimization/python/core/clustering/keras/cluster.py
@@ -366,7 +366,9 @@ def strip_clustering(model):
 
       # Construct a clean layer with the updated weights
       clean_layer = layer.layer.from_config(layer.layer.get_config())
-      clean_layer.build(layer.build_input_shape)
+      # The names of the weights start with the name of their layer
+      with tf.name_scope(clean_layer.name):
+        clean_layer.build(layer.build_input_shape)
       clean_layer.set_weights(updated_weights)
 
       return clean_layer
-- 
2.43.0


From 77b67552820748559eba20432c5a0cf7126518f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:41 +0000
Subject: [PATCH 34/65] fix: stripped clustered Bidirectional layers cannot be
 reloaded from a SavedModel

---
 .../python/core/clustering/keras/cluster.py                    | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/tensorflow_model_optimization/python/core/clustering/keras/cluster.py b/tensorflow_model_optimization/python/core/clustering/keras/cluster.py
index 9bfb405..34bc608 100644
--- a/tensorflow_model_optimization/python/core/clustering/keras/cluster.py
+++ b/tensorflow_model_optimization/python/core/clustering/keras/cluster.py
@@ -369,6 +369,9 @@ def strip_clustering(model):
       # The names of the weights start with the name of their layer
       with tf.name_scope(clean_layer.name):
         clean_layer.build(layer.build_input_shape)
+      # Bidirectional layers do not keep it when they are built, but need it to
+      # be loaded from a SavedModel.
+      clean_layer._build_input_shape = layer.build_input_shape  # pylint: disable=protected-access
       clean_layer.set_weights(updated_weights)
 
       return clean_layer
-- 
2.43.0


From 400b08621724d8edfd8ed9e98039a19418f00d41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:52 +0000
Subject: [PATCH 35/65] fix: AllValuesQuantizer ignores per_axis

---
 .../core/quantization/keras/quant_ops.py      | 16 +++++++++++-----
 .../core/quantization/keras/quantizers.py     | 19 +++++++------------
 2 files changed, 18 insertions(+), 17 deletions(-)

diff --git a/tensorflow_model_optimization/python/core/quantization/keras/quant_ops.py b/tensorflow_model_optimization/python/core/quantization/keras/quant_ops.py
index e0a3d35..77a9a3c 100644
--- a/tensorflow_model_optimization/python/core/quantization/keras/quant_ops.py
+++ b/tensorflow_model_optimization/python/core/quantization/keras/quant_ops.py
@@ -55,7 +55,8 @@ def AllValuesQuantize(inputs,
                       is_training=True,
                       num_bits=8,
                       narrow_range=False,
-                      symmetric=False):
+                      symmetric=False,
+                      per_channel=False):
   """Adds a layer that collects quantization ranges as min/max of tensor values.
 
   AllValuesQuantize creates variables called 'min' and 'max',
@@ -72,6 +73,8 @@ def AllValuesQuantize(inputs,
       [1; 2^num_bits - 1] or wide range [0; 2^num_bits - 1].
     symmetric: If true, use symmetric quantization limits instead of training
       the minimum and maximum of each quantization range separately.
+    per_channel: (Optional) a boolean specifying whether to use different
+      quantization ranges per output channel.
   Returns:
     a tensor containing quantized values.
   """
@@ -81,12 +84,15 @@ def AllValuesQuantize(inputs,
           inputs,
           min_var,
           max_var,
-          per_channel=False,
+          per_channel=per_channel,
           num_bits=num_bits,
           narrow_range=narrow_range)
 
-    batch_min = tf.math.reduce_min(inputs, name='BatchMin')
-    batch_max = tf.math.reduce_max(inputs, name='BatchMax')
+    reduce_dims = None
+    if per_channel:
+      reduce_dims = list(range(len(inputs.get_shape()) - 1))
+    batch_min = tf.math.reduce_min(inputs, axis=reduce_dims, name='BatchMin')
+    batch_max = tf.math.reduce_max(inputs, axis=reduce_dims, name='BatchMax')
 
     if symmetric:
       if narrow_range:
@@ -112,7 +118,7 @@ def AllValuesQuantize(inputs,
         inputs,
         assign_min,
         assign_max,
-        per_channel=False,
+        per_channel=per_channel,
         num_bits=num_bits,
         narrow_range=narrow_range)
 
diff --git a/tensorflow_model_optimization/python/core/quantization/keras/quantizers.py b/tensorflow_model_optimization/python/core/quantization/keras/quantizers.py
index f70a14d..0642b88 100644
--- a/tensorflow_model_optimization/python/core/quantization/keras/quantizers.py
+++ b/tensorflow_model_optimization/python/core/quantization/keras/quantizers.py
@@ -128,7 +128,8 @@ class Quantizer(object):
 class _QuantizeHelper(object):
   """Mixin with helper functions for quantizers."""
 
-  def _add_range_weights(self, layer, name, per_axis=False, tensor_shape=None):
+  def _add_range_weights(self, layer, name, per_axis=False, tensor_shape=None,
+                         init_min=-6.0, init_max=6.0):
     """Add min and max vars to layer."""
     shape = None
     if per_axis and tensor_shape is not None:
@@ -136,12 +137,12 @@ class _QuantizeHelper(object):
 
     min_weight = layer.add_weight(
         name + '_min',
-        initializer=keras.initializers.Constant(-6.0),
+        initializer=keras.initializers.Constant(init_min),
         trainable=False,
         shape=shape)
     max_weight = layer.add_weight(
         name + '_max',
-        initializer=keras.initializers.Constant(6.0),
+        initializer=keras.initializers.Constant(init_max),
         trainable=False,
         shape=shape)
 
@@ -317,15 +318,8 @@ class AllValuesQuantizer(_QuantizeHelper, Quantizer):
     self.narrow_range = narrow_range
 
   def build(self, tensor_shape, name, layer):
-    min_weight = layer.add_weight(
-        name + '_min',
-        initializer=keras.initializers.Constant(0.0),
-        trainable=False)
-    max_weight = layer.add_weight(
-        name + '_max',
-        initializer=keras.initializers.Constant(0.0),
-        trainable=False)
-    return {'min_var': min_weight, 'max_var': max_weight}
+    return self._add_range_weights(
+        layer, name, self.per_axis, tensor_shape, init_min=0.0, init_max=0.0)
 
   def __call__(self, inputs, training, weights, **kwargs):
     """Quantize tensor.
@@ -348,6 +342,7 @@ class AllValuesQuantizer(_QuantizeHelper, Quantizer):
         num_bits=self.num_bits,
         symmetric=self.symmetric,
         narrow_range=self.narrow_range,
+        per_channel=self.per_axis,
     )
 
   def get_config(self):
-- 
2.43.0


From d285ecd99fddef7dd73c0dc8db5311b7a57f7c5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:52 +0000
Subject: [PATCH 36/65] fix: packing tensors of unknown size appends
 unnecessary words

---
 .../core/internal/tensor_encoding/utils/tf_utils.py  | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/tensorflow_model_optimization/python/core/internal/tensor_encoding/utils/tf_utils.py b/tensorflow_model_optimization/python/core/internal/tensor_encoding/utils/tf_utils.py
index 2b6fdcc..c3d5b33 100644
--- a/tensorflow_model_optimization/python/core/internal/tensor_encoding/utils/tf_utils.py
+++ b/tensorflow_model_optimization/python/core/internal/tensor_encoding/utils/tf_utils.py
@@ -398,6 +398,12 @@ def _expand_to_binary_form(value, input_bits):
   return tf.reshape(bits, [-1])
 
 
+def _remove_unnecessary_zeros(packed_val, value, input_bitrange):
+  """Removes trailing zeros from a packed `value` of statically unknown size."""
+  num_packed = tf.math.floordiv(tf.size(value) * input_bitrange + 27, 28)
+  return tf.slice(packed_val, [0, 0], [num_packed, 1])
+
+
 def _pack_into_int_6_28(value):
   """Implementation of `pack_into_int` for specific bitranges.
 
@@ -444,6 +450,8 @@ def _pack_into_int_6_28(value):
   if extra_zeros.shape[0] in [10, 11, 12, 13]:
     # We added unnecessary two products of zeros to the representation.
     packed_val = tf.slice(packed_val, [0, 0], [packed_val.shape[0] - 2, 1])
+  if extra_zeros.shape[0] is None:
+    packed_val = _remove_unnecessary_zeros(packed_val, value, 6)
   return packed_val
 
 
@@ -512,6 +520,8 @@ def _pack_into_int_8_28(value):
   if extra_zeros.shape[0] in [4, 5, 6]:
     # We added unnecessary sum of zeros to the representation.
     packed_val = tf.slice(packed_val, [0, 0], [packed_val.shape[0] - 1, 1])
+  if extra_zeros.shape[0] is None:
+    packed_val = _remove_unnecessary_zeros(packed_val, value, 8)
   return packed_val
 
 
@@ -554,6 +564,8 @@ def _pack_into_int_12_28(value):
   if extra_zeros.shape[0] in [5, 6]:
     # We added unnecessary two sums of zeros to the representation.
     packed_val = tf.slice(packed_val, [0, 0], [packed_val.shape[0] - 2, 1])
+  if extra_zeros.shape[0] is None:
+    packed_val = _remove_unnecessary_zeros(packed_val, value, 12)
   return packed_val
 
 
-- 
2.43.0


From b87097efaf7191b3e068837bf1d794b1b26e7831 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:49 +0000
Subject: [PATCH 37/65] fix: weight compression hangs on nested functional
 models

---
 .../core/common/keras/compression/algorithms/bias_only.py | 4 ++++
 .../algorithms/different_training_and_inference.py        | 8 ++++++++
 .../algorithms/periodical_update_and_scheduling.py        | 8 ++++++++
 .../compression/algorithms/same_training_and_inference.py | 4 ++++
 .../keras/compression/algorithms/weight_clustering.py     | 4 ++++
 5 files changed, 28 insertions(+)

diff --git a/tensorflow_model_optimization/python/core/common/keras/compression/algorithms/bias_only.py b/tensorflow_model_optimization/python/core/common/keras/compression/algorithms/bias_only.py
index 39d7fd2..59f1a59 100644
--- a/tensorflow_model_optimization/python/core/common/keras/compression/algorithms/bias_only.py
+++ b/tensorflow_model_optimization/python/core/common/keras/compression/algorithms/bias_only.py
@@ -84,6 +84,10 @@ class BiasOnly(algorithm.WeightCompressor):
     # pylint: enable=protected-access
 
     def _optimize_layer(layer):
+      if isinstance(layer, keras.Model):
+        return keras.models.clone_model(
+            layer, clone_function=_optimize_layer)
+
       # Require layer to be built so that the average of bias can be
       # initialized.
       if not layer.built:
diff --git a/tensorflow_model_optimization/python/core/common/keras/compression/algorithms/different_training_and_inference.py b/tensorflow_model_optimization/python/core/common/keras/compression/algorithms/different_training_and_inference.py
index 706b642..1697b1b 100644
--- a/tensorflow_model_optimization/python/core/common/keras/compression/algorithms/different_training_and_inference.py
+++ b/tensorflow_model_optimization/python/core/common/keras/compression/algorithms/different_training_and_inference.py
@@ -92,6 +92,10 @@ class SVD(algorithm.WeightCompressor):
     # pylint: enable=protected-access
 
     def _create_layer_for_training(layer):
+      if isinstance(layer, keras.Model):
+        return keras.models.clone_model(
+            layer, clone_function=_create_layer_for_training)
+
       # Require layer to be built so that the SVD-factorized weights
       # can be initialized from the weights.
       if not layer.built:
@@ -101,6 +105,10 @@ class SVD(algorithm.WeightCompressor):
       return algorithm.create_layer_for_training(layer, algorithm=self)
 
     def _create_layer_for_inference(layer):
+      if isinstance(layer, keras.Model):
+        return keras.models.clone_model(
+            layer, clone_function=_create_layer_for_inference)
+
       return algorithm.create_layer_for_inference(layer, algorithm=self)
 
     intermediate_model = keras.models.clone_model(
diff --git a/tensorflow_model_optimization/python/core/common/keras/compression/algorithms/periodical_update_and_scheduling.py b/tensorflow_model_optimization/python/core/common/keras/compression/algorithms/periodical_update_and_scheduling.py
index 8164a9f..fbb3da9 100644
--- a/tensorflow_model_optimization/python/core/common/keras/compression/algorithms/periodical_update_and_scheduling.py
+++ b/tensorflow_model_optimization/python/core/common/keras/compression/algorithms/periodical_update_and_scheduling.py
@@ -139,6 +139,10 @@ class SVD(algorithm.WeightCompressor):
     # pylint: enable=protected-access
 
     def _optimize_layer(layer):
+      if isinstance(layer, keras.Model):
+        return keras.models.clone_model(
+            layer, clone_function=_optimize_layer)
+
       # Require layer to be built so that the SVD-factorized weights
       # can be initialized from the weights.
       if not layer.built:
@@ -159,6 +163,10 @@ class SVD(algorithm.WeightCompressor):
       A compressed model for the inference.
     """
     def _optimize_layer(layer):
+      if isinstance(layer, keras.Model):
+        return keras.models.clone_model(
+            layer, clone_function=_optimize_layer)
+
       # Require layer to be built so that the SVD-factorized weights
       # can be initialized from the weights.
       if not layer.built:
diff --git a/tensorflow_model_optimization/python/core/common/keras/compression/algorithms/same_training_and_inference.py b/tensorflow_model_optimization/python/core/common/keras/compression/algorithms/same_training_and_inference.py
index 81bf01d..cef6e05 100644
--- a/tensorflow_model_optimization/python/core/common/keras/compression/algorithms/same_training_and_inference.py
+++ b/tensorflow_model_optimization/python/core/common/keras/compression/algorithms/same_training_and_inference.py
@@ -94,6 +94,10 @@ class SVD(algorithm.WeightCompressor):
     # pylint: enable=protected-access
 
     def _optimize_layer(layer):
+      if isinstance(layer, keras.Model):
+        return keras.models.clone_model(
+            layer, clone_function=_optimize_layer)
+
       # Require layer to be built so that the SVD-factorized weights
       # can be initialized from the weights.
       if not layer.built:
diff --git a/tensorflow_model_optimization/python/core/common/keras/compression/algorithms/weight_clustering.py b/tensorflow_model_optimization/python/core/common/keras/compression/algorithms/weight_clustering.py
index 21ce104..be9248e 100644
--- a/tensorflow_model_optimization/python/core/common/keras/compression/algorithms/weight_clustering.py
+++ b/tensorflow_model_optimization/python/core/common/keras/compression/algorithms/weight_clustering.py
@@ -115,6 +115,10 @@ class WeightClustering(algorithm.WeightCompressor):
     """Model developer API for optimizing a model."""
 
     def _optimize_layer(layer):
+      if isinstance(layer, keras.Model):
+        return keras.models.clone_model(
+            layer, clone_function=_optimize_layer)
+
       # Require layer to be built so that the SVD-factorized weights
       # can be initialized from the weights.
       if not layer.built:
-- 
2.43.0


From 279b8168c10bff11c59e698b2670e4bcc6d7fe02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:08 +0000
Subject: [PATCH 38/65] fix: compression PolynomialDecay fails for integer end
 values

---
 .../python/core/common/keras/compression/schedules.py           | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tensorflow_model_optimization/python/core/common/keras/compression/schedules.py b/tensorflow_model_optimization/python/core/common/keras/compression/schedules.py
index 6043af6..9a07dde 100644
--- a/tensorflow_model_optimization/python/core/common/keras/compression/schedules.py
+++ b/tensorflow_model_optimization/python/core/common/keras/compression/schedules.py
@@ -115,7 +115,7 @@ class PolynomialDecay(Scheduler):
       decay_term = tf.math.divide(local_steps,
                                   tf.cast(self.decay_steps, dtype=tf.float32))
       total_delta = tf.cast(self.start_value - self.end_value, dtype=tf.float32)
-      target = tf.math.add(self.end_value, tf.cast(
+      target = tf.math.add(tf.cast(self.end_value, dtype=self.dtype), tf.cast(
           tf.math.multiply(total_delta, tf.pow(1 - decay_term, self.exponent)),
           dtype=self.dtype))
       val = tf.stop_gradient(target)
-- 
2.43.0


From 172d661046c98e40f7b5e9a35dd653ae175c1c31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:44 +0000
Subject: [PATCH 39/65] fix: clustered weights change sign for large negative
 original weights

---
 .../clustering/keras/clustering_algorithm.py  | 22 +++++++++----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/tensorflow_model_optimization/python/core/clustering/keras/clustering_algorithm.py b/tensorflow_model_optimization/python/core/clustering/keras/clustering_algorithm.py
index 4039d00..b78a941 100644
--- a/tensorflow_model_optimization/python/core/clustering/keras/clustering_algorithm.py
+++ b/tensorflow_model_optimization/python/core/clustering/keras/clustering_algorithm.py
@@ -82,15 +82,15 @@ class ClusteringAlgorithm(object):
   def add_gradient_to_original_weight(self, clustered_weight, original_weight):
     """Overrides gradients in the backprop stage.
 
-    This function overrides gradients in the backprop stage: the Jacobian
-    matrix of multiplication is replaced with the identity matrix, which
-    effectively changes multiplication into add in the backprop. Since
-    the gradient of tf.sign is 0, overwriting it with identity follows
-    the design of straight-through-estimator, which accepts all upstream
-    gradients and uses them to update original non-clustered weights of
-    the layer. Here, we assume the gradient updates on individual elements
-    inside a cluster will be different so that there is no point in mapping
-    the gradient updates back to original non-clustered weights using the LUT.
+    This function overrides gradients in the backprop stage: the forward pass
+    returns the clustered weights unchanged, the backprop stage passes the
+    upstream gradients to the clustered weights and also to the original
+    weights. The latter follows the design of straight-through-estimator, which
+    accepts all upstream gradients and uses them to update original
+    non-clustered weights of the layer. Here, we assume the gradient updates on
+    individual elements inside a cluster will be different so that there is no
+    point in mapping the gradient updates back to original non-clustered weights
+    using the LUT.
 
     Args:
       clustered_weight: clustered weights
@@ -99,8 +99,8 @@ class ClusteringAlgorithm(object):
     Returns:
       result and custom gradient, as expected by @tf.custom_gradient
     """
-    override_weights = tf.sign(original_weight + 1e+6)
-    override_clustered_weight = clustered_weight * override_weights
+    del original_weight  # Only needed for the gradient.
+    override_clustered_weight = tf.identity(clustered_weight)
 
     def grad(d_override_clustered_weight):
       return d_override_clustered_weight, d_override_clustered_weight
-- 
2.43.0


From 24592fb749558ef563fd34ff01064538e12d1a23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:47:40 +0000
Subject: [PATCH 40/65] fix: keep the order of a layer's inputs when its
 pattern is matched

---
 .../keras/graph_transformations/model_transformer.py        | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/tensorflow_model_optimization/python/core/quantization/keras/graph_transformations/model_transformer.py b/tensorflow_model_optimization/python/core/quantization/keras/graph_transformations/model_transformer.py
index 596ff35..48c5da7 100644
--- a/tensorflow_model_optimization/python/core/quantization/keras/graph_transformations/model_transformer.py
+++ b/tensorflow_model_optimization/python/core/quantization/keras/graph_transformations/model_transformer.py
@@ -233,7 +233,11 @@ class ModelTransformer(object):
     # tensors and multiple tensors from that layer may be used by the
     # connection. Ignoring those for now.
     input_layer_names = self._get_input_layer_names(layer)
-    input_layers = self._get_layers(input_layer_names)
+    # The layers in the config may be ordered differently from the inputs, which
+    # have to keep their positions when this layer is replaced.
+    input_layers = sorted(
+        self._get_layers(input_layer_names),
+        key=lambda layer: input_layer_names.index(layer['config']['name']))
 
     if len(input_layers) != len(pattern.inputs):
       # Number of inputs this layer takes is different from the number of
-- 
2.43.0


From b77e7c40d038f1fabbab7b91556c324c524cb070 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:47:40 +0000
Subject: [PATCH 41/65] fix: quantize models with lambda layers

---
 .../model_transformer.py                      | 30 +++++++++++++++++++
 1 file changed, 30 insertions(+)

diff --git a/tensorflow_model_optimization/python/core/quantization/keras/graph_transformations/model_transformer.py b/tensorflow_model_optimization/python/core/quantization/keras/graph_transformations/model_transformer.py
index 48c5da7..e08d0e1 100644
--- a/tensorflow_model_optimization/python/core/quantization/keras/graph_transformations/model_transformer.py
+++ b/tensorflow_model_optimization/python/core/quantization/keras/graph_transformations/model_transformer.py
@@ -22,6 +22,7 @@ import re
 import tensorflow as tf
 
 from tensorflow_model_optimization.python.core.keras.compat import keras
+from tensorflow_model_optimization.python.core.quantization.keras import utils as quantize_utils
 from tensorflow_model_optimization.python.core.quantization.keras.graph_transformations import transforms as transforms_mod
 
 
@@ -532,6 +533,32 @@ class ModelTransformer(object):
     self._transform_matched_layers_map[self._name(transform)].append(
         layer_node.layer['config']['name'])
 
+  @staticmethod
+  def _restore_lambda_functions(layer_config):
+    """Puts the Python functions of a Lambda layer into its config.
+
+    Keras declines to deserialize Python lambdas by default, as their bytecode
+    could come from anywhere. Here it comes from the model being transformed.
+
+    Args:
+      layer_config: Layer config to modify.
+    """
+    if layer_config['class_name'] != 'Lambda':
+      return
+
+    layer = quantize_utils.deserialize_layer(
+        layer_config, use_legacy_format=True
+    )
+    config = layer_config['config']
+    for key, value in (
+        ('function', layer.function),
+        ('output_shape', layer._output_shape),  # pylint: disable=protected-access
+        ('mask', layer.mask),
+    ):
+      if config.get(key + '_type') == 'lambda':
+        config[key] = value
+        config[key + '_type'] = 'raw'
+
   def transform(self):
     """Transforms the Keras model by applying all the specified transforms.
 
@@ -624,6 +651,9 @@ class ModelTransformer(object):
     for transform in self.transforms:
       custom_objects.update(transform.custom_objects())
 
+    for layer_config in self._config['layers']:
+      self._restore_lambda_functions(layer_config)
+
     # Reconstruct model from the config, using the cloned layers.
     if self._is_functional_model(self.model):
       transformed_model = keras.Model.from_config(self._config, custom_objects)
-- 
2.43.0


From 0a52f4c87f5e275a4f23bf1f0b555ae74399ff4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:47:40 +0000
Subject: [PATCH 42/65] fix: match layer patterns against whole class names

---
 .../quantization/keras/default_8bit/default_8bit_transforms.py | 3 ++-
 .../experimental/default_n_bit/default_n_bit_transforms.py     | 3 ++-
 .../keras/graph_transformations/model_transformer.py           | 2 +-
 3 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/tensorflow_model_optimization/python/core/quantization/keras/default_8bit/default_8bit_transforms.py b/tensorflow_model_optimization/python/core/quantization/keras/default_8bit/default_8bit_transforms.py
index bda38f6..201df9e 100644
--- a/tensorflow_model_optimization/python/core/quantization/keras/default_8bit/default_8bit_transforms.py
+++ b/tensorflow_model_optimization/python/core/quantization/keras/default_8bit/default_8bit_transforms.py
@@ -116,7 +116,8 @@ class Conv2DBatchNormQuantize(transforms.Transform):
     return LayerPattern(
         'BatchNormalization|SyncBatchNormalization',
         inputs=[LayerPattern(
-            'Conv2D|DepthwiseConv2D', config={'activation': 'linear'})])
+            'Conv2D|Conv2DTranspose|DepthwiseConv2D',
+            config={'activation': 'linear'})])
 
   def _replace(self, bn_layer_node, conv_layer_node):
     if _has_custom_quantize_config(bn_layer_node, conv_layer_node):
diff --git a/tensorflow_model_optimization/python/core/quantization/keras/experimental/default_n_bit/default_n_bit_transforms.py b/tensorflow_model_optimization/python/core/quantization/keras/experimental/default_n_bit/default_n_bit_transforms.py
index 0aa6629..181da2b 100644
--- a/tensorflow_model_optimization/python/core/quantization/keras/experimental/default_n_bit/default_n_bit_transforms.py
+++ b/tensorflow_model_optimization/python/core/quantization/keras/experimental/default_n_bit/default_n_bit_transforms.py
@@ -116,7 +116,8 @@ class Conv2DBatchNormQuantize(transforms.Transform):
     return LayerPattern(
         'BatchNormalization|SyncBatchNormalization',
         inputs=[LayerPattern(
-            'Conv2D|DepthwiseConv2D', config={'activation': 'linear'})])
+            'Conv2D|Conv2DTranspose|DepthwiseConv2D',
+            config={'activation': 'linear'})])
 
   def _replace(self, bn_layer_node, conv_layer_node):
     if _has_custom_quantize_config(bn_layer_node, conv_layer_node):
diff --git a/tensorflow_model_optimization/python/core/quantization/keras/graph_transformations/model_transformer.py b/tensorflow_model_optimization/python/core/quantization/keras/graph_transformations/model_transformer.py
index e08d0e1..4587f91 100644
--- a/tensorflow_model_optimization/python/core/quantization/keras/graph_transformations/model_transformer.py
+++ b/tensorflow_model_optimization/python/core/quantization/keras/graph_transformations/model_transformer.py
@@ -134,7 +134,7 @@ class ModelTransformer(object):
     return self._layer_metadata_map.get(layer_name, {})
 
   def _match_pattern(self, target, pattern):
-    return re.match('^' + pattern + '$', target) is not None
+    return re.fullmatch(pattern, target) is not None
 
   def _match_layer(self, layer, pattern):
     """Check if specific layer matches the pattern."""
-- 
2.43.0


From 025e737d9f2bfcac4702a3cd53a7e4f8d5bc8810 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:47:40 +0000
Subject: [PATCH 43/65] fix: fuse dense batch normalization before
 concatenations

---
 .../default_8bit_quantize_layout_transform.py |  6 +++---
 ...default_n_bit_quantize_layout_transform.py | 20 +++++++++----------
 2 files changed, 13 insertions(+), 13 deletions(-)

diff --git a/tensorflow_model_optimization/python/core/quantization/keras/default_8bit/default_8bit_quantize_layout_transform.py b/tensorflow_model_optimization/python/core/quantization/keras/default_8bit/default_8bit_quantize_layout_transform.py
index 70b0681..f4281f9 100644
--- a/tensorflow_model_optimization/python/core/quantization/keras/default_8bit/default_8bit_quantize_layout_transform.py
+++ b/tensorflow_model_optimization/python/core/quantization/keras/default_8bit/default_8bit_quantize_layout_transform.py
@@ -60,14 +60,14 @@ class Default8BitQuantizeLayoutTransform(
         default_8bit_transforms.Conv2DBatchNormActivationQuantize(),
         default_8bit_transforms.Conv2DReshapeBatchNormQuantize(),
         default_8bit_transforms.Conv2DBatchNormQuantize(),
+        default_8bit_transforms.DenseBatchNormReLUQuantize(),
+        default_8bit_transforms.DenseBatchNormActivationQuantize(),
+        default_8bit_transforms.DenseBatchNormQuantize(),
         default_8bit_transforms.ConcatTransform6Inputs(),
         default_8bit_transforms.ConcatTransform5Inputs(),
         default_8bit_transforms.ConcatTransform4Inputs(),
         default_8bit_transforms.ConcatTransform3Inputs(),
         default_8bit_transforms.ConcatTransform(),
-        default_8bit_transforms.DenseBatchNormQuantize(),
-        default_8bit_transforms.DenseBatchNormReLUQuantize(),
-        default_8bit_transforms.DenseBatchNormActivationQuantize(),
         default_8bit_transforms.LayerReLUQuantize(),
         default_8bit_transforms.LayerReluActivationQuantize(),
     ]
diff --git a/tensorflow_model_optimization/python/core/quantization/keras/experimental/default_n_bit/default_n_bit_quantize_layout_transform.py b/tensorflow_model_optimization/python/core/quantization/keras/experimental/default_n_bit/default_n_bit_quantize_layout_transform.py
index 50089c5..8d388d0 100644
--- a/tensorflow_model_optimization/python/core/quantization/keras/experimental/default_n_bit/default_n_bit_quantize_layout_transform.py
+++ b/tensorflow_model_optimization/python/core/quantization/keras/experimental/default_n_bit/default_n_bit_quantize_layout_transform.py
@@ -91,43 +91,43 @@ class DefaultNBitQuantizeLayoutTransform(
             num_bits_weight=self._num_bits_weight,
             num_bits_activation=self._num_bits_activation,
         ),
-        default_n_bit_transforms.ConcatTransform6Inputs(
+        default_n_bit_transforms.DenseBatchNormReLUQuantize(
             num_bits_weight=self._num_bits_weight,
             num_bits_activation=self._num_bits_activation,
         ),
-        default_n_bit_transforms.ConcatTransform5Inputs(
+        default_n_bit_transforms.DenseBatchNormActivationQuantize(
             num_bits_weight=self._num_bits_weight,
             num_bits_activation=self._num_bits_activation,
         ),
-        default_n_bit_transforms.ConcatTransform4Inputs(
+        default_n_bit_transforms.DenseBatchNormQuantize(
             num_bits_weight=self._num_bits_weight,
             num_bits_activation=self._num_bits_activation,
         ),
-        default_n_bit_transforms.ConcatTransform3Inputs(
+        default_n_bit_transforms.ConcatTransform6Inputs(
             num_bits_weight=self._num_bits_weight,
             num_bits_activation=self._num_bits_activation,
         ),
-        default_n_bit_transforms.ConcatTransform(
+        default_n_bit_transforms.ConcatTransform5Inputs(
             num_bits_weight=self._num_bits_weight,
             num_bits_activation=self._num_bits_activation,
         ),
-        default_n_bit_transforms.LayerReLUQuantize(
+        default_n_bit_transforms.ConcatTransform4Inputs(
             num_bits_weight=self._num_bits_weight,
             num_bits_activation=self._num_bits_activation,
         ),
-        default_n_bit_transforms.LayerReluActivationQuantize(
+        default_n_bit_transforms.ConcatTransform3Inputs(
             num_bits_weight=self._num_bits_weight,
             num_bits_activation=self._num_bits_activation,
         ),
-        default_n_bit_transforms.DenseBatchNormQuantize(
+        default_n_bit_transforms.ConcatTransform(
             num_bits_weight=self._num_bits_weight,
             num_bits_activation=self._num_bits_activation,
         ),
-        default_n_bit_transforms.DenseBatchNormReLUQuantize(
+        default_n_bit_transforms.LayerReLUQuantize(
             num_bits_weight=self._num_bits_weight,
             num_bits_activation=self._num_bits_activation,
         ),
-        default_n_bit_transforms.DenseBatchNormActivationQuantize(
+        default_n_bit_transforms.LayerReluActivationQuantize(
             num_bits_weight=self._num_bits_weight,
             num_bits_activation=self._num_bits_activation,
         ),
-- 
2.43.0


From b52687aaf2093edc7a4c51806f6b00269aafb076 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:47:40 +0000
Subject: [PATCH 44/65] fix: leave custom quantize configs alone before a ReLU

---
 .../quantization/keras/default_8bit/default_8bit_transforms.py | 3 +++
 .../experimental/default_n_bit/default_n_bit_transforms.py     | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/tensorflow_model_optimization/python/core/quantization/keras/default_8bit/default_8bit_transforms.py b/tensorflow_model_optimization/python/core/quantization/keras/default_8bit/default_8bit_transforms.py
index 201df9e..c0578cb 100644
--- a/tensorflow_model_optimization/python/core/quantization/keras/default_8bit/default_8bit_transforms.py
+++ b/tensorflow_model_optimization/python/core/quantization/keras/default_8bit/default_8bit_transforms.py
@@ -580,6 +580,9 @@ class LayerReLUQuantize(transforms.Transform):
     relu_layer_node = match_layer
     add_layer_node = relu_layer_node.input_layers[0]
 
+    if _has_custom_quantize_config(add_layer_node):
+      return match_layer
+
     add_layer_node.metadata['quantize_config'] = (
         default_8bit_quantize_configs.NoOpQuantizeConfig())
 
diff --git a/tensorflow_model_optimization/python/core/quantization/keras/experimental/default_n_bit/default_n_bit_transforms.py b/tensorflow_model_optimization/python/core/quantization/keras/experimental/default_n_bit/default_n_bit_transforms.py
index 181da2b..9d22c1f 100644
--- a/tensorflow_model_optimization/python/core/quantization/keras/experimental/default_n_bit/default_n_bit_transforms.py
+++ b/tensorflow_model_optimization/python/core/quantization/keras/experimental/default_n_bit/default_n_bit_transforms.py
@@ -617,6 +617,9 @@ class LayerReLUQuantize(transforms.Transform):
     relu_layer_node = match_layer
     add_layer_node = relu_layer_node.input_layers[0]
 
+    if _has_custom_quantize_config(add_layer_node):
+      return match_layer
+
     add_layer_node.metadata['quantize_config'] = (
         configs.NoOpQuantizeConfig())
 
-- 
2.43.0


From 535d7de7e8b78d87784d7ae60943529876867998 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:47:40 +0000
Subject: [PATCH 45/65] fix: do not quantize twice before n-bit concatenations

---
 .../default_n_bit/default_n_bit_quantize_configs.py      | 8 +++++++-
 .../default_n_bit/default_n_bit_quantize_registry.py     | 7 ++++++-
 .../default_n_bit/default_n_bit_transforms.py            | 9 +++++++++
 3 files changed, 22 insertions(+), 2 deletions(-)

diff --git a/tensorflow_model_optimization/python/core/quantization/keras/experimental/default_n_bit/default_n_bit_quantize_configs.py b/tensorflow_model_optimization/python/core/quantization/keras/experimental/default_n_bit/default_n_bit_quantize_configs.py
index 66bc47e..8f6bfba 100644
--- a/tensorflow_model_optimization/python/core/quantization/keras/experimental/default_n_bit/default_n_bit_quantize_configs.py
+++ b/tensorflow_model_optimization/python/core/quantization/keras/experimental/default_n_bit/default_n_bit_quantize_configs.py
@@ -22,9 +22,11 @@ from tensorflow_model_optimization.python.core.quantization.keras import quantiz
 class DefaultNBitOutputQuantizeConfig(quantize_config.QuantizeConfig):
   """QuantizeConfig which only quantizes the output from a layer."""
 
-  def __init__(self, num_bits_weight: int = 8, num_bits_activation: int = 8):
+  def __init__(self, num_bits_weight: int = 8, num_bits_activation: int = 8,
+               quantize_output: bool = True):
     self._num_bits_weight = num_bits_weight
     self._num_bits_activation = num_bits_activation
+    self.quantize_output = quantize_output
 
   def get_weights_and_quantizers(self, layer):
     return []
@@ -39,6 +41,9 @@ class DefaultNBitOutputQuantizeConfig(quantize_config.QuantizeConfig):
     pass
 
   def get_output_quantizers(self, layer):
+    if not self.quantize_output:
+      return []
+
     return [quantizers.MovingAverageQuantizer(
         num_bits=self._num_bits_activation, per_axis=False,
         symmetric=False, narrow_range=False)]  # activation/output
@@ -47,6 +52,7 @@ class DefaultNBitOutputQuantizeConfig(quantize_config.QuantizeConfig):
     return {
         'num_bits_weight': self._num_bits_weight,
         'num_bits_activation': self._num_bits_activation,
+        'quantize_output': self.quantize_output,
     }
 
 
diff --git a/tensorflow_model_optimization/python/core/quantization/keras/experimental/default_n_bit/default_n_bit_quantize_registry.py b/tensorflow_model_optimization/python/core/quantization/keras/experimental/default_n_bit/default_n_bit_quantize_registry.py
index 9c46c6f..c44af3c 100644
--- a/tensorflow_model_optimization/python/core/quantization/keras/experimental/default_n_bit/default_n_bit_quantize_registry.py
+++ b/tensorflow_model_optimization/python/core/quantization/keras/experimental/default_n_bit/default_n_bit_quantize_registry.py
@@ -490,9 +490,11 @@ class DefaultNBitActivationQuantizeConfig(QuantizeConfig):
   decision to quantize depends on the specific activation type.
   """
 
-  def __init__(self, num_bits_weight: int = 8, num_bits_activation: int = 8):
+  def __init__(self, num_bits_weight: int = 8, num_bits_activation: int = 8,
+               quantize_output: bool = True):
     self._num_bits_weight = num_bits_weight
     self._num_bits_activation = num_bits_activation
+    self.quantize_output = quantize_output
 
   def _assert_activation_layer(self, layer):
     if not isinstance(layer, layers.Activation):
@@ -516,6 +518,8 @@ class DefaultNBitActivationQuantizeConfig(QuantizeConfig):
 
   def get_output_quantizers(self, layer):
     self._assert_activation_layer(layer)
+    if not self.quantize_output:
+      return []
 
     if not hasattr(layer.activation, '__name__'):
       raise ValueError('Activation {} not supported by '
@@ -539,6 +543,7 @@ class DefaultNBitActivationQuantizeConfig(QuantizeConfig):
     return {
         'num_bits_weight': self._num_bits_weight,
         'num_bits_activation': self._num_bits_activation,
+        'quantize_output': self.quantize_output,
     }
 
 
diff --git a/tensorflow_model_optimization/python/core/quantization/keras/experimental/default_n_bit/default_n_bit_transforms.py b/tensorflow_model_optimization/python/core/quantization/keras/experimental/default_n_bit/default_n_bit_transforms.py
index 9d22c1f..20cca74 100644
--- a/tensorflow_model_optimization/python/core/quantization/keras/experimental/default_n_bit/default_n_bit_transforms.py
+++ b/tensorflow_model_optimization/python/core/quantization/keras/experimental/default_n_bit/default_n_bit_transforms.py
@@ -701,6 +701,8 @@ class ConcatTransform(transforms.Transform):
         'Concatenate', inputs=[LayerPattern('.*'), LayerPattern('.*')])
 
   def _get_layer_type(self, layer_class_name):
+    if layer_class_name == 'QuantizeLayer':
+      return quantize_layer.QuantizeLayer
     keras_layers = inspect.getmembers(keras.layers, inspect.isclass)
     for layer_name, layer_type in keras_layers:
       if layer_name == layer_class_name:
@@ -710,6 +712,9 @@ class ConcatTransform(transforms.Transform):
   def _disable_output_quantize(self, quantize_config):
     # TODO(pulkitb): Disabling quantize_config may also require handling
     # activation quantizers. Handle that properly.
+    if hasattr(quantize_config, 'quantize_output'):
+      quantize_config.quantize_output = False
+
     quantize_config.get_output_quantizers = lambda layer: []
 
   def replacement(self, match_layer):
@@ -736,6 +741,10 @@ class ConcatTransform(transforms.Transform):
               configs.NoOpQuantizeConfig())
           continue
 
+        if layer_class == quantize_layer.QuantizeLayer:
+          feed_layer_node.metadata['quantizer'] = None
+          continue
+
         if not default_registry._is_supported_layer(layer_class):
           # Feeding layer is not supported by registry
           return match_layer
-- 
2.43.0


From 09ce4ea20ed5b135346068737479e2744223a3e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:47:40 +0000
Subject: [PATCH 46/65] fix: keep the bit widths of several n-bit schemes apart

---
 .../default_n_bit/default_n_bit_quantize_registry.py           | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/tensorflow_model_optimization/python/core/quantization/keras/experimental/default_n_bit/default_n_bit_quantize_registry.py b/tensorflow_model_optimization/python/core/quantization/keras/experimental/default_n_bit/default_n_bit_quantize_registry.py
index c44af3c..d728f84 100644
--- a/tensorflow_model_optimization/python/core/quantization/keras/experimental/default_n_bit/default_n_bit_quantize_registry.py
+++ b/tensorflow_model_optimization/python/core/quantization/keras/experimental/default_n_bit/default_n_bit_quantize_registry.py
@@ -18,6 +18,7 @@ from __future__ import absolute_import
 from __future__ import division
 from __future__ import print_function
 
+import copy
 from typing import Any, Dict
 
 import tensorflow as tf
@@ -185,6 +186,8 @@ class DefaultNBitQuantizeRegistry(
     self._num_bits_activation = num_bits_activation
     self._layer_quantize_map = {}
     for quantize_info in self._LAYER_QUANTIZE_INFO:
+      # Other registries may use different numbers of bits.
+      quantize_info = copy.copy(quantize_info)
       quantize_info.num_bits_weight = num_bits_weight
       quantize_info.num_bits_activation = num_bits_activation
       self._layer_quantize_map[quantize_info.layer_type] = quantize_info
-- 
2.43.0


From f880de1deee81a41550cdc645cd337c21078cd73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:47:40 +0000
Subject: [PATCH 47/65] fix: keep the scheme's quantize config for layers
 feeding a concatenation

---
 .../keras/default_8bit/default_8bit_transforms.py         | 2 ++
 .../default_n_bit/default_n_bit_transforms.py             | 2 ++
 .../python/core/quantization/keras/quantize.py            | 8 ++++++++
 3 files changed, 12 insertions(+)

diff --git a/tensorflow_model_optimization/python/core/quantization/keras/default_8bit/default_8bit_transforms.py b/tensorflow_model_optimization/python/core/quantization/keras/default_8bit/default_8bit_transforms.py
index c0578cb..6e91bd6 100644
--- a/tensorflow_model_optimization/python/core/quantization/keras/default_8bit/default_8bit_transforms.py
+++ b/tensorflow_model_optimization/python/core/quantization/keras/default_8bit/default_8bit_transforms.py
@@ -699,6 +699,8 @@ class ConcatTransform(transforms.Transform):
 
         quantize_config = default_registry._get_quantize_config(layer_class)
         feed_layer_node.metadata['quantize_config'] = quantize_config
+        # The scheme in use may have another config for this layer.
+        feed_layer_node.metadata['is_default_config'] = True
 
       feed_quantize_configs.append(quantize_config)
 
diff --git a/tensorflow_model_optimization/python/core/quantization/keras/experimental/default_n_bit/default_n_bit_transforms.py b/tensorflow_model_optimization/python/core/quantization/keras/experimental/default_n_bit/default_n_bit_transforms.py
index 20cca74..c2c5cd1 100644
--- a/tensorflow_model_optimization/python/core/quantization/keras/experimental/default_n_bit/default_n_bit_transforms.py
+++ b/tensorflow_model_optimization/python/core/quantization/keras/experimental/default_n_bit/default_n_bit_transforms.py
@@ -751,6 +751,8 @@ class ConcatTransform(transforms.Transform):
 
         quantize_config = default_registry._get_quantize_config(layer_class)
         feed_layer_node.metadata['quantize_config'] = quantize_config
+        # The scheme in use may have another config for this layer.
+        feed_layer_node.metadata['is_default_config'] = True
 
       feed_quantize_configs.append(quantize_config)
 
diff --git a/tensorflow_model_optimization/python/core/quantization/keras/quantize.py b/tensorflow_model_optimization/python/core/quantization/keras/quantize.py
index 1751612..fc4edc2 100644
--- a/tensorflow_model_optimization/python/core/quantization/keras/quantize.py
+++ b/tensorflow_model_optimization/python/core/quantization/keras/quantize.py
@@ -436,6 +436,14 @@ def quantize_apply(
       quantize_config = layer_quantize_map[layer.name].get('quantize_config')
       if not quantize_config and quantize_registry.supports(layer):
         quantize_config = quantize_registry.get_quantize_config(layer)
+      elif (layer_quantize_map[layer.name].get('is_default_config') and
+            quantize_registry.supports(layer)):
+        # A transform filled in the config of the default registry, to disable
+        # output quantization. Where there is none to disable, follow the
+        # registry of the scheme.
+        registry_config = quantize_registry.get_quantize_config(layer)
+        if getattr(registry_config, 'quantize_output', None) is False:
+          quantize_config = registry_config
 
     if not quantize_config:
       error_msg = (
-- 
2.43.0


From 134cd3878b895336b30d81fb9e8033beab6083c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:47:41 +0000
Subject: [PATCH 48/65] fix: give every quantizer a config it can be rebuilt
 from

---
 .../cluster_preserve_quantize_registry.py        | 16 ++++++++++++++++
 .../prune_preserve_quantize_registry.py          |  3 +++
 .../default_8bit/default_8bit_quantizers.py      |  6 ++++++
 .../default_n_bit/default_n_bit_quantizers.py    | 12 ++++++++++++
 4 files changed, 37 insertions(+)

diff --git a/tensorflow_model_optimization/python/core/quantization/keras/collab_opts/cluster_preserve/cluster_preserve_quantize_registry.py b/tensorflow_model_optimization/python/core/quantization/keras/collab_opts/cluster_preserve/cluster_preserve_quantize_registry.py
index 8901496..8478b68 100644
--- a/tensorflow_model_optimization/python/core/quantization/keras/collab_opts/cluster_preserve/cluster_preserve_quantize_registry.py
+++ b/tensorflow_model_optimization/python/core/quantization/keras/collab_opts/cluster_preserve/cluster_preserve_quantize_registry.py
@@ -327,6 +327,16 @@ class ClusterPreserveDefaultWeightsQuantizer(quantizers.LastValueQuantizer):
     )
     self.preserve_sparsity = preserve_sparsity
 
+  def get_config(self):
+    config = super(ClusterPreserveDefaultWeightsQuantizer, self).get_config()
+    config['preserve_sparsity'] = self.preserve_sparsity
+    return config
+
+  def __eq__(self, other):
+    return (isinstance(other, ClusterPreserveDefaultWeightsQuantizer) and
+            self.preserve_sparsity == other.preserve_sparsity and
+            super(ClusterPreserveDefaultWeightsQuantizer, self).__eq__(other))
+
   def _build_clusters(self, name, layer):
     """Extracts the cluster centroids and cluster indices.
 
@@ -523,6 +533,9 @@ class ClusterPreserveDefault8BitWeightsQuantizer(
                          preserve_sparsity=preserve_sparsity)
     self.preserve_sparsity = preserve_sparsity
 
+  def get_config(self):
+    return {'preserve_sparsity': self.preserve_sparsity}
+
 
 class ClusterPreserveDefault8BitConvWeightsQuantizer(
     ClusterPreserveDefaultWeightsQuantizer,
@@ -533,6 +546,9 @@ class ClusterPreserveDefault8BitConvWeightsQuantizer(
     default_8bit_quantizers.Default8BitConvWeightsQuantizer.__init__(self)
     self.preserve_sparsity = preserve_sparsity
 
+  def get_config(self):
+    return {'preserve_sparsity': self.preserve_sparsity}
+
   def build(self, tensor_shape, name, layer):
     result = ClusterPreserveDefaultWeightsQuantizer._build_clusters(
         self, name, layer)
diff --git a/tensorflow_model_optimization/python/core/quantization/keras/collab_opts/prune_preserve/prune_preserve_quantize_registry.py b/tensorflow_model_optimization/python/core/quantization/keras/collab_opts/prune_preserve/prune_preserve_quantize_registry.py
index e8301df..86ca349 100644
--- a/tensorflow_model_optimization/python/core/quantization/keras/collab_opts/prune_preserve/prune_preserve_quantize_registry.py
+++ b/tensorflow_model_optimization/python/core/quantization/keras/collab_opts/prune_preserve/prune_preserve_quantize_registry.py
@@ -319,6 +319,9 @@ class PrunePreserveDefault8BitWeightsQuantizer(
                          symmetric=True,
                          narrow_range=True)
 
+  def get_config(self):
+    return {}
+
 
 class PrunePreserveDefault8BitConvWeightsQuantizer(
     PrunePreserveDefaultWeightsQuantizer,
diff --git a/tensorflow_model_optimization/python/core/quantization/keras/default_8bit/default_8bit_quantizers.py b/tensorflow_model_optimization/python/core/quantization/keras/default_8bit/default_8bit_quantizers.py
index 71ac3d7..c89fb93 100644
--- a/tensorflow_model_optimization/python/core/quantization/keras/default_8bit/default_8bit_quantizers.py
+++ b/tensorflow_model_optimization/python/core/quantization/keras/default_8bit/default_8bit_quantizers.py
@@ -29,6 +29,9 @@ class Default8BitConvWeightsQuantizer(quantizers.LastValueQuantizer):
     super(Default8BitConvWeightsQuantizer, self).__init__(
         num_bits=8, per_axis=True, symmetric=True, narrow_range=True)
 
+  def get_config(self):
+    return {}
+
   def build(self, tensor_shape, name, layer):
     min_weight = layer.add_weight(
         name + '_min',
@@ -55,6 +58,9 @@ class Default8BitConvTransposeWeightsQuantizer(quantizers.LastValueQuantizer):
     super(Default8BitConvTransposeWeightsQuantizer, self).__init__(
         num_bits=8, per_axis=False, symmetric=True, narrow_range=True)
 
+  def get_config(self):
+    return {}
+
   def __call__(self, inputs, training, weights, **kwargs):
     outputs = tf.transpose(inputs, (0, 1, 3, 2))
     outputs = super(Default8BitConvTransposeWeightsQuantizer,
diff --git a/tensorflow_model_optimization/python/core/quantization/keras/experimental/default_n_bit/default_n_bit_quantizers.py b/tensorflow_model_optimization/python/core/quantization/keras/experimental/default_n_bit/default_n_bit_quantizers.py
index ac52769..8c30a4b 100644
--- a/tensorflow_model_optimization/python/core/quantization/keras/experimental/default_n_bit/default_n_bit_quantizers.py
+++ b/tensorflow_model_optimization/python/core/quantization/keras/experimental/default_n_bit/default_n_bit_quantizers.py
@@ -34,6 +34,12 @@ class DefaultNBitConvWeightsQuantizer(quantizers.LastValueQuantizer):
     self._num_bits_weight = num_bits_weight
     self._num_bits_activation = num_bits_activation
 
+  def get_config(self):
+    return {
+        'num_bits_weight': self._num_bits_weight,
+        'num_bits_activation': self._num_bits_activation,
+    }
+
   def build(self, tensor_shape, name, layer):
     min_weight = layer.add_weight(
         name + '_min',
@@ -64,6 +70,12 @@ class DefaultNBitConvTransposeWeightsQuantizer(quantizers.LastValueQuantizer):
     self._num_bits_weight = num_bits_weight
     self._num_bits_activation = num_bits_activation
 
+  def get_config(self):
+    return {
+        'num_bits_weight': self._num_bits_weight,
+        'num_bits_activation': self._num_bits_activation,
+    }
+
   def __call__(self, inputs, training, weights, **kwargs):
     outputs = tf.transpose(inputs, (0, 1, 3, 2))
     outputs = super(DefaultNBitConvTransposeWeightsQuantizer,
-- 
2.43.0


From e7b57ad15b1c2077eb6c09a4d3e7d032edf77678 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:47:41 +0000
Subject: [PATCH 49/65] fix: rebuild wrapped quantize configs from plain,
 unchanged data

---
 .../python/core/quantization/keras/quantize_config.py        | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/tensorflow_model_optimization/python/core/quantization/keras/quantize_config.py b/tensorflow_model_optimization/python/core/quantization/keras/quantize_config.py
index 0711a7e..c32bde6 100644
--- a/tensorflow_model_optimization/python/core/quantization/keras/quantize_config.py
+++ b/tensorflow_model_optimization/python/core/quantization/keras/quantize_config.py
@@ -229,6 +229,10 @@ class OutputOnlyConfig(QuantizeConfig):
 
   @classmethod
   def from_config(cls, config):
+    config = config.copy()
+    if isinstance(config['quantize_config'], dict):
+      config['quantize_config'] = quantize_utils.deserialize_keras_object(
+          config['quantize_config'])
     return cls(**config)
 
 
@@ -280,5 +284,6 @@ class FixedQuantizeConfig(QuantizeConfig):
 
   @classmethod
   def from_config(cls, config):
+    config = config.copy()
     config['config'] = quantize_utils.deserialize_keras_object(config['config'])
     return cls(**config)
-- 
2.43.0


From a285a6843d5abb8d732eb55e4b087965fb85b79d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:47:41 +0000
Subject: [PATCH 50/65] fix: set the input range of quantize layers only

---
 .../python/core/quantization/keras/quantize.py              | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/tensorflow_model_optimization/python/core/quantization/keras/quantize.py b/tensorflow_model_optimization/python/core/quantization/keras/quantize.py
index fc4edc2..98d495f 100644
--- a/tensorflow_model_optimization/python/core/quantization/keras/quantize.py
+++ b/tensorflow_model_optimization/python/core/quantization/keras/quantize.py
@@ -640,6 +640,9 @@ def fix_input_output_range(
   if _is_functional_model(model):
     input_layer_list = _nested_to_flatten_node_data_list(config['input_layers'])
     for layer_config in config['layers']:
+      if layer_config['class_name'] != 'QuantizeLayer':
+        # Layers that are not quantized may take the input as it is.
+        continue
       input_name = _unwrap_first_input_name(layer_config['inbound_nodes'])
       if input_name is None:
         continue
@@ -726,6 +729,9 @@ def remove_input_range(model):
   if _is_functional_model(model):
     input_layer_list = _nested_to_flatten_node_data_list(config['input_layers'])
     for layer_config in config['layers']:
+      if layer_config['class_name'] != 'QuantizeLayer':
+        # Layers that are not quantized may take the input as it is.
+        continue
       input_name = _unwrap_first_input_name(layer_config['inbound_nodes'])
       if input_name is None:
         continue
-- 
2.43.0


From 283f448b8be097a809fedd40fccd3d992c47b89d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:47:41 +0000
Subject: [PATCH 51/65] fix: do not train the weights of frozen quantized
 layers

---
 .../python/core/quantization/keras/quantize_wrapper.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/tensorflow_model_optimization/python/core/quantization/keras/quantize_wrapper.py b/tensorflow_model_optimization/python/core/quantization/keras/quantize_wrapper.py
index 06db86a..183273e 100644
--- a/tensorflow_model_optimization/python/core/quantization/keras/quantize_wrapper.py
+++ b/tensorflow_model_optimization/python/core/quantization/keras/quantize_wrapper.py
@@ -231,11 +231,17 @@ class QuantizeWrapper(keras.layers.Wrapper):
 
   @property
   def trainable_weights(self):
+    if not self.trainable:
+      return []
     return self.layer.trainable_weights + self._trainable_weights
 
   @property
   def non_trainable_weights(self):
-    return self.layer.non_trainable_weights + self._non_trainable_weights
+    weights = self.layer.non_trainable_weights + self._non_trainable_weights
+    if not self.trainable:
+      # The wrapper tracks the weights which it quantizes.
+      return self._dedup_weights(self._trainable_weights + weights)
+    return weights
 
   @property
   def updates(self):
@@ -260,6 +266,8 @@ class QuantizeWrapperV2(QuantizeWrapper):
 
   @property
   def trainable_weights(self):
+    if not self.trainable:
+      return []
     # Change the order to keep the weight order after applying QAT.
     return self._dedup_weights(
         self._trainable_weights + self.layer.trainable_weights)
-- 
2.43.0


From 73c632208b83bef234e660adf770c71128be9959 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:47:41 +0000
Subject: [PATCH 52/65] fix: compute the output shape of a quantized layer for
 the given input

---
 .../python/core/quantization/keras/quantize_wrapper.py          | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tensorflow_model_optimization/python/core/quantization/keras/quantize_wrapper.py b/tensorflow_model_optimization/python/core/quantization/keras/quantize_wrapper.py
index 183273e..bdbbb3c 100644
--- a/tensorflow_model_optimization/python/core/quantization/keras/quantize_wrapper.py
+++ b/tensorflow_model_optimization/python/core/quantization/keras/quantize_wrapper.py
@@ -135,7 +135,7 @@ class QuantizeWrapper(keras.layers.Wrapper):
           self.layer.compute_output_shape(input_shape), 'output', self)
 
   def compute_output_shape(self, input_shape):
-    return self.layer.compute_output_shape(self.layer.input_shape)
+    return self.layer.compute_output_shape(input_shape)
 
   def _make_quantizer_fn(self, quantizer, x, training, quantizer_vars):
     """Use currying to return True/False specialized fns to the cond."""
-- 
2.43.0


From eec7bfa962cc12f54d90a9ea45d1d95802bd4de0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:47:41 +0000
Subject: [PATCH 53/65] fix: leave layers alone that take several inputs from
 one layer

---
 .../keras/graph_transformations/model_transformer.py         | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/tensorflow_model_optimization/python/core/quantization/keras/graph_transformations/model_transformer.py b/tensorflow_model_optimization/python/core/quantization/keras/graph_transformations/model_transformer.py
index 4587f91..e4d8cd6 100644
--- a/tensorflow_model_optimization/python/core/quantization/keras/graph_transformations/model_transformer.py
+++ b/tensorflow_model_optimization/python/core/quantization/keras/graph_transformations/model_transformer.py
@@ -234,6 +234,11 @@ class ModelTransformer(object):
     # tensors and multiple tensors from that layer may be used by the
     # connection. Ignoring those for now.
     input_layer_names = self._get_input_layer_names(layer)
+    if len(set(input_layer_names)) != len(input_layer_names):
+      # This layer takes several inputs from the same layer, which a pattern
+      # cannot express.
+      return None
+
     # The layers in the config may be ordered differently from the inputs, which
     # have to keep their positions when this layer is replaced.
     input_layers = sorted(
-- 
2.43.0


From 74565b80aafc25dbc3c3b6b45b99bec11aaf33ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:47:41 +0000
Subject: [PATCH 54/65] fix: keep call arguments of layers that a transform
 keeps

---
 .../graph_transformations/model_transformer.py      | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/tensorflow_model_optimization/python/core/quantization/keras/graph_transformations/model_transformer.py b/tensorflow_model_optimization/python/core/quantization/keras/graph_transformations/model_transformer.py
index e4d8cd6..1731027 100644
--- a/tensorflow_model_optimization/python/core/quantization/keras/graph_transformations/model_transformer.py
+++ b/tensorflow_model_optimization/python/core/quantization/keras/graph_transformations/model_transformer.py
@@ -365,17 +365,24 @@ class ModelTransformer(object):
       if not layer_node.input_layers:
         return
 
+      # A layer which stays keeps its call() args, and the tensors it takes from
+      # layers which stay.
+      inbound_nodes = layer_node.layer.get('inbound_nodes')
+      connections = inbound_nodes[0] if inbound_nodes else []
+      tensors = {connection[0]: connection[1:3] for connection in connections}
+      call_args = connections[0][3] if connections else {}
+
       layer_node.layer['inbound_nodes'] = [[]]
       for input_layer in layer_node.input_layers:
         # inbound_nodes can be specific tensors from multiple inbound
         # connections. We make the following assumptions.
         # - Only 1 inbound node for each replacement layer.
-        # - Only 1 tensor output from the previous layer which is connected.
-        # - call() method during construction does not have any args.
+        # - New layers output only 1 tensor, and have no call() args.
         # These are reasonable assumptions for almost all case we are
         # interested in.
+        input_name = input_layer.layer['config']['name']
         layer_node.layer['inbound_nodes'][0].append(
-            [input_layer.layer['config']['name'], 0, 0, {}])
+            [input_name, *tensors.get(input_name, [0, 0]), dict(call_args)])
 
         _assign_inbounds_for_replacement(input_layer)
 
-- 
2.43.0


From ff80ed441001476856eada351af60d39ee18d14f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:47:41 +0000
Subject: [PATCH 55/65] fix: transform models with empty list arguments

---
 .../keras/graph_transformations/model_transformer.py          | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tensorflow_model_optimization/python/core/quantization/keras/graph_transformations/model_transformer.py b/tensorflow_model_optimization/python/core/quantization/keras/graph_transformations/model_transformer.py
index 1731027..eca134c 100644
--- a/tensorflow_model_optimization/python/core/quantization/keras/graph_transformations/model_transformer.py
+++ b/tensorflow_model_optimization/python/core/quantization/keras/graph_transformations/model_transformer.py
@@ -95,7 +95,7 @@ class ModelTransformer(object):
         # **kwarg argument case.
         inbound_layer_names += [
             value[0] for value in connection_info[3].values() if isinstance(
-                value, list)
+                value, list) and value
         ]
 
     return inbound_layer_names
@@ -341,7 +341,7 @@ class ModelTransformer(object):
         connection_info[0] = replacement_name
       for key in connection_info[3]:
         if isinstance(connection_info[3][key], list):
-          if connection_info[3][key][0] == match_name:
+          if connection_info[3][key][:1] == [match_name]:
             connection_info[3][key][0] = replacement_name
 
     for consumer in consuming_layers:
-- 
2.43.0


From 399cd9ef8ed077f11d80e1f1c463d85ba98b6b62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:47:41 +0000
Subject: [PATCH 56/65] fix: transform only the given candidate layers

---
 .../keras/graph_transformations/model_transformer.py   | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/tensorflow_model_optimization/python/core/quantization/keras/graph_transformations/model_transformer.py b/tensorflow_model_optimization/python/core/quantization/keras/graph_transformations/model_transformer.py
index eca134c..5c28084 100644
--- a/tensorflow_model_optimization/python/core/quantization/keras/graph_transformations/model_transformer.py
+++ b/tensorflow_model_optimization/python/core/quantization/keras/graph_transformations/model_transformer.py
@@ -60,7 +60,9 @@ class ModelTransformer(object):
 
     self.model = model
     self.transforms = transforms
-    self.candidate_layers = candidate_layers
+    # Copied since the names of replacement layers get added.
+    self.candidate_layers = (
+        None if candidate_layers is None else set(candidate_layers))
     self.layer_metadata = layer_metadata
 
   def _is_sequential_or_functional_model(self, model):
@@ -139,7 +141,7 @@ class ModelTransformer(object):
   def _match_layer(self, layer, pattern):
     """Check if specific layer matches the pattern."""
 
-    if self.candidate_layers and \
+    if self.candidate_layers is not None and \
         layer['config']['name'] not in self.candidate_layers:
       return False
 
@@ -431,7 +433,7 @@ class ModelTransformer(object):
             layer_name] = layer_node.names_and_weights
       if layer_node.metadata:
         self._layer_metadata_map[layer_name] = layer_node.metadata
-      if self.candidate_layers:
+      if self.candidate_layers is not None:
         self.candidate_layers.add(layer_name)
 
       for input_layer in layer_node.input_layers:
@@ -480,7 +482,7 @@ class ModelTransformer(object):
               layer_name] = replacement_node.names_and_weights
         if replacement_node.metadata:
           self._layer_metadata_map[layer_name] = replacement_node.metadata
-        if self.candidate_layers:
+        if self.candidate_layers is not None:
           self.candidate_layers.add(layer_name)
         i += 1
 
-- 
2.43.0


From 4aea9c3be221f81b07fe50c4b0ed61b2cdaadbcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:47:41 +0000
Subject: [PATCH 57/65] fix: match patterns with inputs against input layers

---
 .../keras/graph_transformations/model_transformer.py           | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/tensorflow_model_optimization/python/core/quantization/keras/graph_transformations/model_transformer.py b/tensorflow_model_optimization/python/core/quantization/keras/graph_transformations/model_transformer.py
index 5c28084..8fa9910 100644
--- a/tensorflow_model_optimization/python/core/quantization/keras/graph_transformations/model_transformer.py
+++ b/tensorflow_model_optimization/python/core/quantization/keras/graph_transformations/model_transformer.py
@@ -205,6 +205,9 @@ class ModelTransformer(object):
     """Get the names of a layer's input layers."""
     if self._is_functional_model(self.model):
       inbound_nodes = layer['inbound_nodes']
+      if not inbound_nodes:
+        # Input layers have no inputs.
+        return []
       return [connection_info[0] for connection_info in inbound_nodes[0]]
     else:  # Sequential model.
       layers = self._config['layers']
-- 
2.43.0


From d9deb0ce48932dfb1baad8f4873c0e4df12f4765 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:05:55 +0000
Subject: [PATCH 58/65] fix: PCQAT zeroes a centroid of channels that have no
 zeros

---
 .../cluster_preserve/cluster_preserve_quantize_registry.py    | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tensorflow_model_optimization/python/core/quantization/keras/collab_opts/cluster_preserve/cluster_preserve_quantize_registry.py b/tensorflow_model_optimization/python/core/quantization/keras/collab_opts/cluster_preserve/cluster_preserve_quantize_registry.py
index 8478b68..132167a 100644
--- a/tensorflow_model_optimization/python/core/quantization/keras/collab_opts/cluster_preserve/cluster_preserve_quantize_registry.py
+++ b/tensorflow_model_optimization/python/core/quantization/keras/collab_opts/cluster_preserve/cluster_preserve_quantize_registry.py
@@ -370,8 +370,8 @@ class ClusterPreserveDefaultWeightsQuantizer(quantizers.LastValueQuantizer):
 
     if preserve_sparsity:
       sparsity_mask = tf.math.divide_no_nan(weights, weights)
-      zero_idx = tf.argmin(tf.abs(centroids), axis=-1)
-      centroids_mask = 1.0 - tf.one_hot(zero_idx, num_centroids)
+      # Not every channel needs to have a zero centroid.
+      centroids_mask = tf.cast(tf.not_equal(centroids, 0), centroids.dtype)
       result = {SPARSITY_MASK: sparsity_mask}
 
     # Prepare clustering variables for the Keras graph when clusters
-- 
2.43.0


From 8480a851ae594834e36e2c6f5fb7cc424e5d295c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:05:55 +0000
Subject: [PATCH 59/65] fix: CQAT splits the clusters of layers clustered as a
 whole

---
 .../cluster_preserve/cluster_preserve_quantize_registry.py  | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/tensorflow_model_optimization/python/core/quantization/keras/collab_opts/cluster_preserve/cluster_preserve_quantize_registry.py b/tensorflow_model_optimization/python/core/quantization/keras/collab_opts/cluster_preserve/cluster_preserve_quantize_registry.py
index 132167a..65cafe2 100644
--- a/tensorflow_model_optimization/python/core/quantization/keras/collab_opts/cluster_preserve/cluster_preserve_quantize_registry.py
+++ b/tensorflow_model_optimization/python/core/quantization/keras/collab_opts/cluster_preserve/cluster_preserve_quantize_registry.py
@@ -105,8 +105,10 @@ def get_centroids(layer, weight, data_format):
   max_centroid = max(num_centroids)
   max_diff = max_centroid - min(num_centroids)
 
-  if max_diff > 1:
-    centroids, index = get_unique(weight)
+  centroids, index = get_unique(weight)
+  # Channels which all pick from the values of one of them are not clustered
+  # per channel, but together.
+  if max_diff > 1 or tf.size(centroids) == max_centroid:
     return centroids, tf.size(centroids), index, False
 
   for i, centroid in enumerate(channel_centroids):
-- 
2.43.0


From 2cee26c3cf5199b31a5ca71fa7aeacccf9039134 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:07:12 +0000
Subject: [PATCH 60/65] fix: strip_clustering_cqat skips layers called
 depthwise

---
 .../cluster_preserve/cluster_utils.py         | 31 +++++++++----------
 1 file changed, 15 insertions(+), 16 deletions(-)

diff --git a/tensorflow_model_optimization/python/core/quantization/keras/collab_opts/cluster_preserve/cluster_utils.py b/tensorflow_model_optimization/python/core/quantization/keras/collab_opts/cluster_preserve/cluster_utils.py
index 0226163..98ccd5b 100644
--- a/tensorflow_model_optimization/python/core/quantization/keras/collab_opts/cluster_preserve/cluster_utils.py
+++ b/tensorflow_model_optimization/python/core/quantization/keras/collab_opts/cluster_preserve/cluster_utils.py
@@ -86,22 +86,21 @@ def strip_clustering_cqat(to_strip):
     # we only handle conv2d and dense layers here
     if hasattr(layer, 'layer'):
       # pylint:disable=protected-access
-      if 'depthwise' not in layer.layer.name:
-        if isinstance(layer.layer, (keras.layers.Conv2D, keras.layers.Dense)):
-          new_variables = []
-          for v in layer._trainable_weights:
-            if 'cluster_centroids_tf' in v.name or (
-                'ori_weights_vars_tf' in v.name):
-              continue
-            new_variables.append(v)
-          layer._trainable_weights = new_variables
-
-          new_variables = []
-          for v in layer._non_trainable_weights:
-            if 'pulling_indices_tf' in v.name:
-              continue
-            new_variables.append(v)
-          layer._non_trainable_weights = new_variables
+      if isinstance(layer.layer, (keras.layers.Conv2D, keras.layers.Dense)):
+        new_variables = []
+        for v in layer._trainable_weights:
+          if 'cluster_centroids_tf' in v.name or (
+              'ori_weights_vars_tf' in v.name):
+            continue
+          new_variables.append(v)
+        layer._trainable_weights = new_variables
+
+        new_variables = []
+        for v in layer._non_trainable_weights:
+          if 'pulling_indices_tf' in v.name:
+            continue
+          new_variables.append(v)
+        layer._non_trainable_weights = new_variables
 
     return layer
 
-- 
2.43.0


From 166c50e4aeec465830143b84923a078c90e6fd99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:42:47 +0000
Subject: [PATCH 61/65] fix: ClusteringSummaries never sees a batch

Keras calls the batch hooks of a TensorBoard callback only while it traces the training, so
histograms with a batch frequency were never written and those per epoch all had step 0.
---
 .../python/core/clustering/keras/clustering_callbacks.py     | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/tensorflow_model_optimization/python/core/clustering/keras/clustering_callbacks.py b/tensorflow_model_optimization/python/core/clustering/keras/clustering_callbacks.py
index 7bb825b..eb88495 100644
--- a/tensorflow_model_optimization/python/core/clustering/keras/clustering_callbacks.py
+++ b/tensorflow_model_optimization/python/core/clustering/keras/clustering_callbacks.py
@@ -51,6 +51,11 @@ class ClusteringSummaries(keras.callbacks.TensorBoard):
 
     self.continuous_batch = 0
 
+  def _implements_train_batch_hooks(self):
+    # Keras skips the batch hooks of TensorBoard unless it traces the training.
+    # The number of batches is needed for the steps of the summaries.
+    return True
+
   def on_train_batch_begin(self, batch, logs=None):
     super().on_train_batch_begin(batch, logs)
     # Count batches manually to get a continuous batch count spanning
-- 
2.43.0


From 1de66c61f734ef90ccbb5ac15d4320df432be9c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:42:47 +0000
Subject: [PATCH 62/65] fix: ClusteringSummaries leaves out the layers of
 nested models

---
 .../core/clustering/keras/clustering_callbacks.py      | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/tensorflow_model_optimization/python/core/clustering/keras/clustering_callbacks.py b/tensorflow_model_optimization/python/core/clustering/keras/clustering_callbacks.py
index eb88495..e896d23 100644
--- a/tensorflow_model_optimization/python/core/clustering/keras/clustering_callbacks.py
+++ b/tensorflow_model_optimization/python/core/clustering/keras/clustering_callbacks.py
@@ -82,9 +82,17 @@ class ClusteringSummaries(keras.callbacks.TensorBoard):
     if self.cluster_update_freq == 'epoch':
       self._write_summary()
 
+  def _layers(self, model):
+    # The layers of the model, with those of the models inside it.
+    for layer in model.layers:
+      if isinstance(layer, keras.Model):
+        yield from self._layers(layer)
+      else:
+        yield layer
+
   def _write_summary(self):
     with self.writer.as_default():
-      for layer in self.model.layers:
+      for layer in self._layers(self.model):
         if not hasattr(layer, 'layer') or not hasattr(
             layer.layer, 'get_clusterable_weights'):
           continue  # skip layer
-- 
2.43.0


From 827e1c1b5a6bd04b4efc4d83c8af45bf5341703f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:43:17 +0000
Subject: [PATCH 63/65] fix: PruningSummaries loses layers which share a name

Layers of different nested models can have the same name; only the last of them was logged.
---
 .../core/sparsity/keras/pruning_callbacks.py       | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/tensorflow_model_optimization/python/core/sparsity/keras/pruning_callbacks.py b/tensorflow_model_optimization/python/core/sparsity/keras/pruning_callbacks.py
index 555de78..ff5633a 100644
--- a/tensorflow_model_optimization/python/core/sparsity/keras/pruning_callbacks.py
+++ b/tensorflow_model_optimization/python/core/sparsity/keras/pruning_callbacks.py
@@ -130,12 +130,18 @@ class PruningSummaries(callbacks.TensorBoard):
 
     param_value_pairs = list(zip(params, values))
 
+    def add_log(name, value):
+      # Layers of different nested models can have the same name.
+      unique_name, count = name, 0
+      while unique_name in pruning_logs:
+        count += 1
+        unique_name = '{}_{}'.format(name, count)
+      pruning_logs[unique_name] = value
+
     for mask, mask_value in param_value_pairs[::2]:
-      pruning_logs.update({
-          mask.name + '/sparsity': 1 - np.mean(mask_value)
-      })
+      add_log(mask.name + '/sparsity', 1 - np.mean(mask_value))
 
     for threshold, threshold_value in param_value_pairs[1::2]:
-      pruning_logs.update({threshold.name + '/threshold': threshold_value})
+      add_log(threshold.name + '/threshold', threshold_value)
 
     self._log_pruning_metrics(pruning_logs, '', iteration)
-- 
2.43.0


From a0811ec12b21e4e95253b6809e1b9e84fdeac395 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:51:04 +0000
Subject: [PATCH 64/65] fix: per-channel clustering of channels_first
 convolutions clusters per kernel column

Keras keeps the channels of a kernel last whatever the data format of the layer is.
---
 .../python/core/clustering/keras/cluster.py              | 3 +--
 .../python/core/clustering/keras/cluster_wrapper.py      | 9 +++------
 2 files changed, 4 insertions(+), 8 deletions(-)

diff --git a/tensorflow_model_optimization/python/core/clustering/keras/cluster.py b/tensorflow_model_optimization/python/core/clustering/keras/cluster.py
index 34bc608..51ad279 100644
--- a/tensorflow_model_optimization/python/core/clustering/keras/cluster.py
+++ b/tensorflow_model_optimization/python/core/clustering/keras/cluster.py
@@ -403,8 +403,7 @@ def layer_has_enough_weights_to_cluster(layer, number_of_clusters,
     raise ValueError(f'Layer {layer.name} has no weights to cluster.')
 
   number_of_layer_weights = tf.cast(tf.size(getattr(layer, 'kernel')), tf.int32)
-  channel_idx = 1 if layer.data_format == 'channels_first' else -1
-  number_of_channels = layer.kernel.shape[channel_idx]
+  number_of_channels = layer.kernel.shape[-1]
 
   if cluster_per_channel:
     weights_to_cluster = number_of_layer_weights / number_of_channels
diff --git a/tensorflow_model_optimization/python/core/clustering/keras/cluster_wrapper.py b/tensorflow_model_optimization/python/core/clustering/keras/cluster_wrapper.py
index 5aa838d..9265d58 100644
--- a/tensorflow_model_optimization/python/core/clustering/keras/cluster_wrapper.py
+++ b/tensorflow_model_optimization/python/core/clustering/keras/cluster_wrapper.py
@@ -152,12 +152,9 @@ class ClusterWeights(Wrapper):
         hasattr(layer, '_batch_input_shape')):
       self._batch_input_shape = self.layer._batch_input_shape
 
-    # In the case of Conv2D layer, the data_format needs to be preserved to be
-    # used for per-channel clustering
-    if hasattr(layer, 'data_format'):
-      self.data_format = self.layer.data_format
-    else:
-      self.data_format = 'channels_last'
+    # Used for per-channel clustering. The channels of a kernel come last,
+    # whatever the data format of the layer.
+    self.data_format = 'channels_last'
 
     # Save the input shape specified in the build
     self.build_input_shape = None
-- 
2.43.0


From fbe8c2da79d2b11a62e85b045515b08c9feb95f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:52:36 +0000
Subject: [PATCH 65/65] fix: CQAT of channels_first convolutions takes the
 kernel's columns for channels

Kernels are stored with the output channels last whatever the data format,
so the per-channel clustering algorithm has to look at the last axis.
---
 .../cluster_preserve/cluster_preserve_quantize_registry.py   | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/tensorflow_model_optimization/python/core/quantization/keras/collab_opts/cluster_preserve/cluster_preserve_quantize_registry.py b/tensorflow_model_optimization/python/core/quantization/keras/collab_opts/cluster_preserve/cluster_preserve_quantize_registry.py
index 65cafe2..0a550b5 100644
--- a/tensorflow_model_optimization/python/core/quantization/keras/collab_opts/cluster_preserve/cluster_preserve_quantize_registry.py
+++ b/tensorflow_model_optimization/python/core/quantization/keras/collab_opts/cluster_preserve/cluster_preserve_quantize_registry.py
@@ -365,8 +365,9 @@ class ClusterPreserveDefaultWeightsQuantizer(quantizers.LastValueQuantizer):
           'Input layer does not contain zero weights, so apply CQAT instead.')
     centroids_mask = None
 
-    # Detects whether layer is convolutional and is clustered per channel
-    data_format = getattr(layer.layer, 'data_format', None)
+    # Detects whether layer is convolutional and is clustered per channel. The
+    # channels of a kernel come last, whatever the data format of the layer.
+    data_format = 'channels_last'
     centroids, num_centroids, lookup, cluster_per_channel = get_centroids(
         layer, weights, data_format)
 
-- 
2.43.0

