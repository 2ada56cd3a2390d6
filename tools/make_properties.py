"""Regenerates /verif/properties.jsonl from the table below."""
import json, os
B = 'tensorflow_model_optimization/python/core/'
SP = B + 'sparsity/keras/'
CL = B + 'clustering/keras/'
QT = B + 'quantization/keras/'
CO = B + 'common/keras/compression/'
TE = B + 'internal/tensor_encoding/'
P = []


def p(id, title, statement, over, text, why, files, mech, observe, state=()):
  assert len(title) <= 80, title
  P.append(dict(
      id=id, title=title, statement=statement,
      quantifier=dict(over=over, text=text), why_tests_cant=why,
      anchors=dict(files=files,
                   state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                   mechanism=[dict(name=a, where=b) for a, b in mech],
                   observe_at=observe, hook_needed=None)))


p('C01', 'Pruning schedules fire and interpolate exactly as configured',
  'For every pruning schedule and every training step, pruning is active exactly on the steps that lie inside the configured begin/end window (unbounded for a constant schedule whose end is -1) and are a whole number of pruning periods after the begin step. A constant schedule always reports its target sparsity; a polynomial schedule (of positive power) reports its initial sparsity before the begin step, its final sparsity from the end step on, and final + (initial - final) * (1 - progress)^power in between. Schedules survive a configuration round trip unchanged, and out-of-range parameters (negative or inverted steps, non-positive periods, sparsities outside [0, 1)) are rejected.',
  ['inputs', 'configurations'], 'all schedule parameters x all steps before, at, inside, at the end of and after the window, eager and traced',
  'tests sample a handful of (begin, end, frequency, step) tuples; off-by-one errors and window/phase interactions live in the combinations between them',
  [SP + 'pruning_schedule.py'],
  [('PruningSchedule._should_prune_in_step / ConstantSparsity / PolynomialDecay', SP + 'pruning_schedule.py')],
  ['value returned by calling a schedule on a step'])

p('C02', 'Magnitude pruning masks keep exactly the largest weights',
  'Whenever a magnitude mask is computed for a weight tensor at target sparsity s, the mask is 0/1, has the weight\'s shape and dtype, never prunes an element larger in magnitude than one it keeps, and keeps exactly max(1, round(size * (1 - s))) elements, except that elements tied with the smallest kept magnitude are all kept. The reported threshold is the smallest kept magnitude, and applying the mask leaves kept weights bit-identical and the rest exactly zero.',
  ['inputs', 'configurations'], 'all weight tensors (ranks 1-5, ties, zeros, signs, extreme magnitudes, dtypes), all target sparsities',
  'tests use small arange-like tensors at 50%; ties, rounding, tiny tensors and high ranks are not enumerated',
  [SP + 'pruning_impl.py'],
  [('Pruning._update_mask, weight_mask_op', SP + 'pruning_impl.py')],
  ['mask, threshold and weight variables after a mask update'],
  [('mask', '0/1 survivor map of a weight', SP + 'pruning_wrapper.py')])

p('C03', 'Block pruning removes whole blocks, the weakest ones first',
  'With a block size configured for a rank-2 weight, the mask is constant over every block of the grid anchored at the origin (blocks cut by the far edges count as blocks), so weights are pruned only as whole blocks. Blocks are ranked by the average or the maximum (as configured) magnitude of the weights they really contain, and max(1, round(number_of_blocks * (1 - s))) of them, the strongest, survive. Block sparsity on weights of another rank and unknown pooling names are rejected.',
  ['inputs', 'configurations'], 'all rank-2 shapes and block sizes including non-dividing and oversized blocks, both pooling types, all sparsities',
  'tests use one or two shapes that divide evenly',
  [SP + 'pruning_impl.py', SP + 'pruning_utils.py'],
  [('Pruning._maybe_update_block_mask', SP + 'pruning_impl.py'), ('factorized_pool, expand_tensor', SP + 'pruning_utils.py')],
  ['mask variable after an update'])

p('C04', 'm-by-n structured sparsity zeroes the m smallest of every n',
  'With m-by-n sparsity, in every complete group of n consecutive weights along the input-channel dimension exactly m mask entries are zero and they are the m smallest magnitudes of the group, for rank-2 and rank-4 weights, including widths not divisible by n. The mask is established at the first training step and stays fixed from then on, and a configuration round trip (save, load, clone) keeps the structure request. The shipped structure checkers report a weight as m-by-n sparse exactly when it is.',
  ['inputs', 'configurations', 'histories'], 'all weight shapes, all 1<=m<n patterns, all training lengths, save/clone points',
  'tests use (2,4) on fixed shapes and never reload a structured-sparse model',
  [SP + 'pruning_utils.py', SP + 'pruning_impl.py', SP + 'pruning_wrapper.py', SP + 'tools/check_sparsity_m_by_n.py'],
  [('generate_m_by_n_mask, weights_rearrange, m_by_n_sparsity_mask_prepare, is_pruned_m_by_n', SP + 'pruning_utils.py'),
   ('conditional_mask_update', SP + 'pruning_impl.py')],
  ['mask variable and weights during and after training', 'verdict of the checkers'])

p('C05', 'Pruning masks evolve only as scheduled over any training history',
  'Over any sequence of training and inference calls, each pruned layer\'s step counter (for a layer called once per batch) starts at 0 when training starts and grows by exactly one per training batch; inference never changes step, masks or thresholds. The mask changes only at training steps the schedule marks active and then equals the magnitude mask of the current weights at the scheduled sparsity; masked-out weights contribute nothing to any forward pass and are exactly zero at the end of every epoch. Training without the step-updating callback fails loudly.',
  ['histories', 'configurations'], 'all interleavings of fit, train_on_batch, evaluate, predict, compile and schedules, optimizers with momentum, one or several replicas',
  'tests run one short fit with one schedule',
  [SP + 'pruning_wrapper.py', SP + 'pruning_impl.py', SP + 'pruning_callbacks.py', B + 'keras/utils.py'],
  [('PruneLowMagnitude.call', SP + 'pruning_wrapper.py'), ('UpdatePruningStep', SP + 'pruning_callbacks.py'), ('conditional_mask_update', SP + 'pruning_impl.py')],
  ['step, mask, threshold and weight variables before and after every batch'],
  [('pruning_step', 'training batches seen', SP + 'pruning_wrapper.py')])

p('C06', 'A pruned model saved and restored mid-training continues unchanged',
  'Saving a model that is being pruned (whole model or weights only) at any point and restoring it yields the same step counter, masks, thresholds, weights, pruning schedule, block and structure settings, so that continuing training on the same data produces the same weights and masks as never having stopped. Cloning or re-creating a pruned model from its configuration reproduces the pruning settings.',
  ['crash_points', 'configurations'], 'every batch count at which training may stop, every save format, schedule kind and layer kind',
  'tests save once and compare configs or predictions, not the continuation',
  [SP + 'pruning_wrapper.py', SP + 'pruning_schedule.py', SP + 'prune.py', SP + 'pruning_callbacks.py'],
  [('PruneLowMagnitude.get_config/from_config', SP + 'pruning_wrapper.py'), ('prune_scope', SP + 'prune.py'), ('UpdatePruningStep.on_train_begin', SP + 'pruning_callbacks.py')],
  ['all variables of interrupted and uninterrupted runs'])

p('C07', 'Stripping pruning returns the plain model with the sparse weights',
  'Removing the pruning wrappers from any model yields a model with the original layer types, names, configuration, topology and weight list, with no pruning state left. Its weights are those of the pruned model, so its outputs are identical and every pruned weight is still zero. Nested models are stripped at every depth, and an unpruned model comes back equivalent.',
  ['programs', 'histories'], 'all sequential, functional and nested models over prunable and unprunable layers, at any time in training',
  'tests strip a few one-layer or two-layer models',
  [SP + 'prune.py'], [('strip_pruning', SP + 'prune.py')],
  ['structure, weights and outputs of the model before and after'])

p('C08', 'Wrapping for pruning selects only prunable weights and is transparent',
  'Wrapping a layer or model for pruning places masks on exactly the weights declared prunable for each layer (kernels, recurrent kernels, embeddings or what a custom layer declares - never biases or normalisation parameters); layers without a declaration are rejected. Until a mask is computed, the wrapped model (of layers using the global dtype policy) computes the same function as the original in both training and inference mode, with the same trainable variables, losses, output shapes and original weight values.',
  ['programs', 'configurations'], 'all supported layer kinds incl. RNN cells, bidirectional-free RNN stacks and attention, wrapped singly, in lists, or as whole models',
  'tests check chosen layers only for successful wrapping',
  [SP + 'prune.py', SP + 'prune_registry.py', SP + 'pruning_wrapper.py'],
  [('PruneRegistry', SP + 'prune_registry.py'), ('prune_low_magnitude', SP + 'prune.py'), ('PruneLowMagnitude', SP + 'pruning_wrapper.py')],
  ['pruned variables; outputs, losses and trainables of original and wrapped models'])

p('C09', 'The latency pruning policy prunes exactly the layers it promises',
  'With the XNNPACK latency policy, a model is accepted exactly when it is a built functional or sequential model in which every path from an input meets an entry convolution (3x3, 3 input channels, stride 2, valid padding, fed only by a zero padding of one pixel on each side), every path back from the outputs meets a global average pooling, and every layer in between is one the sparse inference engine runs (1x1 stride-1 convolutions, the supported depthwise convolutions and paddings, elementwise additions and multiplications, the supported activations, normalisation, bilinear upsampling). In an accepted model exactly the 1x1 convolutions are wrapped for pruning and all other layers are left alone; every other model is rejected rather than silently pruned.',
  ['programs'], 'all small convolutional graphs with residuals, depthwise blocks, pooling heads and various strides, paddings and kernel sizes',
  'tests use a handful of fixed graphs',
  [SP + 'pruning_policy.py', SP + 'prune.py'],
  [('PruneForLatencyOnXNNPack', SP + 'pruning_policy.py')],
  ['which layers of the returned model are wrapped', 'errors raised'])

p('C10', 'Clustered weights stay on their nearest centroid throughout training',
  'After every forward pass of a clustered model, in any training history, each clustered weight tensor takes at most the requested number of distinct values (per output channel when clustering per channel), every value is one of the current centroids, and each element is assigned to the centroid nearest to its trained, unclustered weight. Weights that are not to be clustered keep their ordinary values and gradients.',
  ['histories', 'programs', 'inputs'], 'all supported layer kinds (dense, conv, RNN, attention), cluster counts, initialisations and training lengths, one or several replicas',
  'tests count unique values once after a short run',
  [CL + 'cluster_wrapper.py', CL + 'clustering_algorithm.py', CL + 'clustering_registry.py'],
  [('update_clustered_weights_associations', CL + 'cluster_wrapper.py'), ('get_pulling_indices, get_clustered_weight', CL + 'clustering_algorithm.py')],
  ['kernel used by the forward pass, centroids and unclustered weights after every batch'],
  [('pulling_indices', 'centroid index of every weight', CL + 'cluster_wrapper.py')])

p('C11', 'Initial centroids have the right count, range and spacing',
  'For every weight tensor and cluster count, each initialisation method yields exactly the requested number of finite centroids lying within the range of the weights (up to a margin of 0.01 for the density-based method): linear initialisation spaces them evenly from minimum to maximum, density-based follows the weight distribution in non-decreasing order, k-means++ picks existing weight values, random draws within the range. When sparsity is to be preserved one of the centroids is exactly zero and the rest are split between the signs in proportion to the weights of each sign (weights that are all zero only get zero centroids).',
  ['inputs', 'configurations'], 'all weight tensors (skewed, one-signed, sparse, repeated values), cluster counts 2..64, all methods',
  'tests use two or three tiny tensors per method',
  [CL + 'clustering_centroids.py'], [('CentroidsInitializerFactory and initialisers', CL + 'clustering_centroids.py')],
  ['centroid tensor returned by an initialiser'])

p('C12', 'Sparsity-preserving clustering never resurrects pruned weights',
  'When a sparse model is clustered with sparsity preservation, every weight that was zero when clustering was applied is exactly zero in every forward pass, throughout any training and after stripping, and one centroid stays exactly zero, while the number of distinct values stays within the requested count.',
  ['histories', 'inputs'], 'all sparsity patterns, layer kinds, cluster counts, initialisations and training lengths, one or several replicas',
  'tests train one tiny model briefly',
  [CL + 'cluster_wrapper.py', CL + 'clustering_centroids.py', CL + 'experimental/cluster.py'],
  [('zero centroid and sparsity mask handling', CL + 'cluster_wrapper.py')],
  ['kernel, centroids after every batch and after strip'])

p('C13', 'Clustering gradients reach centroids and weights as configured',
  'Back-propagating through a clustered weight gives every centroid the sum (or, if configured, the average) of the loss gradients of the elements assigned to it, and zero to unused centroids, while the underlying unclustered weights receive the loss gradient of their element unchanged. This holds per channel for per-channel clustering.',
  ['inputs', 'configurations'], 'all weight shapes, assignments (including empty clusters), upstream gradients, both aggregation modes, with and without per-channel',
  'tests check two hand-computed examples',
  [CL + 'clustering_algorithm.py', CL + 'cluster_config.py'],
  [('get_clustered_weight custom gradient', CL + 'clustering_algorithm.py')],
  ['gradients returned by automatic differentiation'])

p('C14', 'Clustering a model changes nothing but the clustered weights',
  'A clustered model equals the original model evaluated with the clustered weights: same topology, layer configuration, biases and other weights, and the same training-versus-inference behaviour of every layer (dropout is active and batch statistics are updated when training). Only the weights registered for a layer kind are clustered, unsupported layers and invalid cluster settings are rejected, and saving a clustered model (HDF5, native Keras, weights or configuration) and loading it in the library\'s scope preserves outputs, cluster settings and the further course of training.',
  ['programs', 'histories'], 'all models over supported layers incl. dropout and normalisation, applied per layer or per model, saved at any time',
  'tests check wrapping and training separately, never mode-dependent layers',
  [CL + 'cluster.py', CL + 'cluster_wrapper.py', CL + 'clustering_registry.py'],
  [('ClusterWeights.call/get_config', CL + 'cluster_wrapper.py'), ('ClusteringRegistry', CL + 'clustering_registry.py')],
  ['outputs in training and inference mode, batch statistics, weights, reloaded model'])

p('C15', 'Stripping clustering returns an ordinary model with clustered weights',
  'Removing the clustering wrappers from any clustered model yields the original topology, layer types, names and weight list with no clustering state left, identical outputs, and clustered weights with at most the requested number of distinct values. The stripped model is an ordinary model: assigning, saving, reloading or fine-tuning its weights takes effect in its outputs.',
  ['programs', 'histories'], 'all clusterable layer kinds incl. recurrent, bidirectional and attention layers, at any time in training',
  'tests compare types and unique counts for a few layers and never use the stripped model further',
  [CL + 'cluster.py', CL + 'cluster_wrapper.py'],
  [('strip_clustering', CL + 'cluster.py'), ('ClusterWeightsMHA.strip_clustering', CL + 'cluster_wrapper.py')],
  ['structure, weights, outputs of stripped model before and after set_weights/save/load'])

p('C16', 'Every quantizer emits only representable values of its bit width',
  'For any tensor, any quantizer configuration (bit width, symmetric, narrow range, per channel) and the range in force, the quantized tensor has at most 2^bits levels (one fewer in narrow range) on a uniform grid that contains zero, each in-range value moves by at most half a grid step, out-of-range values saturate to the range ends, and quantizing again with the same range changes nothing. Per-channel quantization does this independently for each slice of the last axis (ranks 1, 2 and 4).',
  ['inputs', 'configurations'], 'all tensors, bit widths 2..16, all flags, training and inference',
  'tests compare a few values for 8 bits',
  [QT + 'quant_ops.py', QT + 'quantizers.py'],
  [('LastValueQuantize, MovingAvgQuantize, AllValuesQuantize, FixedQuantize', QT + 'quant_ops.py')],
  ['output tensor of a quantizer'])

p('C17', 'Quantization ranges track data only in training, by their stated rule',
  'During training, a last-value quantizer\'s range is that of the current tensor, a moving-average quantizer\'s range is the exponential average (decay 0.999) of batch ranges, an all-values quantizer\'s range is the running extreme, and a fixed quantizer\'s range never changes; ranges always include zero and symmetric ranges are mirrored around it (up to the one extra negative level outside narrow range). Outside training no range ever changes and the stored range is the one used. Quantizer settings survive a configuration round trip and compare equal only if equal.',
  ['histories', 'configurations'], 'all sequences of training and inference batches, all quantizer kinds and flags, one or several replicas',
  'tests feed one or two batches',
  [QT + 'quant_ops.py', QT + 'quantizers.py'],
  [('range update in quant_ops', QT + 'quant_ops.py')],
  ['min/max variables before and after every call'],
  [('min_var/max_var', 'quantization range', QT + 'quantizers.py')])

p('C18', 'Quantizing a model copies it and quantizes only what was annotated',
  'Making a model quantization-aware never modifies the model passed in (weights, outputs, configuration, layers), and the new model starts from the same float weights and regularization losses, with the same layers frozen. Only annotated layers (all supported ones when the whole model is requested) get quantized weights, activations and outputs, plus the outputs that directly feed them; every other layer is left as it was. Unsupported or unbuilt models, double annotation and unknown layers without a config are rejected.',
  ['programs', 'configurations'], 'all sequential/functional models over supported layers, every subset of annotated layers',
  'tests use fixed small models and annotate fixed layers',
  [QT + 'quantize.py', QT + 'quantize_annotate.py', QT + 'quantize_wrapper.py'],
  [('quantize_model, quantize_annotate_model, quantize_apply', QT + 'quantize.py')],
  ['original model before/after; layers, weights of the returned model'])

p('C19', 'Layout rewrites applied before quantization preserve the float function',
  'The graph rewrites of the default 8-bit and n-bit schemes (fusing convolution/dense with normalisation and activation, splitting separable convolutions, concat and activation handling, input quantization) leave the function computed by the model unchanged when quantizers are disabled, for any weights: same inputs, outputs, weight values and mode-dependent behaviour.',
  ['programs', 'inputs'], 'random sequential and functional graphs containing and nearly containing the rewritten patterns, with all layer hyper-parameters',
  'tests apply each rewrite to one or two graphs',
  [QT + 'default_8bit/default_8bit_transforms.py', QT + 'default_8bit/default_8bit_quantize_layout_transform.py',
   QT + 'graph_transformations/model_transformer.py', QT + 'experimental/default_n_bit/default_n_bit_transforms.py'],
  [('Default8BitQuantizeLayoutTransform', QT + 'default_8bit/default_8bit_quantize_layout_transform.py')],
  ['outputs of original and rewritten model'])

p('C20', 'The graph rewriting engine replaces exactly the matched patterns',
  'Given a model, a list of pattern transforms, candidate layers and layer metadata, the engine rewrites every match of every pattern, exactly until no transform applies, never touches layers that do not match or are not candidates, keeps all connections, inputs and outputs in place, and carries weights and metadata of surviving layers over unchanged.',
  ['programs'], 'random layer graphs (chains, branches, multi-input layers, multiple outputs) and random pattern sets',
  'tests use a dozen fixed graphs',
  [QT + 'graph_transformations/model_transformer.py', QT + 'graph_transformations/transforms.py'],
  [('ModelTransformer.transform', QT + 'graph_transformations/model_transformer.py')],
  ['layers, connections, weights and metadata of the transformed model'])

p('C21', 'Fake quantization sits exactly where integer inference requantizes',
  'In a model quantized with the default 8-bit scheme, the model input and every tensor that integer inference materialises are quantized exactly once; nothing is quantized between a convolution or dense layer and the batch normalisation or ReLU fused into it, and a layer with an output quantizer that feeds only a quantized concatenation leaves quantizing to the concatenation. Kernels are quantized per slice of their last axis for convolutions and depthwise convolutions and per tensor for dense layers and transposed convolutions, symmetrically and narrow-range, and biases are never quantized; every tensor of the quantized model equals an independent emulation of these rules, in training and inference.',
  ['programs', 'inputs'], 'random conv/dense/normalisation/activation/concat/add graphs, weights and inputs after calibration',
  'tests assert config objects on fixed graphs rather than computed values',
  [QT + 'default_8bit/default_8bit_quantize_registry.py', QT + 'default_8bit/default_8bit_transforms.py', QT + 'quantize_aware_activation.py', QT + 'quantize_wrapper.py'],
  [('Default8BitQuantizeRegistry, transforms, QuantizeAwareActivation', QT + 'default_8bit/default_8bit_quantize_registry.py')],
  ['tensors leaving each layer and kernels used, compared with an emulation'])

p('C22', 'Quantization-aware models survive saving, loading and cloning',
  'Saving a quantization-aware (or merely annotated) model at any point of training and loading it with the library\'s scope reproduces the same layers, quantization settings, weights and ranges, so outputs are identical and training continues as if uninterrupted. Every quantization config and quantizer shipped is rebuilt from its configuration as an equal, independent object, and objects with different settings are not equal.',
  ['crash_points', 'configurations'], 'all save formats, points in training, layer kinds and schemes',
  'tests round-trip configs of single objects or a model before training',
  [QT + 'quantize.py', QT + 'quantize_wrapper.py', QT + 'quantize_config.py', QT + 'quantizers.py', QT + 'default_8bit/default_8bit_quantize_registry.py'],
  [('quantize_scope, get_config/from_config/__eq__', QT + 'quantize.py')],
  ['variables and outputs of saved and restored models'])

p('C23', 'Quantization-aware models predict their converted integer models',
  'A trained quantization-aware model built from supported layers converts to an 8-bit integer TFLite model whose outputs agree with the quantization-aware model\'s inference outputs up to a few output quantization steps (and what rounding inside is amplified to), whose input has the learned range, and whose kernels are the fake-quantized ones stored as 8-bit integers. Apart from layers with swish activation, dilated convolutions, transposed convolutions with a fused ReLU and dense layers before batch normalization, which the converter keeps in float, it computes with integers throughout. Layers sharing one range in integer arithmetic (average pooling, resizing, concatenation and their inputs) are expected to have learned about the same range.',
  ['programs', 'inputs'], 'random supported models, weights and inputs',
  'tests convert a few single layers',
  [QT + 'quantize.py', QT + 'default_8bit/default_8bit_transforms.py', QT + 'utils.py'],
  [('default 8-bit scheme', QT + 'default_8bit/default_8bit_quantize_scheme.py')],
  ['outputs and tensor types of the TFLite interpreter'])

p('C24', 'The n-bit scheme honours its weight and activation bit widths',
  'For any weight width and activation width, a model quantized with the n-bit scheme uses weights with at most 2^w - 1 levels per channel or tensor and layer outputs with at most 2^a levels everywhere, input included, with no layer left at another width, and keeps both widths across configuration round trips.',
  ['configurations', 'programs'], 'all width pairs 2..8+, supported layer graphs',
  'tests look at quantizer objects of single layers for one width pair',
  [QT + 'experimental/default_n_bit/default_n_bit_quantize_registry.py', QT + 'experimental/default_n_bit/default_n_bit_transforms.py',
   QT + 'experimental/default_n_bit/default_n_bit_quantizers.py', QT + 'experimental/default_n_bit/default_n_bit_quantize_configs.py'],
  [('DefaultNBitQuantizeScheme', QT + 'experimental/default_n_bit/default_n_bit_quantize_scheme.py')],
  ['distinct values of kernels and layer outputs; configs'])

p('C25', 'Sparsity-preserving QAT keeps every pruned weight at zero',
  'When a pruned model is made quantization-aware with the prune-preserving scheme, every weight of its dense and convolution kernels that was zero at that time is exactly zero in every quantized forward pass and after any amount of training, while everything else trains exactly as in plain quantization-aware training with those positions held at zero.',
  ['histories', 'inputs'], 'all sparsity patterns, supported layers, optimizers and training lengths',
  'tests train one tiny model',
  [QT + 'collab_opts/prune_preserve/prune_preserve_quantize_registry.py', QT + 'collab_opts/prune_preserve/default_8bit_prune_preserve_quantize_scheme.py'],
  [('PrunePreserve weight quantizers', QT + 'collab_opts/prune_preserve/prune_preserve_quantize_registry.py')],
  ['kernels fed to the layer in each forward pass'])

p('C26', 'Cluster-preserving QAT keeps cluster counts (and sparsity if asked)',
  'When a clustered model is made quantization-aware with the cluster-preserving scheme, every clustered dense or convolution kernel keeps at most as many distinct values as it had (per channel for per-channel clustering: as the fullest channel had) throughout training and after stripping; kernels count as clustered if they hold 2 to 1024 distinct values (and some channel more than one). A forward pass without a weight update changes no kernel, and stripping removes the clustering variables without changing any output. With sparsity preservation requested, zeros of every layer that has zeros also stay zero, independently for each layer of the model.',
  ['histories', 'programs'], 'all cluster patterns, layer mixes (sparse and non-sparse layers together), training lengths',
  'tests use uniform models in which all layers are alike',
  [QT + 'collab_opts/cluster_preserve/cluster_preserve_quantize_registry.py', QT + 'collab_opts/cluster_preserve/cluster_utils.py'],
  [('ClusterPreserve weight quantizers', QT + 'collab_opts/cluster_preserve/cluster_preserve_quantize_registry.py')],
  ['kernels after each training stage and after strip'])

p('C27', 'Compression-aware layers compute the layer with the decompressed weight',
  'Applying any shipped weight-compression algorithm to a built model yields a model that computes the original layers with each compressed weight replaced by its decompressed form (best rank-r approximation per matrix for factorisation, nearest centroid for clustering, mean for bias), with all other weights - in every layer kind, with or without bias - taken over from the original, which is left untouched. When the rank suffices the function is unchanged.',
  ['programs', 'inputs', 'configurations'], 'all sequential/functional models with dense, conv, depthwise, normalisation layers, with/without bias; all ranks and cluster counts',
  'tests compress one small dense or conv model with biases',
  [CO + 'algorithm.py', CO + 'internal/optimize.py', CO + 'algorithms/same_training_and_inference.py', CO + 'algorithms/different_training_and_inference.py',
   CO + 'algorithms/weight_clustering.py', CO + 'algorithms/bias_only.py', CO + 'algorithms/periodical_update_and_scheduling.py'],
  [('create_layer_for_training, create_layer_for_inference', CO + 'internal/optimize.py')],
  ['outputs and weights of original, training and inference models'])

p('C28', 'Compression-aware training follows its schedule and exports what it trained',
  'The compression schedule interpolates polynomially from its start value at the begin step to its end value at the end step and is constant outside. Periodic low-rank projection fires exactly every configured number of training steps with the warm-up rank for that step, leaves weights alone in between and in evaluation and prediction, mode-dependent layers behave as in training during training, and the exported inference model computes the trained weights truncated to the target rank.',
  ['histories', 'configurations'], 'all schedule parameters and steps; all update frequencies, warm-ups, ranks and training lengths',
  'tests run one configuration for a few steps',
  [CO + 'schedules.py', CO + 'algorithms/periodical_update_and_scheduling.py', CO + 'internal/optimize.py'],
  [('PolynomialDecay', CO + 'schedules.py'), ('SVD.project_training_weights', CO + 'algorithms/periodical_update_and_scheduling.py')],
  ['schedule values; rank and values of weights after each batch; outputs'])

p('C29', 'Lossless tensor encodings decode to exactly what was encoded',
  'For every lossless encoding (identity, flatten, bit packing of in-range integers, integer differences, small-value splitting, randomised Hadamard rotation, Kashin representation without final clipping) and every tensor of an admissible shape and dtype, decoding the encoding with the matching parameters returns the input - exactly, or up to floating-point rounding for the rotations - with its shape and dtype, with static or dynamic shapes. Packed values stay within 28 bits and have the minimal length; rotations preserve the norm and reproduce the same signs from the same seed, every sign being +1 or -1.',
  ['inputs', 'configurations'], 'all shapes incl. size 1 and non-powers of two, dtypes, bit widths 1..16, seeds',
  'tests use one or two shapes per stage; sizes around packing boundaries and rare seeds are not covered',
  [TE + 'stages/stages_impl.py', TE + 'stages/research/misc.py', TE + 'stages/research/kashin.py', TE + 'utils/tf_utils.py'],
  [('encode/decode of stages', TE + 'stages/stages_impl.py'), ('pack_into_int, unpack_from_int, fast_walsh_hadamard_transform, random_signs', TE + 'utils/tf_utils.py')],
  ['encoded tensors and decoded tensor'])

p('C30', 'Lossy tensor encodings stay within their error bound and range',
  'Uniform quantization encodings (global, per channel, with or without shared randomness) emit integers in [0, 2^bits - 1] and decode to values within one grid step of the input (half a step with deterministic rounding; half a step with shared randomness), exactly for constant inputs, and randomised rounding is unbiased. Clipping encodings decode to the input clipped to the stated norm or interval, with user-supplied ranges saturating out-of-range inputs.',
  ['inputs', 'configurations'], 'all tensors, shapes, bit widths and ranges, seeds',
  'tests check a few fixed vectors',
  [TE + 'stages/stages_impl.py', TE + 'stages/research/quantization.py', TE + 'stages/research/clipping.py'],
  [('quantization and clipping stages', TE + 'stages/research/quantization.py')],
  ['encoded tensors and decoded tensor'])

p('C31', 'Summing partially decoded encodings equals summing decoded values',
  'For any tree of encoding stages, decoding before the sum, summing the parts over any number of clients encoded with the same parameters and decoding after the sum gives the sum of the individually decoded values (up to rounding), and an encoder claims to commute fully with summation exactly when every stage in it does. Parameters and shapes are split so that each half carries exactly what its phase needs.',
  ['programs', 'inputs'], 'random trees of stages (commuting or not, adaptive or not), client counts and inputs',
  'tests use fixed two-stage chains',
  [TE + 'core/core_encoder.py', TE + 'core/gather_encoder.py'],
  [('decode_before_sum/decode_after_sum, split_params_by_commuting_structure', TE + 'core/core_encoder.py'), ('GatherEncoder', TE + 'core/gather_encoder.py')],
  ['outputs of gather and core encoders'])

p('C32', 'Encoders thread state and parameters through rounds faithfully',
  'Over any number of rounds, an adaptive encoder\'s state evolves exactly as its stages prescribe from the aggregated update tensors, at every level of the encoder tree, the parameters used in a round are those derived from that round\'s state, and the simple and gather front ends give the same encoded values, decoded values and states as the underlying encoder. Inputs of another shape or dtype and mismatched structures are rejected.',
  ['histories', 'programs'], 'random encoder trees with stateful stages, numbers of rounds and aggregation inputs',
  'tests run two or three rounds of one fixed encoder',
  [TE + 'core/core_encoder.py', TE + 'core/simple_encoder.py', TE + 'core/gather_encoder.py', TE + 'core/encoding_stage.py', TE + 'utils/py_utils.py'],
  [('initial_state/get_params/update_state', TE + 'core/core_encoder.py'), ('SimpleEncoder, GatherEncoder', TE + 'core/simple_encoder.py')],
  ['state, params, encoded and decoded values per round'])

p('C33', 'Fixing or removing quantized ranges keeps the rest of the model',
  'Fixing the input and output range of a quantization-aware model makes exactly the input and output quantizers use the given constant range and leaves the remaining layers, their weights and their settings as they were; removing the input range drops only the input quantizer.',
  ['configurations', 'programs'], 'all ranges and supported models',
  'tests check one model and one range',
  [QT + 'quantize.py', QT + 'quantize_layer.py', QT + 'quantizers.py', QT + 'quantize_config.py'],
  [('fix_input_output_range, remove_input_range', QT + 'quantize.py')],
  ['layers, ranges and outputs of the returned model'])

p('C34', 'One-shot pruning for benchmarks reaches the requested sparsity',
  'Pruning a model once for benchmarking at a target sparsity and block size returns a model of the same structure (once its pruning wrappers are stripped), nested models included, whose prunable weights have that sparsity with the smallest magnitudes removed, whatever the model was, and leaves other weights alone.',
  ['programs', 'configurations'], 'all supported models, target sparsities and block sizes',
  'tests use one model and a couple of sparsities',
  [SP + 'tools/sparsity_tooling.py'], [('prune_for_benchmark', SP + 'tools/sparsity_tooling.py')],
  ['weights of returned model'])

p('C35', 'Training summaries report the true pruning and clustering state',
  'The pruning summaries written by a training run contain, for every epoch and at the step at which it begins, the sparsity of every pruned weight\'s mask and its threshold, nested models and layers sharing a name included. The clustering summaries contain a histogram of every variable of every clustered layer (nested ones included) exactly at every configured number of batches, counted over all epochs and runs, or at the end of each epoch. The reported values are those the model has at that moment, nothing is reported twice or left out, and training with summaries ends with the same weights as without.',
  ['histories', 'configurations'], 'all models, update frequencies, numbers of epochs, batches and runs, fit and custom loops',
  'tests only look whether some log file exists (pruning) or do not exist (clustering)',
  [SP + 'pruning_callbacks.py', CL + 'clustering_callbacks.py'],
  [('PruningSummaries', SP + 'pruning_callbacks.py'), ('ClusteringSummaries', CL + 'clustering_callbacks.py')],
  ['records in the event files; masks, thresholds and cluster variables during training'])

if __name__ == '__main__':
  out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')
  with open(out, 'w') as f:
    for x in P:
      f.write(json.dumps(x) + '\n')
  print(len(P), 'properties')
