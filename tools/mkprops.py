"""Writes /verif/properties.jsonl (single source of the property texts)."""
import json, os
P = []
R = 'tensorflow_model_optimization/python/core/'
def prop(id, title, statement, over, qtext, why, files, mechanism, observe, state=None):
  if len(title) > 80: print((id, len(title)))
  a = {'files': [R + f for f in files],
       'mechanism': [{'name': n, 'where': R + w} for n, w in mechanism],
       'observe_at': observe, 'hook_needed': None}
  if state:
    a['state'] = [{'name': n, 'meaning': m, 'where': R + w} for n, m, w in state]
  P.append({'id': id, 'title': title, 'statement': statement,
            'quantifier': {'over': over, 'text': qtext},
            'why_tests_cant': why, 'anchors': a})

SP = 'sparsity/keras/'
CL = 'clustering/keras/'
QZ = 'quantization/keras/'
CP = 'common/keras/compression/'
TE = 'internal/tensor_encoding/'

prop('P01', 'A pruning schedule prunes at exactly its steps and at its target sparsity',
 'For every valid pruning schedule and every training step, the schedule asks for pruning exactly when the step lies in the inclusive range from its begin step to its end step (no upper end when the end is -1) and is a whole number of frequencies after the begin step. The sparsity it asks for is the configured constant, or the polynomial interpolation between initial and final sparsity that is clamped to the initial value up to the begin step and to the final value from the end step on. Schedules with impossible parameters are rejected when they are created, and a schedule rebuilt from its saved configuration decides every step identically.',
 ['inputs', 'configurations'],
 'every schedule kind, sparsity pair, power, begin/end/frequency combination, and every step before, inside and after the range, in eager and in graph execution',
 'The tests check a handful of steps of a few hand-chosen schedules; off-by-one and clamping errors live at particular begin/end/frequency/step combinations.',
 [SP + 'pruning_schedule.py'],
 [('step predicate', SP + 'pruning_schedule.py PruningSchedule._should_prune_in_step'), ('polynomial sparsity', SP + 'pruning_schedule.py PolynomialDecay.__call__'), ('validation', SP + 'pruning_schedule.py _validate_step/_validate_sparsity')],
 ['pair returned by calling the schedule with a step'])

prop('P02', 'A mask update prunes exactly the smallest magnitudes, by element or by block',
 'For every weight tensor and target sparsity, a mask update at the sparsity of the current step keeps max(1, round(size * (1 - sparsity))) entries, or more only when magnitudes are equal at the cut: an entry is pruned exactly when its magnitude is smaller than the magnitude of the last entry to keep. With block sparsity the same holds for the grid of blocks, ranked by the average or maximum magnitude pooled over each block, and every block, including partial blocks at the borders, is kept or pruned as a whole; masking sets pruned entries to zero and leaves kept entries bit-identical.',
 ['inputs', 'configurations'],
 'every small weight tensor over a magnitude alphabet with ties and zeros, every sparsity, every block shape and pooling type, every tensor shape up to the bound',
 'The tests use random or linspace weights of a few shapes; ties, rounding of the kept count, borders not divisible by the block and degenerate sizes are decided by specific inputs.',
 [SP + 'pruning_impl.py', SP + 'pruning_utils.py'],
 [('threshold mask', SP + 'pruning_impl.py Pruning._update_mask'), ('block mask', SP + 'pruning_impl.py Pruning._maybe_update_block_mask'), ('pooling and expansion', SP + 'pruning_utils.py factorized_pool, expand_tensor')],
 ['mask variable and weight variable after a mask update'])

prop('P03', 'm-by-n pruning leaves the m smallest of every n consecutive inputs at zero',
 'For every dense or convolution kernel and every m-by-n sparsity, after the mask update every group of n consecutive entries along the input dimension (for each output channel and each spatial position) has exactly its m smallest-magnitude entries pruned; in a last incomplete group, padding counts among the smallest. Kept weights are bit-identical, the mask is laid out in the original kernel layout, and the pattern checker accepts a weight exactly when no group has more than n - m non-zero entries.',
 ['inputs', 'configurations'],
 'every small kernel shape and magnitude pattern, every (m, n) with 0 < m < n up to the bound, 2-D and 4-D kernels',
 'The tests prune a couple of random kernels with 2-by-4 only and check with the library\'s own checker.',
 [SP + 'pruning_impl.py', SP + 'pruning_utils.py', SP + 'tools/sparsity_tooling.py'],
 [('mask generation', SP + 'pruning_utils.py generate_m_by_n_mask'), ('layout', SP + 'pruning_utils.py weights_rearrange, m_by_n_sparsity_mask_prepare'), ('checker', SP + 'pruning_utils.py is_pruned_m_by_n')],
 ['mask and weight after update; verdict of the m-by-n checker'])

prop('P04', 'In any training history masks change only on schedule, pruned weights stay 0',
 'In every sequence of training batches, evaluation calls and epoch ends after the step-update callback has started training, the mask is recomputed exactly at the scheduled steps and is otherwise unchanged, every forward pass, in training or inference, uses weights in which every pruned entry is zero, and after every epoch end the stored weights equal the weights times the mask. Evaluation and inference never change the step or the masks, and change weights at most by zeroing pruned entries. Each training call of a pruned layer advances its pruning step by exactly one, and training without the callback is refused instead of silently not pruning.',
 ['histories', 'schedules'],
 'every sequence up to the depth bound over {training batch with any of several gradient updates, evaluation, epoch end, training (re)start}, for several schedules and layer kinds, including two pruned layers with different schedules',
 'Unit tests run single fixed training loops and look at the final sparsity; a wrong step, a stale mask or a missed re-mask only shows up for some interleavings of batches, evaluation and epoch ends.',
 [SP + 'pruning_wrapper.py', SP + 'pruning_impl.py', SP + 'pruning_callbacks.py'],
 [('masked call', SP + 'pruning_wrapper.py PruneLowMagnitude.call'), ('conditional update', SP + 'pruning_impl.py Pruning.conditional_mask_update'), ('callback', SP + 'pruning_callbacks.py UpdatePruningStep')],
 ['layer weights, masks, thresholds and pruning step after each event', 'output of the layer'],
 [('pruning step', 'number of training batches seen; -1 before training', SP + 'pruning_wrapper.py'), ('mask', '0/1 tensor per pruned weight', SP + 'pruning_wrapper.py')])

prop('P05', 'Wrapping for pruning and stripping gives back the same model, made sparse',
 'For every supported model architecture, applying the pruning wrapper leaves the computed function and the weights unchanged before training, prunes exactly the prunable weights of supported layers, and rejects unsupported layers; layers without prunable weights pass through unpruned. Stripping a model after an epoch end returns the original architecture (same layers, same connections, same configuration, no auxiliary variables) whose every weight equals the effective weight of the pruned model and whose outputs equal those of the pruned model in inference. Wrapping twice does not wrap a layer twice, and stripping a model without pruning is the identity on function and architecture.',
 ['programs', 'configurations'],
 'every sequential, functional (branching, shared layers, multiple inputs and outputs), nested and list-of-layers model up to the size bound over the layer alphabet, with masks produced by training',
 'Tests wrap and strip a few fixed models; loss of a weight, of an edge, of a shared layer or of a nested model depends on the shape of the graph.',
 [SP + 'prune.py', SP + 'pruning_wrapper.py', SP + 'prune_registry.py'],
 [('wrapping', SP + 'prune.py prune_low_magnitude'), ('stripping', SP + 'prune.py strip_pruning'), ('registry', SP + 'prune_registry.py PruneRegistry')],
 ['layers, configuration, weights and outputs of the models'])

prop('P06', 'Saving and restoring pruned training at any point changes nothing afterwards',
 'At every point of every pruning history, saving the model (configuration plus weights, or a checkpoint) and restoring it into a fresh process image gives a model with the same step, masks, thresholds and weights, and continuing with the same batches produces exactly the states that the uninterrupted run produces. Every pruning setting (schedule, block shape and pooling, m-by-n sparsity) survives the round trip.',
 ['crash_points', 'histories', 'configurations'],
 'every interruption point of every short history, every pruning configuration, every supported save format',
 'Tests save and load once, untrained, for a few configurations; a setting or variable that is not saved only matters at some interruption points.',
 [SP + 'pruning_wrapper.py', SP + 'pruning_schedule.py', SP + 'prune.py', SP + 'pruning_callbacks.py'],
 [('config', SP + 'pruning_wrapper.py PruneLowMagnitude.get_config/from_config'), ('schedule config', SP + 'pruning_schedule.py get_config/from_config'), ('training restart', SP + 'pruning_callbacks.py UpdatePruningStep.on_train_begin')],
 ['variables of the restored model at every later event'])

prop('P07', 'The latency policy prunes only 1x1 convolutions in a fully supported region',
 'For every model graph, the on-device latency policy accepts the model exactly when its structure satisfies the rules: every path from a model input reaches an eligible first convolution (3x3, stride 2, valid padding, 3 input channels, after zero padding by 1), every path back from a model output reaches a global average pooling layer, and every layer between the two is of a kind and parametrisation that the sparse inference supports. Under an accepted policy exactly the pointwise convolutions of the model are pruned, and unsupported models are rejected with an error instead of being partly pruned.',
 ['programs', 'configurations'],
 'every layer chain and branching graph up to the size bound over an alphabet of supported and unsupported layer variants',
 'The tests try about ten hand-made graphs; the policy is a graph predicate whose errors depend on layer order and parameters.',
 [SP + 'pruning_policy.py'],
 [('allowed layers', SP + 'pruning_policy.py PruneForLatencyOnXNNPack.allow_pruning'), ('graph check', SP + 'pruning_policy.py PruneForLatencyOnXNNPack.ensure_model_supports_pruning')],
 ['accept/reject decision and the set of pruned layers'])

prop('P08', 'Reporting callbacks report the true state and change nothing',
 'For every pruned or clustered model and every sequence of fit calls, training with the pruning or clustering summaries callback gives exactly the variables, after every batch, of training without it. At the beginning of every epoch the pruning summaries report, at the step of the optimizer, one minus the mean of every mask as its sparsity and the value of every threshold; the clustering summaries report a histogram of every variable of every layer with clusterable weights, exactly at the batches, counted across epochs and fit calls, or epoch ends that the frequency asks for.',
 ['histories', 'configurations'],
 'every sequence of fit calls up to the bound, with every number of epochs and batches up to the bound, every reporting frequency and the model alphabet',
 'Tests check that an event file with something in it exists after one training run.',
 [SP + 'pruning_callbacks.py', CL + 'clustering_callbacks.py'],
 [('pruning summaries', SP + 'pruning_callbacks.py PruningSummaries'), ('clustering summaries', CL + 'clustering_callbacks.py ClusteringSummaries')],
 ['event files written by the callback', 'variables after every batch'])

prop('C01', 'After any update history a clustered weight has at most N distinct values',
 'At every point of every history of weight updates, centroid updates and forward passes, the effective value of a clustered weight contains at most the configured number of distinct values (per channel when clustering per channel), every entry equals one of the current centroids, and at every forward pass it is the centroid nearest to the underlying trained entry. Inference and training forward passes use the same clustered values, and unclustered weights of the layer (for example the bias) are untouched.',
 ['histories', 'inputs', 'configurations'],
 'every sequence up to the depth bound of updates to weights and centroids interleaved with forward passes, over small weight tensors, cluster counts, layer kinds and per-channel settings',
 'Tests check one fixed update or the final model of one training run.',
 [CL + 'clustering_algorithm.py', CL + 'cluster_wrapper.py'],
 [('association', CL + 'clustering_algorithm.py get_pulling_indices'), ('clustered weight', CL + 'clustering_algorithm.py get_clustered_weight'), ('wrapper update', CL + 'cluster_wrapper.py ClusterWeights.update_clustered_weights_associations')],
 ['weight of the wrapped layer, centroids, layer output'],
 [('centroids', 'current cluster centres', CL + 'cluster_wrapper.py'), ('pulling indices', 'entry -> centroid association', CL + 'cluster_wrapper.py')])

prop('C02', 'Every centroid initialisation yields N finite centroids placed by its own rule',
 'For every weight tensor and number of clusters, each initialisation method produces exactly the requested number of finite centroids: the linear method spaces them evenly from the minimum to the maximum, the density method places them in non-decreasing order on the quantiles of the weight distribution (up to its grid of 30 points, which reaches 0.01 beyond the weights), the random method stays between minimum and maximum, and the k-means++ method picks centroids among the weights (of which there must be at least as many as centroids). With sparsity preservation exactly one centroid is zero and the remaining ones are initialised from the non-zero weights, proportionally for the negative and the positive ones and each on their own side (weights that are all zero have the zero centroid only); per-channel initialisation does this for each channel separately.',
 ['inputs', 'configurations'],
 'every small weight tensor over a value alphabet, every initialisation method, cluster count, sparsity-preservation and per-channel setting',
 'Tests use a few weight tensors per method.',
 [CL + 'clustering_centroids.py'],
 [('initialisation', CL + 'clustering_centroids.py'), ('zero centroid', CL + 'clustering_centroids.py AbstractCentroidsInitialisation.get_cluster_centroids')],
 ['returned centroid tensor'])

prop('C03', 'Clustering routes gradients to the right centroid and straight to the weights',
 'For every assignment of weights to clusters and every upstream gradient, each centroid receives the sum (or, with averaging, the mean over its members) of the gradients of exactly the weights assigned to it, an unused centroid receives zero, and the underlying weights receive the upstream gradient unchanged. With per-channel clustering this holds for each channel separately.',
 ['inputs', 'configurations'],
 'every small assignment and gradient tensor, both aggregation modes, shared and per-channel centroids, dense and convolution kernels',
 'Tests check one or two fixed assignments.',
 [CL + 'clustering_algorithm.py'],
 [('gradient definition', CL + 'clustering_algorithm.py get_clustered_weight')],
 ['gradients taken through the clustered weight'])

prop('C04', 'Sparsity-preserving clustering never turns a zero weight non-zero',
 'With sparsity preservation every weight that was zero (or belonged to the zero cluster) when clustering was applied is exactly zero in every forward pass and in the stripped model after any sequence of gradient updates, the zero centroid stays zero, and the remaining weights are clustered to at most the requested number of values. This also holds after the clustered model was saved and restored in the middle of the sequence.',
 ['histories', 'crash_points', 'inputs'],
 'every zero pattern of small kernels, every sequence of weight and centroid updates, forward passes and save/restore points up to the depth bound',
 'Tests train once from one sparse kernel and compare sparsity at the end.',
 [CL + 'cluster_wrapper.py', CL + 'clustering_centroids.py'],
 [('sparsity mask', CL + 'cluster_wrapper.py ClusterWeights.build'), ('zero centroid', CL + 'cluster_wrapper.py ClusterWeights.call')],
 ['effective and stored weights', 'centroid values'])

prop('C05', 'Wrapping for clustering and stripping gives back the architecture, clustered',
 'For every supported model, applying clustering keeps the architecture and the outputs shape, wraps exactly the supported layers with enough weights and rejects unsupported ones. Stripping returns the original layers, connections and configuration without auxiliary variables; every clustered weight of the result is the nearest-centroid value of the trained weight with at most the requested number of distinct values, every other weight is unchanged, and its outputs equal the clustered model in inference.',
 ['programs', 'configurations'],
 'every sequential, functional and nested model up to the size bound over the layer alphabet, before and after training updates',
 'Tests strip a few fixed models and count unique values.',
 [CL + 'cluster.py', CL + 'cluster_wrapper.py', CL + 'clustering_registry.py'],
 [('wrapping', CL + 'cluster.py cluster_weights'), ('stripping', CL + 'cluster.py strip_clustering'), ('registry', CL + 'clustering_registry.py ClusteringRegistry')],
 ['layers, configuration, weights and outputs of the models'])

prop('C06', 'Saving and restoring clustered training at any point changes nothing afterwards',
 'At every point of every clustering history, saving and restoring the model gives the same centroids, associations, weights and outputs, and continuing with the same updates produces the same states as the uninterrupted run, for every clustering configuration.',
 ['crash_points', 'histories', 'configurations'],
 'every interruption point of every short history, every clustering configuration, every supported save format',
 'Tests save and load once for the default configuration.',
 [CL + 'cluster_wrapper.py', CL + 'cluster.py', CL + 'cluster_config.py'],
 [('config', CL + 'cluster_wrapper.py ClusterWeights.get_config/from_config')],
 ['variables and outputs of the restored model at every later event'])

prop('Q01', 'Fake quantization snaps values to a grid of 2^bits levels that contains zero',
 'For every input tensor, bit width and mode (per tensor or per channel, symmetric or asymmetric, narrow range or not, tracked or fixed range) the quantized output equals rounding the clamped input to an evenly spaced grid with at most 2^bits levels (one fewer in narrow range) that contains zero exactly, and the grid range is the smallest one required by the mode: it covers the observed values, extended to include zero, and is mirrored around zero when symmetric. Zero is always mapped to zero, values inside the range move by at most half a grid step, and the gradient passes unchanged inside the range and is zero outside.',
 ['inputs', 'configurations'],
 'every small tensor over a value alphabet, every bit width, every mode combination, both from tracked and from given ranges',
 'Tests check one or two value sets per quantizer.',
 [QZ + 'quant_ops.py', QZ + 'quantizers.py'],
 [('range adjustment', QZ + 'quant_ops.py'), ('fake quant', QZ + 'quant_ops.py _FakeQuantWithMinMaxVars')],
 ['output and gradient of the quantizer', 'range variables'])

prop('Q02', 'Quantizer ranges follow their batch history and never move during inference',
 'For every sequence of training and inference batches, a quantizer\'s range after the sequence is the one defined by its kind: the running minimum and maximum including zero, the last training batch including zero, or the exponential moving average of the batch extremes starting from its initial range. An inference batch never changes the range and uses the range stored by the training batches before it; a training batch is quantized with the range that includes its own update.',
 ['histories', 'configurations'],
 'every sequence up to the depth bound over a batch alphabet with training and inference calls, every quantizer kind, symmetric/narrow/per-channel setting',
 'Tests feed one or two batches; order-dependent state errors need specific sequences.',
 [QZ + 'quant_ops.py', QZ + 'quantizers.py', QZ + 'quantize_layer.py', QZ + 'quantize_wrapper.py'],
 [('running range', QZ + 'quant_ops.py AllValuesQuantize'), ('last value', QZ + 'quant_ops.py LastValueQuantize'), ('moving average', QZ + 'quant_ops.py MovingAvgQuantize')],
 ['range variables after each batch', 'quantized output'],
 [('min/max', 'range variables of a quantizer', QZ + 'quantizers.py')])

prop('Q03', 'Quantizing a model preserves its graph, weights and function up to rounding',
 'For every supported model graph, the quantized model has the same inputs and outputs in the same order, feeds every layer the same tensors in the same order, carries every weight of the original model over (frozen layers stay frozen, trainable ones trainable), and with quantization effects removed computes the same function as the original. The original model is left unmodified, and the quantized model does not share variables with it.',
 ['programs'],
 'every sequential and functional graph up to the size bound over the layer alphabet (convolution, depthwise, dense, batch normalisation, activations, concatenation, addition, pooling, shared layers, several inputs and outputs)',
 'Tests quantize a few architectures and mostly check that it does not crash; dropped, swapped or duplicated edges and lost weights depend on the graph.',
 [QZ + 'quantize.py', QZ + 'graph_transformations/model_transformer.py', QZ + 'default_8bit/default_8bit_transforms.py', QZ + 'default_8bit/default_8bit_quantize_layout_transform.py'],
 [('apply', QZ + 'quantize.py quantize_apply'), ('rewriting', QZ + 'graph_transformations/model_transformer.py ModelTransformer.transform'), ('patterns', QZ + 'default_8bit/default_8bit_transforms.py')],
 ['outputs, weights and layer graph of the quantized model'])

prop('Q04', 'Each tensor is quantized exactly where the scheme says',
 'In the quantized form of every supported model, model inputs, the results of layers and the weights of convolutions and dense layers are fake-quantized exactly where the scheme says: each model input once before any quantized layer; fused chains (convolution or dense layer, optional batch normalisation, optional ReLU; addition and ReLU) once, after their last member; layers that feed a concatenation of known quantized layers not at their output, only the concatenation itself; layers that only move or select values not at all; kernels once (per channel for convolutions), biases and normalisation parameters never. A branch or model output in the middle of a chain prevents the fusion. Models with a layer the scheme does not know are rejected. The same holds for the experimental n-bit scheme with its bit widths and for schemes without per-channel quantization, and creating one scheme does not influence another.',
 ['programs', 'configurations'],
 'every model up to the size bound over the layer alphabet, both schemes, all bit widths of the n-bit scheme',
 'Tests compare a few fixed transformed models.',
 [QZ + 'default_8bit/default_8bit_quantize_registry.py', QZ + 'default_8bit/default_8bit_transforms.py', QZ + 'quantize_wrapper.py', QZ + 'experimental/default_n_bit/default_n_bit_transforms.py'],
 [('per-layer schemes', QZ + 'default_8bit/default_8bit_quantize_registry.py'), ('fusion patterns', QZ + 'default_8bit/default_8bit_transforms.py')],
 ['values flowing between layers: which are on a quantization grid, and how many fake-quant operations each passes'])

prop('Q05', 'Graph rewriting replaces exactly the matching patterns and always terminates',
 'For every model graph and every set of rewrite rules, transformation terminates, and its result is the graph obtained by replacing matches until none is left (each layer is rewritten at most once per rule), where a match is a chain or fan-in of layers of the stated kinds whose inner results are used nowhere else. Everything outside the matches keeps its configuration, connections, weights and metadata, replacement layers receive the weights the rule assigns, and a model without a match is returned unchanged.',
 ['programs'],
 'every sequential and functional graph up to the size bound over a layer alphabet, every rule set from a rule alphabet (chain patterns of length one to three, fan-in patterns, wildcard patterns)',
 'Tests apply single rules to a few models; branching, shared inner results and rule interaction are graph dependent.',
 [QZ + 'graph_transformations/model_transformer.py', QZ + 'graph_transformations/transforms.py'],
 [('matching', QZ + 'graph_transformations/model_transformer.py ModelTransformer._find_pattern'), ('replacement', QZ + 'graph_transformations/model_transformer.py ModelTransformer._replace')],
 ['configuration, metadata, weights and outputs of the transformed model'])

prop('Q06', 'A quantized model survives saving and restoring at any point of training',
 'At every point of a history of training and inference batches, rebuilding a quantized model from its configuration and restoring its weights gives a model with the same ranges, step counters, weights and outputs which continues exactly like the uninterrupted one, for every quantization configuration the library ships and in every supported save format.',
 ['crash_points', 'histories', 'configurations'],
 'every interruption point of every short history, every shipped quantize configuration and layer kind',
 'Tests save and load a few untrained models.',
 [QZ + 'quantize_wrapper.py', QZ + 'quantize_config.py', QZ + 'quantizers.py', QZ + 'quantize_layer.py', QZ + 'default_8bit/default_8bit_quantize_configs.py'],
 [('wrapper config', QZ + 'quantize_wrapper.py QuantizeWrapper.get_config/from_config'), ('quantize configs', QZ + 'quantize_config.py'), ('scope', QZ + 'quantize.py quantize_scope')],
 ['variables and outputs of the restored model'])

prop('Q07', 'Quantization-aware training that preserves sparsity keeps every zero weight zero',
 'When a pruned model is quantized with sparsity preservation, every weight that was zero when quantization was applied is zero in every forward pass and in the stored weights used afterwards, through any sequence of training updates and forward passes, and the remaining weights train and quantize as in plain quantization-aware training. Layers whose weights contain no zeros behave exactly as in plain quantization-aware training.',
 ['histories', 'inputs', 'programs'],
 'every zero pattern of small kernels, every update sequence up to the depth bound, models mixing sparse and non-sparse layers in every order',
 'Tests train one model once and compare final sparsity.',
 [QZ + 'collab_opts/prune_preserve/default_8bit_prune_preserve_quantize_registry.py'],
 [('sparsity mask', QZ + 'collab_opts/prune_preserve/default_8bit_prune_preserve_quantize_registry.py PrunePreserveDefaultWeightsQuantizer')],
 ['quantized weights used in the forward pass'])

prop('Q08', 'Quantization-aware training that preserves clusters keeps the number of clusters',
 'When a clustered model is quantized with cluster preservation, training starts from the clustered weights, and the weights of every clustered layer have at most as many distinct values in every forward pass as the clustered model had (counted per output channel where weights are quantized per channel), through any sequence of updates and forward passes, and with sparsity preservation every zero stays zero as well; each layer is treated according to its own weights, whatever the other layers of the model are. Stripping yields a plain quantized model with the same weights and outputs.',
 ['histories', 'inputs', 'programs'],
 'every small clustered kernel, update sequence up to the depth bound, models mixing clustered, sparse and plain layers in every order',
 'Tests train one model once.',
 [QZ + 'collab_opts/cluster_preserve/default_8bit_cluster_preserve_quantize_registry.py', QZ + 'collab_opts/cluster_preserve/cluster_utils.py'],
 [('cluster preserving quantizer', QZ + 'collab_opts/cluster_preserve/default_8bit_cluster_preserve_quantize_registry.py ClusterPreserveDefaultWeightsQuantizer')],
 ['quantized weights used in the forward pass, stripped model'])

prop('Q09', 'Only annotated layers are quantized, each by its own configuration',
 'For every model and every subset of annotated layers, the quantized model quantizes exactly the annotated layers (plus what fusing requires) and leaves every other layer unquantized and unchanged; a layer annotated with a custom configuration is quantized with exactly the quantizers that configuration names, for its weights, activations and outputs. Models that cannot be quantized (unbuilt, not annotated, already quantized, unsupported layer without configuration) are rejected with an error.',
 ['programs', 'configurations'],
 'every subset of annotated layers of every model up to the size bound, default and custom configurations per layer',
 'Tests annotate one or two layers of a fixed model.',
 [QZ + 'quantize.py', QZ + 'quantize_annotate.py', QZ + 'quantize_wrapper.py', QZ + 'quantize_config.py'],
 [('annotation', QZ + 'quantize.py quantize_annotate_layer/quantize_annotate_model'), ('apply', QZ + 'quantize.py quantize_apply')],
 ['set of quantized layers and their configurations', 'outputs'])

prop('Q10', 'Fixing or removing model input/output ranges touches only the model boundary',
 'For every quantized model, fixing the input and output ranges gives the quantizers of the model inputs, and the activation and output quantizers of the layers that produce the model outputs, the given bits, minimum and maximum as constants, and keeps everything inside, including weights, unchanged; removing the input range removes exactly the input quantization. Outputs for data on the fixed grid are the ones of the model without the fixed range.',
 ['programs', 'configurations', 'inputs'],
 'every sequential and functional quantized model up to the size bound, every bit width and range from the alphabet',
 'One test with one model.',
 [QZ + 'quantize.py', QZ + 'quantize_config.py'],
 [('fixing', QZ + 'quantize.py fix_input_output_range'), ('removing', QZ + 'quantize.py remove_input_range'), ('fixed config', QZ + 'quantize_config.py FixedQuantizeConfig')],
 ['layers, weights and outputs of the modified model'])

prop('Q11', 'A converted quantized model computes in integers what the Keras model computes',
 'For every quantized model over the supported layers, the model converted to TensorFlow Lite runs its layers in 8 bit integers, with kernels on exactly the levels that quantization aware training used, and for every input its outputs agree with those of the Keras model up to the rounding of its integer operations. Models quantized with sparsity or cluster preservation keep their zero weights and their number of distinct weights as integers.',
 ['programs', 'configurations', 'inputs'],
 'every model graph up to the size bound over the layer alphabet, settings of the activation ranges, and inputs that reach and exceed the ranges',
 'Tests convert a few fixed models and mostly compare with a loose tolerance or only run the converter.',
 [QZ + 'quantize.py', QZ + 'default_8bit/default_8bit_quantize_registry.py', QZ + 'default_8bit/default_8bit_transforms.py', QZ + 'quantizers.py', QZ + 'quantize_wrapper.py'],
 [('scheme', QZ + 'default_8bit/default_8bit_quantize_scheme.py'), ('fake quantization that the converter recognises', QZ + 'quant_ops.py'), ('layer patterns that the converter fuses', QZ + 'default_8bit/default_8bit_quantize_layout_transform.py')],
 ['operations, kernels and outputs of the converted model'])

prop('W01', 'A compressed model computes the same for inference as it did in training',
 'For every supported model, compression algorithm and sequence of weight updates, the model that is optimised for training starts from the pretrained weights as the algorithm decomposes them, and the model converted for inference after any number of updates computes with the decompressed form of the training weights at that point: the same outputs as the training model for algorithms that train the decompressed form, and those of the training model with its weights truncated for algorithms that decompose afterwards. Only the weights selected for compression are replaced; all other layers, weights and connections are carried over unchanged.',
 ['histories', 'programs', 'configurations'],
 'every small model over the layer alphabet, every shipped algorithm and setting, every update sequence up to the depth bound',
 'Tests compare outputs for one MNIST-like model.',
 [CP + 'algorithm.py', CP + 'internal/optimize.py', CP + 'algorithms/same_training_and_inference.py', CP + 'algorithms/bias_only.py', CP + 'algorithms/weight_clustering.py'],
 [('training conversion', CP + 'internal/optimize.py create_layer_for_training'), ('inference conversion', CP + 'internal/optimize.py create_layer_for_inference')],
 ['weights and outputs of the training and inference models'])

prop('W02', 'Compression schedules and periodic updates follow the training step exactly',
 'For every schedule setting and step, the scheduled value is the start value before the begin step, the end value after the end step and the polynomial interpolation in between, and never leaves the interval between the two. A periodically updated weight statistic is recomputed exactly at the training steps the period prescribes and is unchanged in between and during inference.',
 ['histories', 'inputs', 'configurations'],
 'every begin step, decay length, exponent, start/end value and step up to the bound; every history of training and inference calls up to the depth bound for every period',
 'Tests check a few steps of one schedule.',
 [CP + 'schedules.py', CP + 'algorithms/periodical_update_and_scheduling.py'],
 [('schedule', CP + 'schedules.py PolynomialDecay'), ('periodic update', CP + 'algorithms/periodical_update_and_scheduling.py')],
 ['scheduled value', 'weights after each call'])

prop('E01', 'Lossless encodings decode to exactly the encoded tensor',
 'For every input tensor, shape, type and parameter that a lossless encoding (identity, flattening, bit packing, difference of integers, rotation, Kashin representation without final clipping) accepts, decoding the encoding returns the original tensor (exactly, or up to rounding for rotations) with its original shape and type, including when the shape is only known at run time. Bit packing never needs more words than the packed bits require, and every word stays inside the target bit range.',
 ['inputs', 'configurations'],
 'every shape and content up to the bound, every bit width from 1 to 16, every supported type, static and dynamic shapes',
 'Tests use a few random tensors; packing errors depend on the length modulo the packing period.',
 [TE + 'stages/stages_impl.py', TE + 'utils/tf_utils.py', TE + 'stages/research/kashin.py', TE + 'stages/research/misc.py'],
 [('bit packing', TE + 'utils/tf_utils.py pack_into_int/unpack_from_int'), ('rotation', TE + 'utils/tf_utils.py fast_walsh_hadamard_transform')],
 ['encoded tensors and decoded tensor'])

prop('E02', 'Lossy encodings stay within their error bound and their value range',
 'For every input, uniform quantization encodes to integers in [0, 2^bits - 1] and decodes to within one quantization step of the (clipped) input, half a step with deterministic rounding, with the extremes of the range exactly representable, per channel where the encoding is per channel; clipping projects exactly onto the ball or interval and leaves inside values alone; splitting off small values zeroes exactly the entries not above the threshold and keeps the others exactly.',
 ['inputs', 'configurations'],
 'every small tensor over a value alphabet, every bit width, given and data-dependent ranges, deterministic and randomised rounding',
 'Tests use random inputs with loose bounds.',
 [TE + 'stages/stages_impl.py', TE + 'stages/research/quantization.py', TE + 'stages/research/clipping.py', TE + 'stages/research/misc.py'],
 [('uniform quantization', TE + 'stages/stages_impl.py UniformQuantizationEncodingStage'), ('per channel', TE + 'stages/research/quantization.py'), ('clipping', TE + 'stages/research/clipping.py')],
 ['encoded tensors and decoded tensor'])

prop('E03', 'Any composition of encodings decodes correctly, also when partly summed first',
 'For every tree of encoding stages, encoding followed by decoding applies each stage\'s encode top-down and decode bottom-up exactly once with its own parameters and input shape. Decoding the part that does not commute with sums before the sum and the rest after it gives, for every set of inputs, the sum of the individually decoded inputs, and the part reported as commuting is exactly the longest prefix of commuting stages.',
 ['programs', 'inputs'],
 'every tree of stages up to the size bound over an alphabet of commuting, non-commuting, shape-dependent, multi-output and parameterised stages, every number of summed inputs up to the bound, simple and gather interfaces',
 'Tests compose a few fixed chains.',
 [TE + 'core/core_encoder.py', TE + 'core/simple_encoder.py', TE + 'core/gather_encoder.py'],
 [('composition', TE + 'core/core_encoder.py Encoder'), ('splitting', TE + 'core/core_encoder.py split_params_by_commuting_structure'), ('gather', TE + 'core/gather_encoder.py GatherEncoder')],
 ['encoded, partly decoded and decoded tensors', 'commuting structure'])

prop('E04', 'Adaptive encoder state follows the aggregated update history',
 'For every tree of adaptive stages and every sequence of rounds with any number of encoded inputs per round, the encoder state after each round equals the fold of each stage\'s own update rule over the updates aggregated by the declared mode, the parameters of each round are derived from the state of that round only, and a caller that keeps the state itself gets the same results from the core, simple and gather interfaces. Encoding and decoding never change the state by themselves.',
 ['histories', 'programs'],
 'every tree of adaptive and stateless stages up to the size bound, every sequence of rounds and inputs up to the depth bound',
 'Tests run a couple of fixed iterations.',
 [TE + 'core/core_encoder.py', TE + 'core/encoding_stage.py', TE + 'core/simple_encoder.py', TE + 'core/gather_encoder.py'],
 [('state update', TE + 'core/core_encoder.py Encoder.update_state'), ('aggregation modes', TE + 'core/encoding_stage.py StateAggregationMode')],
 ['state tuple after each round', 'encode/decode parameters'])

prop('X01', 'Optimizations applied one after another keep what earlier ones established',
 'For every sequence of pruning, clustering, saving and loading, and quantization of the same model, each optimization that is stripped gives back the original architecture with the same outputs as the optimized model; pruned weights are as sparse as asked, clustered weights have at most the number of clusters; clustering that preserves sparsity keeps every zero, saving and loading keeps everything, and sparsity preserving, cluster preserving and combined quantization aware training keep, after any training, the zeros and the number of distinct values that the steps before established.',
 ['histories', 'programs'],
 'every sequence of steps up to the depth bound on models of dense, convolution, depthwise, batch normalization and branching layers',
 'Tests check one or two hand-written pipelines of one or two layers.',
 [SP + 'prune.py', CL + 'cluster.py', CL + 'experimental/cluster.py', QZ + 'collab_opts/prune_preserve/prune_preserve_quantize_registry.py', QZ + 'collab_opts/cluster_preserve/cluster_preserve_quantize_registry.py', QZ + 'collab_opts/cluster_preserve/cluster_utils.py'],
 [('prune and strip', SP + 'prune.py'), ('cluster and strip', CL + 'cluster.py'), ('preserving quantization', QZ + 'collab_opts')],
 ['weights and architecture of the model after every step'])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'properties.jsonl')
with open(out, 'w') as f:
  for p in P: f.write(json.dumps(p) + '\n')
print(len(P))
