"""Q09: which layers are quantized, and how, for every choice of annotated layers."""
import itertools
LEVEL = 'exploration'
RULE = ('case = (graph, annotation of every layer: none, default or a custom configuration); the annotated model is quantized by the real code, traced, and every fake '
        'quantization in it is compared with the reference; distinct = distinct dataflow terms')
ASSUME = ['terms are compared first; where they differ, the values that are fake-quantized (by kind and bits) and the function without quantization decide',
          'the kernel of a convolution or dense layer directly before a ReLU is left out (known finding of Q04)',
          'a layer that is not annotated but is the only input of an annotated one may have its output quantized, as its own type would be']
BOUND = {'quick': 'every subset of annotated layers of all chains of 2 layers over 12 (images) and 7 (vectors) kinds, of 3 layers over 4 kinds, and of 20 joins; every assignment of {none, default, 2 custom configurations} to chains of 2 layers over 5 kinds and joins of up to 3 layers; 8 configurations of single layers over 19 kinds; refused models; masked sequences through every subset of annotated layers of 2 producers, up to 1 of 11 layers (pairs in the thorough tier) and up to 4 consumers',
         'thorough': 'all chains of 2 over 28 kinds, of 3 over 9 kinds, chains of 4 over 4; assignments of 3 custom configurations to chains of 3 layers'}


def run(ctx):
  import numpy as np
  from env import tf, keras, tfmot
  from mc import require
  import qg
  from tensorflow_model_optimization.python.core.quantization.keras import quantize as qm, quantizers, quantize_config as qc, quantize_wrapper as qwrap, quantize_annotate as qa, quantize_layer as ql
  from tensorflow_model_optimization.python.core.quantization.keras.default_8bit import default_8bit_quantize_registry as d8, default_8bit_quantize_configs as d8c
  L = keras.layers
  qg.named_build()

  class Exact(qc.QuantizeConfig):
    """Quantizes exactly the named attributes with the given numbers of bits."""

    def __init__(self, weights=(), acts=(), out=0):
      self.w, self.a, self.o = [tuple(x) for x in weights], [tuple(x) for x in acts], out

    def get_weights_and_quantizers(self, layer):
      return [(getattr(layer, k), quantizers.LastValueQuantizer(num_bits=b, per_axis=False, symmetric=True, narrow_range=True)) for k, b in self.w]

    def get_activations_and_quantizers(self, layer):
      return [(getattr(layer, k), quantizers.MovingAverageQuantizer(num_bits=b, per_axis=False, symmetric=False, narrow_range=False)) for k, b in self.a]

    def set_quantize_weights(self, layer, quantize_weights):
      for (k, _), v in zip(self.w, quantize_weights):
        setattr(layer, k, v)

    def set_quantize_activations(self, layer, quantize_activations):
      for (k, _), v in zip(self.a, quantize_activations):
        setattr(layer, k, v)

    def get_output_quantizers(self, layer):
      return [quantizers.AllValuesQuantizer(num_bits=self.o, per_axis=False, symmetric=False, narrow_range=False)] if self.o else []

    def get_config(self):
      return {'weights': self.w, 'acts': self.a, 'out': self.o}

  class Two(L.Layer):
    """A layer with two kernels and two activations."""

    def __init__(self, units=2, **kw):
      super().__init__(**kw)
      self.units, self.first, self.second = units, keras.activations.tanh, keras.activations.relu

    def build(self, shape):
      self.ka = self.add_weight(name='ka', shape=(int(shape[-1]), self.units))
      self.kb = self.add_weight(name='kb', shape=(int(shape[-1]), self.units))
      super().build(shape)

    def call(self, x):
      return self.first(tf.matmul(x, self.ka)) + 2.0 * self.second(tf.matmul(x, self.kb))

    def compute_output_shape(self, shape):
      return tuple(shape[:-1]) + (self.units,)

    def get_config(self):
      return dict(super().get_config(), units=self.units)

  qg.KINDS.update({'two': lambda: Two(), 'elu': lambda: L.ELU(), 'aelu': lambda: L.Activation('elu'), 'denseelu': lambda: L.Dense(2, activation='elu'), 'conv1d': lambda: L.Conv1D(2, 1),
                   'lstm': lambda: L.LSTM(2, return_sequences=True)})
  SCOPE = {'Exact': Exact, 'Two': Two}
  quantize_annotate_layer, quantize_annotate_model, quantize_apply, quantize_model = qm.quantize_annotate_layer, qm.quantize_annotate_model, qm.quantize_apply, qm.quantize_model

  def attrs(kind):
    l = qg.KINDS[kind]()
    w = {'dw': ['depthwise_kernel'], 'dwrelu': ['depthwise_kernel'], 'dwm': ['depthwise_kernel'], 'sep': ['depthwise_kernel', 'pointwise_kernel'], 'seprelu': ['depthwise_kernel', 'pointwise_kernel'],
         'sep1d': ['depthwise_kernel', 'pointwise_kernel'], 'two': ['ka', 'kb'], 'bn': ['gamma', 'beta'], 'prelu': ['alpha'], 'ln': ['gamma']}.get(kind)
    if w is None:
      w = ['kernel'] if isinstance(l, (L.Dense, L.Conv2D, L.Conv1D, L.Conv2DTranspose)) else []
    a = ['first', 'second'] if kind == 'two' else ['activation'] if isinstance(l, (L.Dense, L.Conv2D, L.Conv1D, L.Conv2DTranspose, L.DepthwiseConv2D, L.SeparableConv2D, L.SeparableConv1D, L.Activation)) else []
    return w, a

  def custom(kind, which):
    """Custom configuration number which of a layer: ((attr, bits)...), ..."""
    w, a = attrs(kind)
    W, A = tuple((k, 5 + i) for i, k in enumerate(w)), tuple((k, 9 + i) for i, k in enumerate(a))
    return {0: (W, A, 0), 1: (W[::-1], (), 7), 2: ((), A[::-1], 4), 3: ((), (), 0), 4: (W[:1], (), 0), 5: ((), A[:1], 0), 6: (W[-1:], A[-1:], 3), 7: ((), (), 6)}[which]

  def ref(g, layers, annotated, custom, **kw):
    nodes, outs = qg.reference(g, layers, annotated=annotated, custom=custom)
    return qg.trace(lambda *xs: qg.run_reference(nodes, outs, xs, **kw), [tf.TensorSpec([2] + list(s), tf.float32) for s in g[0]]), nodes

  def one(g, ann, sig='', sequential=False, how='layer', prefix='quant_'):
    """ann[i]: None, 'd' (default) or the number of a custom configuration."""
    spec = {i: custom(g[1][i][0], a) for i, a in enumerate(ann) if isinstance(a, int)}
    with ctx.cell('%s%s annotated %s' % (sig, qg.name(g), ' '.join('-' if a is None else str(a) for a in ann))):
      mark = lambda i, l: l if ann[i] is None or (how == 'model' and ann[i] == 'd') else quantize_annotate_layer(l, Exact(*spec[i]) if i in spec else None)
      m = qg.build(g, wrap=mark, sequential=sequential)
      if how == 'model':
        m = quantize_annotate_model(m)
      plain = lambda l: l.layer if isinstance(l, qa.QuantizeAnnotate) else l
      layers = {plain(l).name: plain(l) for l in m.layers}
      for l in m.layers:
        if isinstance(l, qa.QuantizeAnnotate):
          l.layer.ref_shape = l.input_shape
      layers = [layers['n%d' % i] for i in range(len(g[1]))]
      before = m.get_weights()
      T, nodes = ref(g, layers, annotated=[i for i, a in enumerate(ann) if a is not None], custom=spec, kernel_before_relu=False)
      bad = qg.unsupported(nodes)
      try:
        with tfmot.quantization.keras.quantize_scope(SCOPE):
          q = quantize_apply(m, quantized_layer_name_prefix=prefix)
      except (RuntimeError, ValueError) as e:
        require(bad or not any(a is not None for a in ann), 'supported model is rejected: %s', str(e)[:300])
        ctx.evald(('rejected', tuple(bad)))
        return
      require(any(a is not None for a in ann), 'a model without annotated layers is accepted')
      require(not bad, 'model with unsupported %s is accepted', bad)
      for x, y in zip(before, m.get_weights()):
        require(np.array_equal(x, y), 'the weights of the original model were changed')
      # layers without annotation stay as they are
      front = {i - len(g[0]) for j, (k, src) in enumerate(g[1]) if ann[j] is not None and len(src) == 1 for i in src}
      names = {l.name: l for l in q.layers}
      for i, a in enumerate(ann):
        if a is None and i not in front:
          l = names.get('n%d' % i)
          require(l is not None and type(l) is type(layers[i]), 'layer n%d without annotation was replaced; layers now: %s', i, sorted(names))
        if isinstance(a, int):
          l = names.get('%sn%d' % (prefix or '', i))
          require(isinstance(l, qwrap.QuantizeWrapper) and type(l.layer) is type(layers[i]), 'layer n%d with a custom configuration is missing; layers now: %s', i, sorted(names))
          require(type(l.quantize_config) is Exact, 'the configuration of n%d was replaced by %s', i, l.quantize_config)
          if not any(k == 'concat' for k, _ in g[1]):
            have = [b for _, b in spec[i][0]], [b for _, b in spec[i][1]], [spec[i][2]] * bool(spec[i][2])
            require(([x[1].num_bits for x in l._weight_vars], [x.quantizer.num_bits for x in l._quantize_activations], [x.num_bits for x in l._output_quantizers]) == have, 'quantizers of n%d are not those of its configuration', i)
            require(all(type(x[1]) is quantizers.LastValueQuantizer for x in l._weight_vars) and all(type(x) is quantizers.AllValuesQuantizer for x in l._output_quantizers), 'quantizers of n%d are of another type', i)
      C = qg.trace(lambda *xs: q(xs[0] if len(xs) == 1 else list(xs), training=False), qg.specs_of(q))
      Q, T = qg.try_terms(C, True), (T, qg.try_terms(T, True))
      if Q is None or Q != T[1]:
        why = qg.same_function(C, T[0], g[0]) or qg.same_quantizers(C, T[0], g[0])
        require(not why, '%s\nquantized: %s\nexpected:  %s', why, Q, T[1])
        ctx.counts['by value'] += 1
      ctx.evald(tuple(Q or [qg.name(g), ann]))
      ctx.sample({'graph': qg.name(g), 'annotated': [str(a) for a in ann], 'terms': Q})

  M = (4, 4, 2)
  K4 = 'conv convsoftmax dw sep bn relu arelu avgpool dropout dense lambda aelu'.split()
  KV = 'dense densesoftmax bn relu two ln denseelu'.split()
  F = 'conv dense bn relu'.split()
  CU = 'conv dense bn relu two'.split()
  if ctx.thorough:
    CU += 'sep lambda dw avgpool'.split()
    KV += 'denserelu densegelu'.split()
    K4 += 'convrelu tconv aswish maxpool conv3 dwrelu seprelu relu6 atanh leaky gap pad crop flatten prelu up'.split()
    F += 'dropout sep dw arelu lambda'.split()
  chains = [(M, k) for k in itertools.product(K4, repeat=2)] + [((4,), k) for k in itertools.product(KV, repeat=2)] + [(M, k) for k in itertools.product(F, repeat=3)]
  chains += [((4, 2), k) for k in itertools.product('sep1d bn relu conv1d lstm'.split(), repeat=2)]
  if ctx.thorough:
    chains += [(M, k) for k in itertools.product('conv bn relu dense'.split(), repeat=4)]
  gen = []
  for n, (sh, k) in enumerate(chains):
    g = qg.chain(sh, k)
    for ann in itertools.product((None, 'd'), repeat=len(k)):
      if all(ann) and 'two' not in k:
        continue  # Q04
      if not any(ann) and n % 40:
        continue
      gen.append((g, ann, {}))
      if n % 7 == 0:
        gen.append((g, ann, dict(sig='sequential ', sequential=True)))
  J = [qg.join([a, b], m, t) for m in ('add', 'concat') for a, b in ((('conv',), ('conv',)), (('conv',), ('relu',)), (('conv', 'bn'), ()), (('dense',), ('dropout',)), (('lambda',), ('conv',)), ((), ('arelu',)))
       for t in ((), ('relu',))] + [qg.join([('conv',), ('relu',), ('bn',)], 'concat', ()), qg.join([('conv',), ('relu',), ('dw',), ('dropout',)], 'add', ())]
  J += [(((2, 2, 2),), (('conv', (0,)), ('relu', (1,)), ('bn', (1,))), (2, 3)), (((2, 2, 2),), (('conv', (0,)), ('relu', (1,))), (1, 2)),
        (((2, 2, 2), (2, 2, 2)), (('conv', (0,)), ('conv', (1,)), ('add', (2, 3))), (4,)), (((2, 2, 2), (2, 2, 1)), (('concat', (0, 1)), ('dense', (2,)), ('conv', (0,))), (3, 4)),
        (((2, 2, 2),), (('lambda', (0,)), ('conv', (1,)), ('lambda', (2,)), ('dense', (3,))), (4,)), (((2, 2, 2),), (('relu', (0,)), ('add', (1, 1)), ('conv', (2,))), (3,))]
  for g in J:
    for ann in itertools.product((None, 'd'), repeat=len(g[1])):
      if not all(ann):
        gen.append((g, ann, {}))
  # custom configurations
  for k in 'conv conv3 convsoftmax dw sep tconv dense densegelu two bn relu arelu lambda avgpool flatten up prelu add1 conv1d'.split():
    sh = (4, 2) if k == 'conv1d' else M
    for c in range(8):
      if k == 'add1':
        gen.append((qg.join([('relu',), ()], 'add', ()), ('d', c), {}))
        gen.append((qg.join([('relu',), ()], 'concat', ()), (None, c), {}))
        continue
      g = qg.chain(sh, (k,))
      gen.append((g, (c,), {}))
      gen.append((g, (c,), dict(sig='sequential ', sequential=True)))
      if c % 3 == 0:
        gen.append((g, (c,), dict(sig='named x_ ', prefix='x_')))
        gen.append((g, (c,), dict(sig='unnamed ', prefix='')))
        gen.append((g, (c,), dict(sig='no prefix ', prefix=None)))
  CH = (0, 1, 2) if ctx.thorough else (1, 2)
  for k in itertools.product(CU, repeat=2):
    for ann in itertools.product((None, 'd') + CH, repeat=2):
      if any(isinstance(a, int) for a in ann):
        gen.append((qg.chain(M, k), ann, {}))
  for k in itertools.product(('conv', 'dw', 'dense', 'tconv'), ('bn',), ('relu', 'arelu', 'relu6')) if not ctx.thorough else itertools.product('conv bn relu dense sep'.split(), repeat=3):
    for ann in itertools.product(('d',) + CH[:1], repeat=3) if not ctx.thorough else itertools.product((None, 'd') + CH[:2], repeat=3):
      if any(isinstance(a, int) for a in ann):
        gen.append((qg.chain(M, k), ann, {}))
  for g in J:
    if len(g[1]) <= (4 if ctx.thorough else 3):
      for ann in itertools.product((None, 'd', 1), repeat=len(g[1])):
        if 1 in ann and (ctx.thorough or len(g[1]) <= 3 or ann.count(1) == 1):
          gen.append((g, ann, {}))
  # annotating the rest of a partly annotated model
  for k in itertools.product(CU[:7], repeat=2):
    for ann in (('d', 1), (1, 'd'), (2, 1)):
      gen.append((qg.chain(M, k), ann, dict(sig='whole model ', how='model')))
      if k[0] == k[1]:
        gen.append((qg.chain(M, k), ann, dict(sig='whole sequential model ', how='model', sequential=True)))
  for g, ann, kw in gen:
    if not ctx.mine() or ctx.over():
      continue
    if not qg.valid(g):
      ctx.counts['not a model'] += 1
      continue
    if kw.get('how') == 'model' and any(k == 'lambda' for k, _ in g[1]):
      continue
    one(g, ann, **kw)

  # ---- configurations of the library given by hand
  def given():
    conf = {'kernel only': (lambda: d8.Default8BitQuantizeConfig(['kernel'], [], False), ('t', None, False)), 'activation only': (lambda: d8.Default8BitQuantizeConfig([], ['activation'], False), (None, 'own', False)),
            'output only': (lambda: d8.Default8BitQuantizeConfig([], [], True), (None, None, True)), 'everything': (lambda: d8.Default8BitQuantizeConfig(['kernel'], ['activation'], True), ('t', 'own', True)),
            'per channel': (lambda: d8.Default8BitConvQuantizeConfig(['kernel'], ['activation'], False), ('c', 'own', False)), 'output config': (lambda: d8c.Default8BitOutputQuantizeConfig(), (None, None, True)),
            'disabled output': (lambda: d8c.Default8BitOutputQuantizeConfig(quantize_output=False), (None, None, False)), 'nothing': (lambda: d8c.NoOpQuantizeConfig(), (None, None, False))}
    for (name, (make, want)), kind, after, seq in itertools.product(conf.items(), ('conv', 'dense', 'convsoftmax', 'tconv'), (None, 'bn', 'relu', 'dense'), (False, True) if ctx.thorough else (False,)):
      if want[0] == 'c' and not kind.startswith('conv') or not ctx.mine():
        continue
      with ctx.cell('library configuration %s for %s then %s%s' % (name, kind, after, ', sequential' if seq else '')):
        k = (kind,) + ((after,) if after else ())
        g = qg.chain(M, k)
        m = qg.build(g, wrap=lambda i, l: quantize_annotate_layer(l, make()) if i == 0 else quantize_annotate_layer(l) if after in ('relu', 'dense') else l, sequential=seq)
        with tfmot.quantization.keras.quantize_scope(SCOPE):
          q = quantize_apply(m)
        l = q.get_layer('quant_n0')
        require(len(l._weight_vars) == bool(want[0]) and len(l._quantize_activations) == bool(want[1]) and len(l._output_quantizers) == want[2], 'weights %s, activations %s, outputs %s', l._weight_vars, l._quantize_activations, l._output_quantizers)
        if want[0]:
          require(l._weight_vars[0][0] is l.layer.kernel or l._weight_vars[0][0].name.endswith('kernel:0'), 'weight %s', l._weight_vars[0][0].name)
          require(bool(l._weight_vars[0][1].per_axis) == (want[0] == 'c'), 'per axis: %s', l._weight_vars[0][1].per_axis)
        ctx.evald((name, kind, after, seq))
  given()

  # ---- masks of a sequence reach the layers they reach without quantization
  class Probe(L.Layer):
    """Appends the mask it gets."""

    def call(self, x, mask=None):
      mask = tf.ones(tf.shape(x)[:2]) * 0.5 if mask is None else tf.cast(mask, tf.float32)
      return tf.concat([x, mask[..., None]], -1)

    def compute_output_shape(self, shape):
      return tuple(shape[:-1]) + (shape[-1] + 1,)
  SCOPE['Probe'] = Probe
  MID = {'dense': lambda: L.Dense(2), 'denserelu': lambda: L.Dense(2, activation='relu'), 'relu': lambda: L.ReLU(), 'softmax': lambda: L.Activation('softmax'), 'dropout': lambda: L.Dropout(0.5),
         'reg': lambda: L.ActivityRegularization(0.1), 'two': lambda: Two(), 'rnn': lambda: L.SimpleRNN(2, return_sequences=True, unroll=True), 'ln': lambda: L.LayerNormalization(), 'masking': lambda: L.Masking(0.5), 'lambda': lambda: L.Lambda(lambda x: x * 2.0)}
  OWN = {'two': Exact(*custom('two', 1)), 'rnn': Exact((), (), 8), 'ln': Exact((('gamma', 8),), (), 8), 'masking': Exact((), (), 8), 'lambda': Exact((), (), 8), 'embedding': Exact((('embeddings', 8),), (), 0), 'first': Exact((), (), 8)}
  END = {'probe': lambda: Probe(), 'rnn': lambda: L.SimpleRNN(2, unroll=True), 'gap': lambda: L.GlobalAveragePooling1D(), 'nothing': None}
  X = np.array([[1, 2, 0, 4], [3, 0, 0, 0], [1, 1, 1, 1], [0, 3, 4, 0]], np.float32)

  def masked(first, mid, end, ann):
    keras.backend.clear_session()
    tf.random.set_seed(3)
    if first == 'embedding':
      i = keras.Input((4,)); x0, head = X, L.Embedding(5, 2, mask_zero=True, name='first')
    else:
      i = keras.Input((4, 2)); x0, head = (np.stack([X / 4, -X / 8], -1) * (X > 0)[..., None]).astype(np.float32), L.Masking(name='first')
    seq = [head] + [MID[k]() for k in mid] + ([END[end]()] if END[end] else [])
    kinds = [first] + list(mid) + [end]
    x = i
    for l in seq:
      x = l(x)
    plain = keras.Model(i, x)
    marked = {l.name: OWN.get(k) for l, k, a in zip(seq, kinds, ann) if a}

    def mark(l):
      return quantize_annotate_layer(l.__class__.from_config(l.get_config()), marked[l.name]) if l.name in marked else l.__class__.from_config(l.get_config())
    with keras.utils.custom_object_scope(SCOPE):
      m = keras.models.clone_model(plain, clone_function=mark)
    m.set_weights(plain.get_weights())
    want, out = plain(x0), m(x0)
    require(np.allclose(want, out, atol=1e-6), 'the annotated model computes %s, the original model %s', np.array(out).tolist(), np.array(want).tolist())
    with tfmot.quantization.keras.quantize_scope(SCOPE):
      try:
        q = quantize_apply(m)
      except (RuntimeError, ValueError) as e:
        require('not supported' in str(e) or 'Unsupported' in str(e) or 'unsupported' in str(e), 'is rejected: %s', str(e)[:200])
        ctx.evald(('rejected', kinds, ann))
        return
    for _ in range(3):
      q(x0, training=True)
    have = np.array(q(x0, training=False))
    masks = lambda mod: [None if t is None else np.array(t) for t in [getattr(mod(x0, training=False), '_keras_mask', None)]]
    require(str(masks(q)) == str(masks(plain)), 'mask of the output: %s, expected %s', masks(q), masks(plain))
    want = np.array(want)
    if end == 'probe':
      require(np.array_equal(have[..., -1], want[..., -1]), 'mask %s, without quantization %s', have[..., -1].tolist(), want[..., -1].tolist())
    require('ln' in mid or np.abs(have - want).max() < (0.6 if 'lambda' in mid or 'two' in mid else 0.3), 'outputs %s, without quantization %s', have.tolist(), want.tolist())
    ctx.evald((kinds, ann, have.round(3).tobytes()))

  depth = 2 if ctx.thorough else 1
  for first, end in itertools.product(('embedding', 'masking'), END):
    for mid in [m for n in range(depth + 1) for m in itertools.product(MID, repeat=n)] + ([] if ctx.thorough else [('dense', 'relu'), ('dense', 'dropout'), ('two', 'dense'), ('rnn', 'dense'), ('denserelu', 'masking')]):
      for ann in itertools.product((False, True), repeat=1 + len(mid)):
        if not any(ann) or not ctx.thorough and end != 'probe' and mid not in ((), ('dense',), ('dropout',), ('masking',)):
          continue
        if not ctx.mine() or ctx.over():
          continue
        with ctx.cell('masked by %s, then %s, then %s, annotated %s' % (first, ' '.join(mid), end, ''.join('-x'[a] for a in ann))):
          masked(first, mid, end, ann)

  # ---- refused models and arguments
  class Sub(keras.Model):

    def __init__(self):
      super().__init__()
      self.d = L.Dense(2)

    def call(self, x):
      return self.d(x)

  def dense_model(kind='dense'):
    return qg.build(qg.chain((4,), (kind,)))

  def unbuilt():
    return keras.Sequential([quantize_annotate_layer(L.Dense(2)), quantize_annotate_layer(L.Dense(2))])

  def built_sub():
    m = Sub()
    m(tf.zeros([1, 4]))
    return m

  def nested():
    return keras.Sequential([keras.Input((4,)), dense_model(), L.Dense(2)])

  def unbuilt_plain():
    return keras.Sequential([L.Dense(2), L.Dense(2)])
  A, Y, MM, N = quantize_annotate_layer, quantize_apply, quantize_annotate_model, quantize_model
  bad = {
      'model None': lambda: N(None), 'apply None': lambda: Y(None), 'annotate None': lambda: MM(None), 'annotate layer None': lambda: A(None),
      'subclassed model': lambda: N(built_sub()), 'annotate subclassed model': lambda: MM(built_sub()), 'apply subclassed model': lambda: Y(built_sub()),
      'a layer as a model': lambda: MM(L.Dense(2)), 'apply a layer': lambda: Y(L.Dense(2)), 'quantize a layer': lambda: N(L.Dense(2)), 'a model as a layer': lambda: A(dense_model()), 'a number as a layer': lambda: A(3),
      'a function as a layer': lambda: A(tf.nn.relu), 'a number as a configuration': lambda: A(L.Dense(2), 3), 'a configuration class': lambda: A(L.Dense(2), Exact), 'a quantizer as a configuration': lambda: A(L.Dense(2), quantizers.LastValueQuantizer(8, False, True, True)),
      'a dictionary as a configuration': lambda: A(L.Dense(2), {'weights': []}), 'unbuilt annotated model': lambda: Y(unbuilt()), 'unbuilt model': lambda: N(unbuilt_plain()),
      'not annotated': lambda: Y(dense_model()), 'nested model': lambda: N(nested()), 'annotate nested model': lambda: MM(nested()),
      'already quantized': lambda: N(N(dense_model())), 'already quantized, apply': lambda: Y(N(dense_model())), 'already quantized, annotated again': lambda: Y(MM(N(dense_model()))),
      'already quantized sequential': lambda: N(N(qg.build(qg.chain((4,), ('dense', 'relu')), sequential=True))),
      'unsupported layer': lambda: N(qg.build(qg.chain((4,), ('ln',)))), 'unsupported layer in the middle': lambda: N(qg.build(qg.chain((4,), ('dense', 'prelu', 'dense')))),
      'unsupported activation': lambda: N(qg.build(qg.chain((4,), ('denseelu',)))), 'unsupported activation layer': lambda: N(qg.build(qg.chain((4,), ('dense', 'aelu')))),
      'batch normalization alone': lambda: N(qg.build(qg.chain((4,), ('bn', 'dense')))), 'recurrent': lambda: N(qg.build(qg.chain((4, 2), ('lstm',)))),
      'unsupported layer annotated alone': lambda: Y(qg.build(qg.chain((4,), ('dense', 'ln')), wrap=lambda i, l: A(l) if i else l)),
      'custom layer without scope': lambda: Y(qg.build(qg.chain((4,), ('dense', 'two')), wrap=lambda i, l: A(l))),
      'custom configuration without scope': lambda: Y(qg.build(qg.chain((4,), ('dense',)), wrap=lambda i, l: A(l, Exact((('kernel', 5),))))),
      'wrapper of nothing': lambda: qwrap.QuantizeWrapperV2(None, d8c.NoOpQuantizeConfig()), 'wrapper of a model': lambda: qwrap.QuantizeWrapperV2(dense_model(), d8c.NoOpQuantizeConfig()), 'wrapper without configuration': lambda: qwrap.QuantizeWrapperV2(L.Dense(2), None),
      'annotation of a model': lambda: qa.QuantizeAnnotate(dense_model()), 'quantize layer with a wrong quantizer': lambda: ql.QuantizeLayer(3),
  }
  for name, f in bad.items():
    if ctx.mine():
      with ctx.cell('refused: ' + name):
        try:
          f()
        except (ValueError, RuntimeError, TypeError, AttributeError, AssertionError) as e:
          require(isinstance(e, (ValueError, RuntimeError)) or name in ('annotation of a model', 'quantize a layer', 'wrapper of nothing'), 'raises %s: %s', type(e).__name__, str(e)[:200])
        else:
          require(False, 'is accepted')
        ctx.evald(('refused', name))
