"""P05: wrapping for pruning and stripping over enumerated architectures."""
import itertools
LEVEL = 'exploration'
RULE = ('one case = one model (layer kind x container, or graph shape) that is wrapped, compared, trained two epochs '
        'with the callback, and stripped; evaluations = wrap, strip and rewrap comparisons; distinct = distinct '
        '(case, comparison, mask) triples')
ASSUME = ['inference outputs are compared up to float32 rounding; weights exactly']
BOUND = {'quick': '63 layer kinds x 3 containers (sequential, functional, single layer API), 20 graph shapes x 2 pruning settings',
         'thorough': 'same, with 4 pruning settings'}


def run(ctx):
  import numpy as np
  from env import tf, keras, tfmot, snap
  from mc import require
  L = keras.layers
  prune, strip = tfmot.sparsity.keras.prune_low_magnitude, tfmot.sparsity.keras.strip_pruning
  C, P = tfmot.sparsity.keras.ConstantSparsity, tfmot.sparsity.keras.PolynomialDecay

  class Own(L.Layer, tfmot.sparsity.keras.PrunableLayer):
    def __init__(self, units=2, **kw):
      super().__init__(**kw); self.units = units

    def build(self, s):
      self.a = self.add_weight('a', (s[-1], self.units)); self.b = self.add_weight('b', (s[-1], self.units))
      super().build(s)

    def call(self, x):
      return x @ self.a + x @ self.b

    def get_prunable_weights(self):
      return [self.b]

    def get_config(self):
      return {**super().get_config(), 'units': self.units}

  class Plain(L.Layer):
    pass

  kern = lambda l: [l.kernel]
  none = lambda l: []
  cell = lambda l: [l.cell.kernel, l.cell.recurrent_kernel]
  cells = lambda l: [w for c in l.cell.cells for w in (c.kernel, c.recurrent_kernel)]
  # name -> (builder, input shape, prunable weights)
  K = {
      'Dense': (lambda: L.Dense(3), (4,), kern), 'Dense relu no bias': (lambda: L.Dense(3, activation='relu', use_bias=False), (4,), kern),
      'Dense on sequences': (lambda: L.Dense(3), (2, 4), kern), 'Dense regularized': (lambda: L.Dense(3, kernel_regularizer='l2', kernel_constraint='non_neg'), (4,), kern),
      'Conv1D': (lambda: L.Conv1D(2, 2), (4, 2), kern), 'Conv2D': (lambda: L.Conv2D(2, 2, strides=2), (4, 4, 2), kern),
      'Conv2D causal-free dilated': (lambda: L.Conv2D(2, 2, dilation_rate=2), (4, 4, 2), kern), 'Conv2D groups': (lambda: L.Conv2D(4, 2, groups=2), (3, 3, 2), kern),
      'Conv2DTranspose': (lambda: L.Conv2DTranspose(2, 2), (2, 2, 2), kern), 'Conv3D': (lambda: L.Conv3D(2, 2), (2, 2, 2, 1), kern),
      'Conv3DTranspose': (lambda: L.Conv3DTranspose(2, 2), (2, 2, 2, 1), kern),
      'DepthwiseConv2D': (lambda: L.DepthwiseConv2D(2), (3, 3, 2), none),
      'SeparableConv1D': (lambda: L.SeparableConv1D(3, 2), (4, 2), lambda l: [l.pointwise_kernel]),
      'SeparableConv2D': (lambda: L.SeparableConv2D(3, 2), (3, 3, 2), lambda l: [l.pointwise_kernel]),
      'Embedding': (lambda: L.Embedding(5, 3), (4,), lambda l: [l.embeddings]),
      'LocallyConnected1D': (lambda: L.LocallyConnected1D(2, 2), (4, 2), kern), 'LocallyConnected2D': (lambda: L.LocallyConnected2D(2, 2), (3, 3, 1), kern),
      'SimpleRNN': (lambda: L.SimpleRNN(2), (3, 2), cell), 'LSTM': (lambda: L.LSTM(2), (3, 2), cell), 'GRU': (lambda: L.GRU(2, return_sequences=True), (3, 2), cell),
      'RNN of a cell': (lambda: L.RNN(L.LSTMCell(2)), (3, 2), cell),
      'RNN of equal cells': (lambda: L.RNN([L.GRUCell(2), L.GRUCell(2)]), (3, 2), cells), 'RNN of three cells': (lambda: L.RNN([L.LSTMCell(2), L.SimpleRNNCell(2), L.LSTMCell(2)]), (3, 2), cells),
      'RNN of equal simple cells': (lambda: L.RNN(L.StackedRNNCells([L.SimpleRNNCell(3), L.SimpleRNNCell(3), L.SimpleRNNCell(3)]), return_sequences=True), (3, 3), cells),
      'RNN of cells': (lambda: L.RNN([L.GRUCell(2), L.SimpleRNNCell(3)]), (3, 2), cells),
      'own layer': (lambda: Own(), (4,), lambda l: [l.b]),
      'BatchNormalization': (lambda: L.BatchNormalization(), (4,), none), 'LayerNormalization': (lambda: L.LayerNormalization(), (4,), none),
      'ReLU': (lambda: L.ReLU(), (4,), none), 'LeakyReLU': (lambda: L.LeakyReLU(), (4,), none), 'ELU': (lambda: L.ELU(), (4,), none),
      'ThresholdedReLU': (lambda: L.ThresholdedReLU(), (4,), none), 'Softmax': (lambda: L.Softmax(), (4,), none), 'Activation': (lambda: L.Activation('tanh'), (4,), none),
      'Dropout': (lambda: L.Dropout(0.5), (4,), none), 'SpatialDropout1D': (lambda: L.SpatialDropout1D(0.5), (2, 2), none), 'GaussianNoise': (lambda: L.GaussianNoise(0.1), (4,), none),
      'AlphaDropout': (lambda: L.AlphaDropout(0.1), (4,), none), 'GaussianDropout': (lambda: L.GaussianDropout(0.1), (4,), none),
      'ActivityRegularization': (lambda: L.ActivityRegularization(0.1), (4,), none),
      'Flatten': (lambda: L.Flatten(), (2, 2), none), 'Reshape': (lambda: L.Reshape((4,)), (2, 2), none), 'Permute': (lambda: L.Permute((2, 1)), (2, 3), none),
      'RepeatVector': (lambda: L.RepeatVector(2), (3,), none), 'Lambda': (lambda: L.Lambda(lambda x: x * 2.0), (4,), none), 'Masking': (lambda: L.Masking(), (2, 2), none),
      'Cropping1D': (lambda: L.Cropping1D(1), (4, 2), none), 'Cropping2D': (lambda: L.Cropping2D(1), (4, 4, 2), none), 'ZeroPadding1D': (lambda: L.ZeroPadding1D(1), (4, 2), none),
      'ZeroPadding2D': (lambda: L.ZeroPadding2D(1), (2, 2, 2), none), 'UpSampling1D': (lambda: L.UpSampling1D(2), (4, 2), none), 'UpSampling2D': (lambda: L.UpSampling2D(2), (2, 2, 2), none),
      'MaxPooling1D': (lambda: L.MaxPooling1D(2), (4, 2), none), 'MaxPooling2D': (lambda: L.MaxPooling2D(2), (4, 4, 2), none), 'AveragePooling2D': (lambda: L.AveragePooling2D(2), (4, 4, 2), none),
      'AveragePooling1D': (lambda: L.AveragePooling1D(2), (4, 2), none),
      'GlobalAveragePooling1D': (lambda: L.GlobalAveragePooling1D(), (4, 2), none), 'GlobalAveragePooling2D': (lambda: L.GlobalAveragePooling2D(), (4, 4, 2), none),
      'GlobalMaxPooling2D': (lambda: L.GlobalMaxPooling2D(), (4, 4, 2), none), 'MaxPooling3D': (lambda: L.MaxPooling3D(2), (2, 2, 2, 1), none),
      'Conv2D not trainable': (lambda: L.Conv2D(2, 2, trainable=False), (3, 3, 2), kern),
      'Rescaling': (lambda: L.Rescaling(0.5, 1.0), (4,), none),
      'Dense activity regularized': (lambda: L.Dense(3, activity_regularizer='l2'), (4,), kern),
      'Dense named': (lambda: L.Dense(3, name='MyName'), (4,), kern),
  }

  def batch(m, n=2):
    out = []
    for j, i in enumerate(m.inputs):
      sh = (n,) + tuple(i.shape[1:])
      a = np.array([((k * 3 + j) % 5) for k in range(int(np.prod(sh)))], np.float32).reshape(sh)
      out.append(a)
    return out

  def fill(m):
    k = 0
    for l in leaves(m):
      new = []
      for w in l.get_weights():
        k += 1
        v = np.array([((i * 7 + k) % 23 - 11.5) / 16 for i in range(w.size)], np.float32).reshape(w.shape)
        new.append(np.abs(v) + 0.1 if isinstance(l, L.BatchNormalization) else v)
      if new:
        l.set_weights(new)

  def leaves(m):
    out = []
    for l in m.layers:
      if isinstance(l, keras.Model):
        out += leaves(l)
      else:
        out.append(l)
    return out

  def is_wrap(l):
    return type(l).__name__ == 'PruneLowMagnitude'

  def outs(m, x):
    y = m(x if len(x) > 1 else x[0], training=False)
    return [np.asarray(v) for v in (y if isinstance(y, (list, tuple)) else [y])]

  def same(a, b, what):
    require(len(a) == len(b), '%s: %d outputs instead of %d', what, len(b), len(a))
    for u, v in zip(a, b):
      require(u.shape == v.shape and np.allclose(u, v, rtol=1e-5, atol=1e-6), '%s: outputs differ: %s and %s', what, u.reshape(-1)[:6], v.reshape(-1)[:6])

  settings = [('constant 0.5', dict(pruning_schedule=C(0.5, 0, -1, 1))), ('polynomial', dict(pruning_schedule=P(0.25, 0.75, 0, 2, 1, 1)))]
  if ctx.thorough:
    settings += [('constant 0.9', dict(pruning_schedule=C(0.9, 0, -1, 1))), ('never due', dict(pruning_schedule=C(0.5, 50, -1, 1)))]

  def lifecycle(sig, make, prunable, kw, all_wrapped=True, own=None):
    """make() -> (model to be pruned, pruned model or None); prunable(layer) -> weights."""
    m = make()
    fill(m)
    x = batch(m)
    cfg = m.get_config()
    names = [l.name for l in leaves(m)]
    y0, w0 = outs(m, x), snap(m.weights)
    p = prune(m, **kw) if own is None else own(m)
    # -- the wrapped model
    require(m.get_config() == cfg, 'wrapping changed the configuration of the original model')
    same(y0, outs(p, x), 'wrapped model before training')
    require([tuple(i.shape) for i in p.inputs] == [tuple(i.shape) for i in m.inputs] and [tuple(i.shape) for i in p.outputs] == [tuple(i.shape) for i in m.outputs], 'inputs or outputs of the wrapped model differ')
    pl = leaves(p)
    ol = leaves(m)
    require(len(pl) == len(ol), 'wrapped model has %d layers instead of %d', len(pl), len(ol))
    pairs = []
    for a in pl:
      inner = a.layer if is_wrap(a) else a
      require(inner.name in names, 'layer %s is not in the original model', inner.name)
      o = ol[names.index(inner.name)]
      ws = prunable(o)
      if isinstance(o, L.InputLayer):
        require(not is_wrap(a), 'an input layer is wrapped')
        continue
      require(is_wrap(a) == (all_wrapped if not callable(all_wrapped) else all_wrapped(o)), 'layer %s: wrapped is %s', o.name, is_wrap(a))
      require([w.shape for w in inner.get_weights()] == [w.shape for w in o.get_weights()] and
              all(np.array_equal(u, v) for u, v in zip(inner.get_weights(), o.get_weights())), 'weights of %s changed by wrapping', o.name)
      masks = [v for v in a.weights if v.name.split('/')[-1].startswith('mask')] if is_wrap(a) else []
      if is_wrap(a):
        require([tuple(v.shape) for v in masks] == [tuple(v.shape) for v in ws], 'layer %s has masks %s for prunable weights %s', o.name, [v.shape for v in masks], [v.shape for v in ws])
        pairs.append((inner, masks))
    ctx.evald((sig, 'wrapped', len(pairs)))
    # -- wrapping again adds nothing
    pp = prune(p, **kw)
    require([l.name for l in leaves(pp)] == [l.name for l in pl] and not any(is_wrap(l) and is_wrap(l.layer) for l in leaves(pp)), 'wrapping twice wraps twice')
    same(y0, outs(pp, x), 'model wrapped twice')
    ctx.evald((sig, 'again'))
    # -- train, strip, compare
    p.compile(keras.optimizers.SGD(0.01), loss='mse', run_eagerly=True)
    ys = [np.ones_like(v) for v in y0]
    p.fit(x if len(x) > 1 else x[0], ys if len(ys) > 1 else ys[0], batch_size=1, epochs=2, verbose=0, shuffle=False, callbacks=[tfmot.sparsity.keras.UpdatePruningStep()])
    yp = outs(p, x)
    for inner, masks in pairs:
      for w, mk in zip(prunable(inner), masks):
        require(np.all(w.numpy()[mk.numpy() == 0] == 0), 'layer %s: pruned entries are not zero after training', inner.name)
        if 'never' not in sig and w.shape.num_elements() > 3:
          require(np.any(mk.numpy() == 0), 'layer %s was not pruned', inner.name)
        ctx.evald((sig, 'mask', mk.numpy().tobytes()))
    weights = {}
    for a in leaves(p):
      inner = a.layer if is_wrap(a) else a
      weights[inner.name] = inner.get_weights()
    s = strip(p)
    require(not any(is_wrap(l) for l in leaves(s)), 'the stripped model still has wrappers')
    require(s.get_config() == cfg, 'configuration of the stripped model differs from the original:\n%s\n%s', s.get_config(), cfg)
    require(type(s) == type(m), 'the stripped model is a %s instead of a %s', type(s).__name__, type(m).__name__)
    require([tuple(w.shape) for w in s.weights] == [tuple(w.shape) for w in m.weights], 'the stripped model has weights %s instead of %s', [w.name for w in s.weights], [w.name for w in m.weights])
    for l in leaves(s):
      require(all(np.array_equal(u, v) for u, v in zip(l.get_weights(), weights[l.name])), 'weights of %s changed by stripping', l.name)
    same(yp, outs(s, x), 'stripped model')
    s2 = strip(s)
    require(s2.get_config() == cfg, 'stripping twice changes the model')
    same(yp, outs(s2, x), 'model stripped twice')
    if isinstance(s, keras.Sequential):
      require(s.built, 'the stripped model is not built')
    ctx.evald((sig, 'stripped'))

  table = {}
  for nm, (f, sh, pw) in K.items():
    table.setdefault(type(f()), pw)

  def prunable(l):
    return table.get(type(l), none)(l)

  for (name, (f, shape, pw)), container in itertools.product(K.items(), ('sequential', 'functional', 'one layer')):
    if not ctx.mine() or ctx.over():
      continue
    sig = 'layer %s, %s' % (name, container)
    with ctx.cell(sig):
      kw = settings[0][1]
      sel = lambda l, f=f, pw=pw, name=name: pw(l) if not isinstance(l, (L.Flatten, L.InputLayer)) or name == 'Flatten' else []

      def make():
        if container == 'sequential':
          l = f()
          return keras.Sequential([L.InputLayer(shape), l, L.Flatten()])
        i = keras.Input(shape)
        return keras.Model(i, L.Flatten()(f()(i)))
      if container != 'one layer':
        lifecycle(sig, make, sel, kw)
      else:
        # the layer is wrapped on its own, the rest of the model stays plain
        def own(m):
          return keras.models.clone_model(m, clone_function=lambda l: prune(l, **kw) if l is m.layers[1] else l)
        p = None
        m = make(); fill(m)
        x = batch(m); y0 = outs(m, x)
        p = own(m)
        same(y0, outs(p, x), 'one wrapped layer')
        require([is_wrap(l) for l in p.layers] == [False, True, False], 'wrapped layers %s', [is_wrap(l) for l in p.layers])
        s = strip(p)
        require(s.get_config() == m.get_config(), 'configuration after strip differs')
        same(y0, outs(s, x), 'stripped model')
        ctx.evald((sig,))
      ctx.sample({'case': sig})
    if ctx.counts['cells'] % 25 == 0:
      keras.backend.clear_session()

  # ---- graph shapes
  def D(n, **k):
    return L.Dense(n, **k)

  def g_chain():
    i = keras.Input((4,)); return keras.Model(i, D(2)(L.ReLU()(D(3)(i))))

  def g_residual():
    i = keras.Input((4,)); x = D(4)(i); return keras.Model(i, L.Add()([x, D(4)(x)]))

  def g_concat_order():
    i = keras.Input((4,)); a, b = D(2)(i), D(3)(i); return keras.Model(i, D(2)(L.Concatenate()([b, a, i])))

  def g_subtract():
    i = keras.Input((4,)); a, b = D(3)(i), D(3)(i); return keras.Model(i, L.Subtract()([b, a]))

  def g_shared():
    i = keras.Input((4,)); d = D(4); return keras.Model(i, d(L.ReLU()(d(i))))

  def g_shared_branches():
    i, j = keras.Input((4,)), keras.Input((4,)); d = D(3); return keras.Model([i, j], L.Subtract()([d(j), d(i)]))

  def g_two_in():
    i, j = keras.Input((4,)), keras.Input((3,)); return keras.Model([j, i], L.Concatenate()([D(2)(i), D(2)(j)]))

  def g_two_out():
    i = keras.Input((4,)); x = D(3)(i); return keras.Model(i, [D(2)(x), x])

  def g_out_order():
    i = keras.Input((4,)); x = D(3)(i); y = D(2)(x); return keras.Model(i, [y, x, D(3)(y)])

  def g_nested_seq():
    i = keras.Input((4,)); s = keras.Sequential([D(3, input_shape=(4,)), L.ReLU(), D(2)]); return keras.Model(i, D(2)(s(i)))

  def g_nested_fun():
    i = keras.Input((4,)); k = keras.Input((4,)); f = keras.Model(k, D(3)(D(4)(k))); return keras.Model(i, D(2)(f(i)))

  def g_nested_twice():
    i = keras.Input((4,)); k = keras.Input((4,)); f = keras.Model(k, D(4)(k)); return keras.Model(i, f(f(i)))

  def g_seq_of_seq():
    return keras.Sequential([keras.Sequential([D(3, input_shape=(4,)), D(3)]), D(2)])

  def g_deep_nest():
    return keras.Sequential([D(3, input_shape=(4,)), keras.Sequential([D(3), keras.Sequential([D(2)])])])

  def g_seq_shape():
    return keras.Sequential([D(3, input_shape=(4,)), D(2)])

  def g_seq_named():
    return keras.Sequential([D(3, input_shape=(4,), name='first'), D(2, name='second')], name='my_model')

  def g_passthrough():
    i = keras.Input((4,)); return keras.Model(i, [i, D(2)(i)])

  def g_conv():
    i = keras.Input((4, 4, 2)); x = L.Conv2D(3, 3, padding='same')(i); x = L.BatchNormalization()(x); x = L.ReLU()(x); x = L.MaxPooling2D(2)(x)
    return keras.Model(i, D(2)(L.Flatten()(x)))

  def g_dict_names():
    i, j = keras.Input((4,), name='b'), keras.Input((4,), name='a'); return keras.Model([i, j], L.Subtract()([D(3)(i), D(3)(j)]), name='net')

  def g_multi_use():
    i = keras.Input((4,)); a = D(4)(i); b = L.ReLU()(a); c = D(4)(b); return keras.Model(i, L.Add()([a, b, c]))

  def g_masking_lstm():
    i = keras.Input((3, 2)); return keras.Model(i, D(2)(L.LSTM(2)(L.Masking()(i))))

  def g_embedding_mask():
    i = keras.Input((3,)); x = L.Embedding(5, 3, mask_zero=True)(i); return keras.Model(i, L.LSTM(2)(L.Dropout(0.1)(D(2)(x))))

  def g_embedding_mask_mean():
    i = keras.Input((3,)); x = L.Embedding(5, 3, mask_zero=True)(i); return keras.Model(i, D(2)(L.GlobalAveragePooling1D()(x)))

  def g_embedding_mask_add():
    i = keras.Input((3,)); x = L.Embedding(5, 2, mask_zero=True)(i)
    return keras.Model(i, L.GRU(2)(L.Add()([L.SimpleRNN(2, return_sequences=True)(x), x])))

  def g_embedding_mask_reshaped():
    i = keras.Input((3,)); x = L.Embedding(5, 3, mask_zero=True)(i); return keras.Model(i, D(2)(L.Flatten()(L.BatchNormalization()(x))))

  def g_attention():
    i = keras.Input((3, 4)); return keras.Model(i, L.MultiHeadAttention(2, 2)(i, i))
  table[L.MultiHeadAttention] = lambda l: [l._query_dense.kernel, l._key_dense.kernel, l._value_dense.kernel, l._output_dense.kernel]

  shapes = [v for k, v in sorted(locals().items()) if k.startswith('g_')]
  for shape, (sn, kw) in itertools.product(shapes, settings):
    if not ctx.mine() or ctx.over():
      continue
    sig = 'graph %s, %s' % (shape.__name__[2:], sn)
    with ctx.cell(sig):
      lifecycle(sig, shape, prunable, kw)

  # ---- a policy of the user's own decides which layers are pruned
  class Only(tfmot.sparsity.keras.PruningPolicy):
    def __init__(self, names): self.names = names
    def allow_pruning(self, layer): return layer.name in self.names
    def ensure_model_supports_pruning(self, model): pass
  for sub in itertools.chain.from_iterable(itertools.combinations(('d0', 'd1', 'd2'), r) for r in range(4)):
    if not ctx.mine():
      continue
    with ctx.cell('policy prunes %s' % (sub,)):
      def make():
        i = keras.Input((4,)); x = D(3, name='d0')(i); x = L.ReLU(name='r')(x); y = D(3, name='d1')(x)
        return keras.Model(i, D(2, name='d2')(L.Add(name='s')([x, y])))
      lifecycle('policy', make, prunable, dict(pruning_schedule=C(0.5, 0, -1, 1), pruning_policy=Only(sub)), all_wrapped=lambda l: l.name in sub)

  # ---- a list of layers
  if ctx.mine():
    with ctx.cell('list of layers'):
      ls = [L.InputLayer((4,)), D(3), L.ReLU(), prune(D(2), C(0.5, 0))]
      r = prune(ls, pruning_schedule=C(0.25, 0))
      require([type(l).__name__ for l in r] == ['InputLayer', 'PruneLowMagnitude', 'PruneLowMagnitude', 'PruneLowMagnitude'], '%s', r)
      require(r[3] is ls[3] and r[1].layer is ls[1], 'already wrapped layers must be kept')
      require(keras.Sequential(r).predict(np.ones((1, 4), np.float32), verbose=0).shape == (1, 2), 'list model')
      ctx.evald('list')

  # ---- what cannot be pruned is refused
  class Sub(keras.Model):
    def call(self, x): return x

  bad = {
      'own layer without prunable weights': lambda: prune(Plain(), C(0.5, 0)),
      'model with an unknown layer': lambda: prune(keras.Sequential([D(2, input_shape=(3,)), Plain()]), C(0.5, 0)),
      'subclassed model': lambda: prune(Sub(), C(0.5, 0)),
      'subclassed model inside': lambda: prune(keras.Sequential([D(2, input_shape=(3,)), Sub()]), C(0.5, 0)),
      'RNN with unknown cell': lambda: prune(L.RNN(type('MyCell', (L.SimpleRNNCell,), {})(2)), C(0.5, 0)),
      'not a layer': lambda: prune('dense', C(0.5, 0)), 'list with an unknown layer': lambda: prune([D(2), Plain()], C(0.5, 0)),
      'unknown pooling': lambda: prune(D(2), C(0.5, 0), block_pooling_type='SUM'),
      'strip of a layer': lambda: strip(D(2)), 'bad m by n': lambda: prune(D(2), C(0.5, 0), sparsity_m_by_n=(2,)),
      'm by n not integers': lambda: prune(D(2), C(0.5, 0), sparsity_m_by_n=(2.0, 4)),
  }
  for name, f in bad.items():
    if not ctx.mine():
      continue
    with ctx.cell('refused: ' + name):
      try:
        f(); ok = False
      except (ValueError, NotImplementedError):
        ok = True
      require(ok, 'accepted')
      ctx.evald(('bad', name))
