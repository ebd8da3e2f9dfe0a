"""C05: clustering and stripping over enumerated architectures."""
import itertools
LEVEL = 'exploration'
RULE = ('one case = one model (layer kind x container, or graph shape) x clustering settings that is clustered, trained, compared '
        'and stripped; distinct = distinct (case, weights) pairs')
ASSUME = ['outputs are compared up to float32 rounding, clustered weights exactly, associations up to ties']
BOUND = {'quick': '53 layer kinds x 2 containers, 26 graph shapes x 2 settings, 48 convolution sizes around the minimum number of weights, refused models',
         'thorough': '4 settings for every layer kind and graph shape'}


def run(ctx):
  import numpy as np
  from env import tf, keras, tfmot, snap
  from mc import require
  import clus
  from clus import L, CI, GA, cluster_weights, strip, is_wrap, clusterable, Own, fill
  sup = {
      'Dense': (lambda: L.Dense(3), (4,)), 'Dense no bias': (lambda: L.Dense(3, use_bias=False, activation='relu'), (4,)),
      'Dense regularized': (lambda: L.Dense(3, kernel_regularizer='l2', kernel_constraint='non_neg'), (4,)),
      'Dense activity regularized': (lambda: L.Dense(3, activity_regularizer='l2'), (4,)),
      'Conv1D': (lambda: L.Conv1D(2, 2), (4, 2)), 'Conv1DTranspose': (lambda: L.Conv1DTranspose(2, 2), (4, 2)), 'Conv2D': (lambda: L.Conv2D(2, 2, strides=2), (4, 4, 2)),
      'Conv2DTranspose': (lambda: L.Conv2DTranspose(2, 2), (2, 2, 2)), 'Conv3D': (lambda: L.Conv3D(2, 2), (2, 2, 2, 1)), 'Conv3DTranspose': (lambda: L.Conv3DTranspose(2, 2), (2, 2, 2, 1)),
      'DepthwiseConv2D': (lambda: L.DepthwiseConv2D(2), (3, 3, 2)), 'SeparableConv1D': (lambda: L.SeparableConv1D(3, 2), (4, 2)), 'SeparableConv2D': (lambda: L.SeparableConv2D(3, 2), (3, 3, 2)),
      'Embedding': (lambda: L.Embedding(5, 3), (4,)), 'LocallyConnected1D': (lambda: L.LocallyConnected1D(2, 2), (4, 2)), 'LocallyConnected2D': (lambda: L.LocallyConnected2D(2, 2), (3, 3, 1)),
      'SimpleRNN': (lambda: L.SimpleRNN(2), (3, 2)), 'LSTM': (lambda: L.LSTM(2), (3, 2)), 'GRU': (lambda: L.GRU(2, return_sequences=True), (3, 2)),
      'RNN of a cell': (lambda: L.RNN(L.LSTMCell(2)), (3, 2)), 'RNN of equal cells': (lambda: L.RNN([L.GRUCell(2), L.GRUCell(2)]), (3, 2)), 'RNN of three cells': (lambda: L.RNN([L.LSTMCell(2), L.SimpleRNNCell(2), L.LSTMCell(2)]), (3, 2)),
      'RNN of cells': (lambda: L.RNN([L.GRUCell(2), L.SimpleRNNCell(3)]), (3, 2)),
      'Bidirectional': (lambda: L.Bidirectional(L.LSTM(2)), (3, 2)),
      'own layer': (lambda: Own(), (4,)), 'own layer, one weight': (lambda: Own(both=False), (4,)), 'own layer, other order': (lambda: Own(swap=True), (4,)),
      'BatchNormalization': (lambda: L.BatchNormalization(), (4,)), 'LayerNormalization': (lambda: L.LayerNormalization(), (4,)),
      'Dropout': (lambda: L.Dropout(0.5), (4,)), 'SpatialDropout1D': (lambda: L.SpatialDropout1D(0.5), (2, 2)), 'GaussianNoise': (lambda: L.GaussianNoise(0.1), (4,)),
      'Flatten': (lambda: L.Flatten(), (2, 2)), 'Reshape': (lambda: L.Reshape((4,)), (2, 2)), 'Permute': (lambda: L.Permute((2, 1)), (2, 3)), 'RepeatVector': (lambda: L.RepeatVector(2), (3,)),
      'Lambda': (lambda: L.Lambda(lambda x: x * 2.0), (4,)), 'Masking': (lambda: L.Masking(), (2, 2)), 'ReLU': (lambda: L.ReLU(), (4,)), 'Softmax': (lambda: L.Softmax(), (4,)),
      'Activation': (lambda: L.Activation('tanh'), (4,)), 'Rescaling': (lambda: L.Rescaling(0.5), (4,)),
      'MaxPooling2D': (lambda: L.MaxPooling2D(2), (4, 4, 2)), 'AveragePooling2D': (lambda: L.AveragePooling2D(2), (4, 4, 2)), 'GlobalAveragePooling2D': (lambda: L.GlobalAveragePooling2D(), (4, 4, 2)),
      'ZeroPadding2D': (lambda: L.ZeroPadding2D(1), (2, 2, 2)), 'UpSampling2D': (lambda: L.UpSampling2D(2), (2, 2, 2)), 'Cropping1D': (lambda: L.Cropping1D(1), (4, 2)),
      'LSTM with dropout': (lambda: L.LSTM(2, dropout=0.5), (3, 2)), 'Conv2D same dilated': (lambda: L.Conv2D(3, 2, dilation_rate=2, padding='same'), (4, 4, 2)),
      'Dense not trainable': (lambda: L.Dense(3, trainable=False), (4,)), 'Dense named': (lambda: L.Dense(3, name='MyName'), (4,)),
  }

  def norm(c):
    """Configuration without build shapes and byte code."""
    if isinstance(c, dict):
      return {k: norm(v) for k, v in c.items() if k not in ('build_config', 'build_input_shape', 'function')}
    return [norm(v) for v in c] if isinstance(c, (list, tuple)) else c

  def leaves(m):
    out = []
    for l in m.layers:
      out += leaves(l) if isinstance(l, keras.Model) else [l]
    return out

  def batch(m):
    out = []
    for j, i in enumerate(m.inputs):
      sh = (2,) + tuple(i.shape[1:])
      out.append(np.array([((k * 3 + j) % 5) for k in range(int(np.prod(sh)))], np.float32).reshape(sh))
    return out

  def outs(m, x, training=False):
    y = m(x if len(x) > 1 else x[0], training=training)
    return [np.array(v) for v in (y if isinstance(y, (list, tuple)) else [y])]

  def same(a, b, what, tol=1e-5):
    require(len(a) == len(b), '%s: %d outputs instead of %d', what, len(b), len(a))
    for u, v in zip(a, b):
      require(u.shape == v.shape and np.allclose(u, v, rtol=tol, atol=tol), '%s: outputs differ: %s and %s', what, u.reshape(-1)[:6], v.reshape(-1)[:6])

  S = [dict(number_of_clusters=3, cluster_centroids_init=CI.LINEAR), dict(number_of_clusters=2, cluster_centroids_init=CI.KMEANS_PLUS_PLUS, cluster_gradient_aggregation=GA.AVG),
       dict(number_of_clusters=3, cluster_centroids_init=CI.DENSITY_BASED, preserve_sparsity=True), dict(number_of_clusters=4, cluster_centroids_init=CI.RANDOM, cluster_per_channel=True)]

  def enough(l, kw):
    if not isinstance(l, L.Conv2D):
      return True
    n = int(np.prod(l.kernel.shape))
    return (n / l.kernel.shape[-1] if kw.get('cluster_per_channel') else n) > kw['number_of_clusters']

  def lifecycle(sig, make, kw):
    m, plain = make(), make()
    k = 0
    for l, q in zip(leaves(m), leaves(plain)):
      new = []
      for w in l.get_weights():
        k += 1
        v = fill(k, w.shape) + np.float32(0.01 * k)
        new.append(np.abs(v) + 0.1 if isinstance(l, L.BatchNormalization) else v)
      if new:
        l.set_weights(new); q.set_weights(new)
    x = batch(m)
    cfg = norm(m.get_config())
    ol = leaves(m)
    names = [l.name for l in ol]
    ref = dict(zip(names, leaves(plain)))
    y0 = outs(m, x)
    # what is clustered: layer name -> (variables in the order of the plain layer, positions of clustered ones)
    info = {}
    for l in ol:
      cl = clusterable(l) if enough(l, kw) else []
      vs = list(l.weights)
      index = {id(v): i for i, v in enumerate(vs)}
      info[l.name] = (vs, [index[id(v)] for _, v in cl], [nm for nm, _ in cl], snap(vs))
    c = cluster_weights(m, **kw)
    cl = leaves(c)
    require(len(cl) == len(ol), 'clustered model has %d layers instead of %d', len(cl), len(ol))
    wraps = {}
    for a in cl:
      inner = a.layer if is_wrap(a) else a
      require(inner.name in names, 'layer %s is not in the original model', inner.name)
      o = ol[names.index(inner.name)]
      if isinstance(o, L.InputLayer):
        require(not is_wrap(a), 'an input layer is wrapped')
        continue
      require(is_wrap(a) == enough(o, kw), 'layer %s: wrapped is %s', o.name, is_wrap(a))
      wraps[inner.name] = a
      got = sorted(a.cluster_centroids) if is_wrap(a) else []
      require(got == sorted(info[inner.name][2]), 'layer %s: clustered weights %s instead of %s', inner.name, got, info[inner.name][2])
      require(all(np.array_equal(u, v) for u, v in zip(snap(info[inner.name][0]), info[inner.name][3])), 'clustering changed the weights of layer %s', inner.name)

    def load_ref():
      """Loads the twin with the current weights; clustered ones nearest-centroid."""
      for nm, (vs, pos, wn, _) in info.items():
        if not vs:
          continue
        ws = snap(vs)
        for p, n_ in zip(pos, wn):
          a = wraps[nm]
          cent = a.cluster_centroids[n_].numpy()
          e = np.array(a.get_weight_from_layer(n_))
          w = ws[p]
          per = cent.ndim == 2
          for i, row in enumerate(cent if per else cent[None]):
            ee, ww = (e[..., i], w[..., i]) if per else (e, w)
            if kw.get('preserve_sparsity'):
              continue  # associations with sparsity are the subject of C04
            require((np.abs(ee - ww) <= np.abs(ww[..., None] - row).min(-1) + 1e-6).all() and np.isin(ee, row).all(), 'layer %s: weights are not the nearest centroids', nm)
            require(len(np.unique(ee)) <= kw['number_of_clusters'], 'layer %s has %d values', nm, len(np.unique(ee)))
          ws[p] = e
        ref[nm].set_weights([np.array(v, copy=True) for v in ws])

    y = outs(c, x)
    require([v.shape for v in y] == [v.shape for v in y0], 'shapes of the outputs changed')
    load_ref()
    same(outs(plain, x), y, 'clustered model before training')
    ctx.evald((sig, 'clustered'))
    # -- training behaves as in the plain model with the clustered weights
    noise = any(isinstance(l, (L.Dropout, L.SpatialDropout1D, L.GaussianNoise)) or getattr(l, 'dropout', 0) for l in ol)
    if not noise:
      yt = outs(c, x, True)
      # statistics updated by the training call itself are compared afterwards
      mv = {nm: snap(vs) for nm, (vs, pos, _, _) in info.items() if not pos and vs}
      same(outs(plain, x, True), yt, 'clustered model in training')
      for nm, vals in mv.items():
        require(all(np.allclose(a, b, rtol=1e-5, atol=1e-6) for a, b in zip(vals, ref[nm].get_weights())), 'statistics of layer %s after a training call', nm)
    else:
      ys = [outs(c, x, True) for _ in range(8)]
      require(any(not np.allclose(ys[0][0], v[0]) for v in ys[1:]), 'the layer is deterministic in training')
      require(np.allclose(outs(c, x)[0], outs(c, x)[0]), 'inference is random')
    # -- clustering again adds nothing
    cc = cluster_weights(c, **kw)
    require([l.name for l in leaves(cc)] == [l.name for l in cl] and not any(is_wrap(l) and is_wrap(l.layer) for l in leaves(cc)), 'clustering twice wraps twice')
    # -- train, strip
    c.compile(keras.optimizers.SGD(0.05, clipvalue=0.2), loss='mse', run_eagerly=True)
    ys = [np.ones_like(v) for v in y0]
    c.fit(x if len(x) > 1 else x[0], ys if len(ys) > 1 else ys[0], batch_size=1, epochs=2, verbose=0, shuffle=False)
    yp = outs(c, x)
    load_ref()
    if not kw.get('preserve_sparsity'):
      same(outs(plain, x), yp, 'clustered model after training', 1e-4)
    final = {nm: ref[nm].get_weights() for nm in names}
    s = strip(c)
    require(not any(is_wrap(l) for l in leaves(s)), 'the stripped model still has wrappers')
    require(norm(s.get_config()) == cfg, 'configuration of the stripped model differs from the original:\n%s\n%s', norm(s.get_config()), cfg)
    require(type(s) == type(m), 'the stripped model is a %s', type(s).__name__)
    for l in leaves(s):
      u, v = l.get_weights(), final[l.name]
      if isinstance(l, L.MultiHeadAttention):
        byname = lambda z, ws: sorted((w.name.split('/')[-2:], a.tobytes()) for w, a in zip(z.weights, ws))
        require(byname(l, u) == byname(ref[l.name], v), 'weights of %s changed by stripping', l.name)
      else:
        require(len(u) == len(v) and all(np.array_equal(a, b) for a, b in zip(u, v)), 'layer %s has weights %s instead of %s after stripping', l.name, [w.reshape(-1)[:4] for w in u], [w.reshape(-1)[:4] for w in v])
      ctx.evald((sig, l.name, tuple(a.tobytes() for a in u)))
    require(sum(w.shape.num_elements() for w in s.weights) == sum(w.shape.num_elements() for w in plain.weights), 'the stripped model has other variables: %s', [w.name for w in s.weights])
    same(yp, outs(s, x), 'stripped model')
    # the variables of the stripped model are the ones it computes with
    if s.trainable_weights and not any(isinstance(l, L.Embedding) for l in ol):
      for v in s.weights:
        v.assign(tf.zeros_like(v))
      z = plain
      for v in z.weights:
        v.assign(tf.zeros_like(v))
      same(outs(z, x), outs(s, x), 'stripped model with zero weights')

  settings = S if ctx.thorough else S[:2]
  for (name, (f, shape)), container in itertools.product(sup.items(), ('sequential', 'functional')):
    if not ctx.mine() or ctx.over():
      continue
    for kw in (settings if ctx.thorough else [S[(ctx.counter // 2) % 2]]):
      sig = 'layer %s, %s, %s' % (name, container, kw['cluster_centroids_init'].name)
      with ctx.cell(sig):
        def make():
          if container == 'sequential':
            return keras.Sequential([L.InputLayer(shape), f(), L.Flatten(name='last_flatten')], name='model')
          i = keras.Input(shape, name='in')
          return keras.Model(i, L.Flatten(name='last_flatten')(f()(i)), name='model')

        def named():
          keras.backend.reset_uids()
          return make()
        lifecycle(sig, named, kw)
      ctx.sample({'case': sig})
    if ctx.counts['cells'] % 25 == 0:
      keras.backend.clear_session()

  D = L.Dense

  def g_chain():
    i = keras.Input((4,)); return keras.Model(i, D(2)(L.ReLU()(D(3)(i))))

  def g_residual():
    i = keras.Input((4,)); x = D(4)(i); return keras.Model(i, L.Add()([x, D(4)(x)]))

  def g_concat_order():
    i = keras.Input((4,)); a, b = D(2)(i), D(3)(i); return keras.Model(i, D(2)(L.Concatenate()([b, a, i])))

  def g_subtract():
    i = keras.Input((4,)); a, b = D(3)(i), D(3)(i); return keras.Model(i, L.Subtract()([b, a]))

  def g_shared():
    i = keras.Input((4,)); d = D(4); return keras.Model(i, d(L.ReLU()(d(i))))

  def g_shared_branches():
    i, j = keras.Input((4,)), keras.Input((4,)); d = D(3); return keras.Model([i, j], L.Subtract()([d(j), d(i)]))

  def g_two_in():
    i, j = keras.Input((4,)), keras.Input((3,)); return keras.Model([j, i], L.Concatenate()([D(2)(i), D(2)(j)]))

  def g_two_out():
    i = keras.Input((4,)); x = D(3)(i); return keras.Model(i, [D(2)(x), x])

  def g_out_order():
    i = keras.Input((4,)); x = D(3)(i); y = D(2)(x); return keras.Model(i, [y, x, D(3)(y)])

  def g_nested_seq():
    i = keras.Input((4,)); s = keras.Sequential([D(3, input_shape=(4,)), L.ReLU(), D(2)]); return keras.Model(i, D(2)(s(i)))

  def g_nested_fun():
    i = keras.Input((4,)); k = keras.Input((4,)); f = keras.Model(k, D(3)(D(4)(k))); return keras.Model(i, D(2)(f(i)))

  def g_deep_nest():
    i = keras.Input((4,)); f = keras.Model(i, D(3)(i)); j = keras.Input((4,)); g = keras.Model(j, f(j)); k = keras.Input((4,)); return keras.Model(k, D(2)(g(k)))

  def g_deep_seq():
    return keras.Sequential([keras.Sequential([keras.Sequential([D(3, input_shape=(4,)), L.ReLU()])]), D(2)])

  def g_nest_only():
    i = keras.Input((4,)); f = keras.Model(i, D(3)(i)); j = keras.Input((4,)); return keras.Model(j, f(j))

  def g_nest_mixed():
    i = keras.Input((4,)); f = keras.Sequential([keras.Sequential([D(3, input_shape=(4,))]), L.ReLU(), D(3)]); return keras.Model(i, L.Add()([D(3)(i), f(i)]))

  def g_seq_of_seq():
    return keras.Sequential([keras.Sequential([D(3, input_shape=(4,)), D(3)]), D(2)])

  def g_seq_shape():
    return keras.Sequential([D(3, input_shape=(4,)), D(2)])

  def g_passthrough():
    i = keras.Input((4,)); return keras.Model(i, [i, D(2)(i)])

  def g_conv():
    i = keras.Input((4, 4, 2)); x = L.Conv2D(3, 3, padding='same')(i); x = L.BatchNormalization()(x); x = L.ReLU()(x); x = L.MaxPooling2D(2)(x)
    return keras.Model(i, D(2)(L.Flatten()(x)))

  def g_conv_small():
    i = keras.Input((4, 4, 1)); x = L.Conv2D(2, 1)(i); x = L.Conv2D(2, 2)(x); return keras.Model(i, D(2)(L.Flatten()(x)))

  def g_masking_lstm():
    i = keras.Input((3, 2)); return keras.Model(i, D(2)(L.LSTM(2)(L.Masking()(i))))

  def g_embedding_mask():
    i = keras.Input((3,)); x = L.Embedding(5, 3, mask_zero=True)(i); return keras.Model(i, L.LSTM(2)(L.ReLU()(D(2)(x))))

  def g_embedding_mask_mean():
    i = keras.Input((3,)); x = L.Embedding(5, 3, mask_zero=True)(i); return keras.Model(i, D(2)(L.GlobalAveragePooling1D()(x)))

  def g_embedding_mask_reshaped():
    i = keras.Input((3,)); x = L.Embedding(5, 3, mask_zero=True)(i); return keras.Model(i, D(2)(L.Flatten()(L.BatchNormalization()(x))))

  def g_attention():
    i = keras.Input((3, 4)); return keras.Model(i, L.MultiHeadAttention(2, 2)(i, i))

  def g_multi_use():
    i = keras.Input((4,)); a = D(4)(i); b = L.ReLU()(a); c = D(4)(b); return keras.Model(i, L.Add()([a, b, c]))

  shapes = [v for k, v in sorted(locals().items()) if k.startswith('g_')]
  for shape, kw in itertools.product(shapes, settings):
    if not ctx.mine() or ctx.over():
      continue
    sig = 'graph %s, %s' % (shape.__name__[2:], kw['cluster_centroids_init'].name)
    with ctx.cell(sig):
      def named():
        keras.backend.reset_uids()
        return shape()
      lifecycle(sig, named, kw)

  # ---- convolutions around the smallest number of weights that can be clustered
  for kh, ci, co, n, per in itertools.product((1, 2), (1, 2), (1, 3), (2, 4), (False, True)):
    if not ctx.mine():
      continue
    for bias in (True, False):
      sig = 'Conv2D %dx1x%dx%d, %d clusters%s%s' % (kh, ci, co, n, ', per channel' if per else '', '' if bias else ', no bias')
      with ctx.cell(sig):
        def make():
          keras.backend.reset_uids()
          i = keras.Input((2, 2, ci)); return keras.Model(i, L.Conv2D(co, (kh, 1), use_bias=bias)(i))
        lifecycle(sig, make, dict(number_of_clusters=n, cluster_centroids_init=CI.LINEAR, cluster_per_channel=per))

  # ---- lists, single layers, refused models
  if ctx.mine():
    with ctx.cell('list of layers'):
      done = cluster_weights(L.Dense(2, input_shape=(3,)), number_of_clusters=2, cluster_centroids_init=CI.LINEAR)
      r = cluster_weights([L.InputLayer((4,)), L.Dense(3), L.ReLU(), done], number_of_clusters=2, cluster_centroids_init=CI.LINEAR)
      require([is_wrap(l) for l in r] == [False, True, True, True] and r[3] is done, '%s', r)
      require(keras.Sequential(r).predict(np.ones((1, 4), np.float32), verbose=0).shape == (1, 2), 'list model')
      ctx.evald('list')

  class Plain(L.Layer):
    def build(self, s):
      self.a = self.add_weight('a', (3,))

  class Sub(keras.Model):
    def call(self, x): return x
  kw = dict(number_of_clusters=2, cluster_centroids_init=CI.LINEAR)

  def plain():
    l = Plain(); l.build((None, 3)); return l
  bad = {
      'own layer without clusterable weights': lambda: cluster_weights(plain(), **kw),
      'model with an unknown layer': lambda: cluster_weights(keras.Sequential([L.InputLayer((3,)), Plain()]), **kw),
      'subclassed model': lambda: cluster_weights(Sub(), **kw), 'subclassed model inside': lambda: cluster_weights(keras.Sequential([L.Dense(2, input_shape=(3,)), Sub()]), **kw),
      'one cluster': lambda: cluster_weights(L.Dense(2), 1, CI.LINEAR), 'float clusters': lambda: cluster_weights(L.Dense(2), 2.0, CI.LINEAR),
      'two clusters with sparsity': lambda: cluster_weights(L.Dense(2), 2, CI.LINEAR, preserve_sparsity=True), 'unknown method': lambda: cluster_weights(L.Dense(2), 2, 'NOPE'),
      'strip of a layer': lambda: strip(L.Dense(2)),
  }
  for name, f in bad.items():
    if not ctx.mine():
      continue
    with ctx.cell('refused: ' + name):
      try:
        f(); ok = False
      except (ValueError, NotImplementedError):
        ok = True
      require(ok, 'accepted')
      ctx.evald(('bad', name))
