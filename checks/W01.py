"""W01: weight compression computes the same for inference as in training."""
import itertools
LEVEL = 'model_checking'
RULE = ('one case = (model, compression algorithm with its settings); states = values of all training weights reached by a history of '
        'training steps, assignments and predictions, each compared with numpy and converted for inference; distinct = distinct states')
ASSUME = ['float32 layers; weights are compared with a tolerance of 1e-4 of their magnitude',
          'layer subclasses of Dense and Conv2D are the ones the shipped algorithms select']
BOUND = {'quick': "18 one-layer and 10 two- and three-layer models, sequential and functional, 5 algorithms with all ranks up to 4, 3 kernel contents, histories of <=2 events over 3 events; an algorithm of one's own for 4 selections of weights on every model; dense and convolution kernels of 16 sizes from 1 x 1 to 5 x 5 with 5 ranks up to 6",
         'thorough': 'the same models, histories of <=4 events, ranks up to 5, 2..4 clusters, 4 initializations'}


def run(ctx):
  import numpy as np
  from env import tf, keras
  from mc import require
  import bfs
  from tensorflow_model_optimization.python.core.common.keras.compression import algorithm as alg
  from tensorflow_model_optimization.python.core.common.keras.compression.algorithms import (
      same_training_and_inference as same, different_training_and_inference as diff, bias_only,
      weight_clustering as wc, periodical_update_and_scheduling as per)
  from tensorflow_model_optimization.python.core.clustering.keras.cluster_config import CentroidInitialization as CI
  L = keras.layers

  # ---- models: name -> (input shape, list of layer makers or function of the input)
  S4 = (4, 3, 2)
  one = {
      'dense': ((4,), [lambda: L.Dense(3)]),
      'dense relu': ((4,), [lambda: L.Dense(3, activation='relu')]),
      'dense without bias': ((4,), [lambda: L.Dense(3, use_bias=False)]),
      'wide dense': ((2,), [lambda: L.Dense(5)]),
      'dense of sequence': ((3, 4), [lambda: L.Dense(2)]),
      'frozen dense': ((4,), [lambda: L.Dense(3, trainable=False)]),
      'one unit': ((3,), [lambda: L.Dense(1)]),
      'conv': (S4, [lambda: L.Conv2D(3, 2)]),
      'conv same stride': (S4, [lambda: L.Conv2D(4, (2, 1), strides=2, padding='same', activation='tanh')]),
      'conv without bias': (S4, [lambda: L.Conv2D(3, 2, use_bias=False)]),
      'dilated conv': (S4, [lambda: L.Conv2D(2, 2, dilation_rate=(2, 1))]),
      'transposed conv': (S4, [lambda: L.Conv2DTranspose(3, 2)]),
      'depthwise conv': (S4, [lambda: L.DepthwiseConv2D(2)]),
      'separable conv': (S4, [lambda: L.SeparableConv2D(3, 2)]),
      'conv1d': ((5, 2), [lambda: L.Conv1D(3, 2)]),
      'batch normalization': (S4, [lambda: L.BatchNormalization()]),
      'layer normalization': ((4,), [lambda: L.LayerNormalization()]),
      'lstm': ((3, 2), [lambda: L.LSTM(2)]),
  }
  more = {
      'conv, batch normalization': (S4, [lambda: L.Conv2D(3, 2), lambda: L.BatchNormalization()]),
      'batch normalization, dense': ((4,), [lambda: L.BatchNormalization(), lambda: L.Dense(3)]),
      'dense, dense without bias': ((4,), [lambda: L.Dense(3), lambda: L.Dense(2, use_bias=False)]),
      'dense without bias, dense': ((4,), [lambda: L.Dense(3, use_bias=False), lambda: L.Dense(2)]),
      'frozen, trained': ((4,), [lambda: L.Dense(3, trainable=False), lambda: L.Dense(2)]),
      'conv, pool, flatten, dense': (S4, [lambda: L.Conv2D(3, 2), lambda: L.MaxPool2D(2), lambda: L.Flatten(), lambda: L.Dense(2)]),
      'dense, dropout, dense': ((4,), [lambda: L.Dense(3), lambda: L.Dropout(0.5), lambda: L.Dense(2)]),
  }

  def residual(x):
    return L.Add()([L.Dense(4)(x), x])

  def shared(x):
    d = L.Dense(4)
    return d(L.ReLU()(d(x)))

  def concat(x):
    return L.Concatenate()([L.Dense(2)(x), L.Dense(3, use_bias=False)(x)])

  def outputs2(x):
    h = L.Dense(3)(x)
    return [L.Dense(2)(h), h]

  def nested(x):
    return L.Dense(2)(keras.Sequential([L.Dense(3, input_shape=(4,)), L.BatchNormalization()])(x))
  graphs = {'residual': ((4,), residual), 'shared': ((4,), shared), 'concatenation': ((4,), concat),
            'two outputs': ((4,), outputs2), 'nested model': ((4,), nested)}

  def values(shape, k, content):
    n = int(np.prod(shape)) if len(shape) else 1
    v = np.array([((i * (7 + 2 * k) + 3 * k) % 23 - 11) / 7.0 for i in range(n)], np.float32).reshape(shape)
    if content == 1 and len(shape) >= 2:  # rank one
      v = np.ones(shape, np.float32) * np.arange(1, shape[-1] + 1, dtype=np.float32) / 4.0
      v = v * (1 + np.arange(shape[-2], dtype=np.float32))[:, None] / 2.0
    if content == 2 and len(shape) >= 2:
      v = np.zeros(shape, np.float32) + np.eye(shape[-2], shape[-1], dtype=np.float32)
    return v

  def make(name, form, content):
    shape, spec = (one.get(name) or more.get(name) or graphs.get(name))
    if callable(spec):
      i = L.Input(shape)
      m = keras.Model(i, spec(i))
    elif form == 'sequential':
      ls = [mk() for mk in spec]
      m = keras.Sequential([L.InputLayer(shape)] + ls)
    else:
      i = L.Input(shape)
      x = i
      for mk in spec:
        x = mk()(x)
      m = keras.Model(i, x)
    ws = []
    for k, v in enumerate(m.weights):
      a = values(v.shape, k, content)
      ws.append(np.abs(a) + 0.5 if 'variance' in v.name else a)
    m.set_weights(ws)
    return m, shape

  def selected(layer, what):
    """Names of the weights an algorithm compresses, by its documentation."""
    if not isinstance(layer, (L.Dense, L.Conv2D)) or isinstance(layer, (L.DepthwiseConv2D, L.SeparableConv2D)):
      return []
    if what == 'bias':
      return ['bias'] if layer.use_bias else []
    return ['kernel']

  def trunc_ok(k, e, r, msg):
    """e is a best approximation of rank r of every matrix of k (Eckart-Young)."""
    k2 = k.reshape((-1,) + k.shape[-2:]).astype(np.float64)
    e2 = e.reshape((-1,) + k.shape[-2:]).astype(np.float64)
    tol = 2e-4 * (1 + np.abs(k2).max())
    for a, b in zip(k2, e2):
      s = np.linalg.svd(a, compute_uv=False)
      require(abs(np.linalg.norm(a - b) - np.sqrt((s[r:] ** 2).sum())) <= tol, '%s: error %g of the rank %d form, best is %g', msg, np.linalg.norm(a - b), r, np.sqrt((s[r:] ** 2).sum()))
      sb = np.linalg.svd(b, compute_uv=False)
      require((sb[r:] <= tol).all(), '%s: rank larger than %d', msg, r)

  def close(a, b, msg):
    a = [np.asarray(v) for v in (a if isinstance(a, (list, tuple)) else [a])]
    b = [np.asarray(v) for v in (b if isinstance(b, (list, tuple)) else [b])]
    require(len(a) == len(b), '%s: %d instead of %d outputs', msg, len(a), len(b))
    for u, v in zip(a, b):
      require(u.shape == v.shape, '%s: shape %s instead of %s', msg, u.shape, v.shape)
      require(np.all(np.abs(u - v) <= 1e-4 * (1 + np.abs(v))), '%s: %s instead of %s', msg, u.reshape(-1)[:8].tolist(), v.reshape(-1)[:8].tolist())

  class Alg:
    """An algorithm together with its meaning in numpy."""

    def __init__(self, kind, *args):
      self.kind, self.args = kind, args
      self.what = 'bias' if kind == 'bias only' else 'kernel'
      self.nw = {'svd': 2, 'svd afterwards': 1, 'bias only': 2, 'clustering': 2, 'periodic svd': 2}[kind]

    def make(self):
      return {'svd': same.SVD, 'svd afterwards': diff.SVD, 'bias only': bias_only.BiasOnly,
              'clustering': wc.WeightClustering, 'periodic svd': per.SVD}[self.kind](*self.args)

    def train(self, a, m):
      if self.kind == 'svd afterwards':  # its compress_model converts at once
        return keras.models.clone_model(m, clone_function=lambda l: alg.create_layer_for_training(l, a))
      return getattr(a, 'optimize_model' if self.kind == 'periodic svd' else 'compress_model')(m)

    def infer(self, a, t):
      if self.kind == 'periodic svd':
        return a.compress_model(t)
      return keras.models.clone_model(t, clone_function=lambda l: alg.create_layer_for_inference(l, a))

    def effective(self, ws, shape):
      """Weight used in training for the given training weights."""
      if self.kind == 'svd':
        return np.matmul(ws[0], ws[1])
      if self.kind == 'bias only':
        return np.full(shape, ws[0], np.float32)
      if self.kind == 'clustering':
        return ws[0][ws[1].astype(np.int64)]
      return ws[0]

    def check_start(self, orig, ws, msg):
      require(len(ws) == self.nw, '%s: %d training weights', msg, len(ws))
      e = self.effective(ws, orig.shape)
      require(e.shape == orig.shape, '%s: shape %s', msg, e.shape)
      if self.kind == 'svd':
        r = min(self.args[0], *orig.shape[-2:])
        require(ws[0].shape[-1] == r and ws[1].shape[-2] == r, '%s: factors %s %s for rank %d', msg, ws[0].shape, ws[1].shape, r)
        trunc_ok(orig, e, r, msg)
      elif self.kind == 'bias only':
        require(abs(float(ws[0]) - orig.astype(np.float64).mean()) < 1e-5, '%s: mean %s', msg, ws[0])
      elif self.kind == 'clustering':
        c = ws[0].astype(np.float64)
        require(c.shape == (self.args[0],), '%s: centroids %s', msg, c.shape)
        d = np.abs(orig.astype(np.float64)[..., None] - c)
        require(np.all(np.abs(orig - e) <= d.min(-1) + 1e-6), '%s: not the nearest centroid', msg)
        if self.args[1] == CI.LINEAR:
          require(np.allclose(c, np.linspace(orig.min(), orig.max(), self.args[0]), atol=1e-5), '%s: linear centroids %s', msg, c.tolist())
      else:
        require(np.array_equal(e, orig), '%s: does not start from the pretrained weight', msg)

    def check_inference(self, eff, iw, msg):
      """Weights of the inference layer -> weight used in inference."""
      if self.kind in ('svd afterwards', 'periodic svd'):
        r = min(self.args[0], *eff.shape[-2:])
        require(len(iw) == 2 and iw[0].shape[-1] == r, '%s: factors %s', msg, [w.shape for w in iw])
        e = np.matmul(iw[0], iw[1])
        trunc_ok(eff, e, r, msg)
        return e
      e = self.effective(iw, eff.shape)
      require(np.array_equal(e, eff), '%s: not the weight used in training', msg)
      return e

  algs = [Alg('svd', r) for r in ctx.pick((1, 2, 4), (1, 2, 3, 4, 5))]
  algs += [Alg('svd afterwards', r) for r in ctx.pick((1, 2), (1, 2, 3, 4))]
  algs += [Alg('periodic svd', 1, 3, 2), Alg('periodic svd', 2, 100, 1000), Alg('bias only')]
  algs += [Alg('clustering', n, c) for n, c in itertools.product(ctx.pick((2, 3), (2, 3, 4)), ctx.pick((CI.LINEAR,), (CI.LINEAR, CI.DENSITY_BASED, CI.KMEANS_PLUS_PLUS, CI.RANDOM)))]
  todo = []
  for name in list(one) + list(more):
    for form in ('sequential', 'functional'):
      todo.append((name, form))
  todo += [(name, 'graph') for name in graphs]

  def leaves(m):
    return [l for l in m.layers if not isinstance(l, L.InputLayer)]

  def reference(name, form, a, t, msg, inf=None):
    """The original architecture with the weights of `t` (or of the inference model) in place."""
    ref, _ = make(name, form, 0)
    src = leaves(t)
    require(len(src) == len(leaves(ref)), '%s: %d layers', msg, len(src))
    for k, (rl, tl) in enumerate(zip(leaves(ref), src)):
      sel = selected(rl, a.what)
      ws = tl.get_weights()
      if not sel:
        rl.set_weights(ws)
        continue
      shape = tuple(getattr(rl, sel[0]).shape)
      if inf is None:
        own, rest = ws[:a.nw], ws[a.nw:]
        eff = a.effective(own, shape)
      else:
        own, rest = ws[:2], ws[2:]
        eff = a.check_inference(inf[k], own, msg + ', layer %d' % k)
      new = []
      rest = list(rest)
      for v in rl.weights:
        new.append(eff if v.name.split('/')[-1].split(':')[0] == sel[0] else rest.pop(0))
      require(not rest, '%s: extra weights', msg)
      rl.set_weights(new)
    return ref

  def effs(name, form, a, t):
    ref, _ = make(name, form, 0)
    out = []
    for rl, tl in zip(leaves(ref), leaves(t)):
      sel = selected(rl, a.what)
      out.append(a.effective(tl.get_weights()[:a.nw], tuple(getattr(rl, sel[0]).shape)) if sel else None)
    return out

  for (name, form), a, content in itertools.product(todo, algs, (0, 1, 2)):
    if content and (name not in ('dense', 'wide dense', 'conv', 'dense, dense without bias') or form != 'functional'):
      continue
    if form == 'sequential' and name in one and name not in ('dense', 'conv', 'dense without bias') and not ctx.thorough:
      continue
    if not ctx.mine():
      continue
    if ctx.over():
      return
    sig = '%s, %s, %s%s%s' % (name, form, a.kind, ''.join(' %s' % (getattr(v, 'name', v),) for v in a.args), ', content %d' % content if content else '')
    with ctx.cell(sig):
      keras.backend.clear_session()
      m, shape = make(name, form, content)
      before = [w.copy() for w in m.get_weights()]
      real = a.make()
      t = a.train(real, m)
      require(all(np.array_equal(u, v) for u, v in zip(before, m.get_weights())), 'the original model was changed')
      mv = {id(v) for v in m.variables}
      require(not any(id(v) in mv for v in t.variables), 'variables are shared with the original model')
      # the start
      for k, (ol, tl) in enumerate(zip(leaves(m), leaves(t))):
        sel = selected(ol, a.what)
        ws = tl.get_weights()
        require(tl.trainable == ol.trainable, 'layer %d trainable changed to %s', k, tl.trainable)
        if not sel:
          require(len(ws) == len(ol.get_weights()) and all(np.array_equal(u, v) for u, v in zip(ws, ol.get_weights())), 'layer %d: weights are not the pretrained ones', k)
        else:
          a.check_start(getattr(ol, sel[0]).numpy().copy(), ws[:a.nw], 'layer %d' % k)
          others = [v.numpy().copy() for v in ol.weights if v.name.split('/')[-1].split(':')[0] != sel[0]]
          require(len(others) == len(ws) - a.nw and all(np.array_equal(u, v) for u, v in zip(others, ws[a.nw:])), 'layer %d: other weights are not the pretrained ones', k)
      X = [np.array([((i * 5 + j * 3) % 13 - 6) / 6.0 for i in range(2 * int(np.prod(shape)))], np.float32).reshape((2,) + shape) for j in (1, 2)]
      y0 = m(X[0])
      Y = [tf.zeros_like(v) + 0.25 for v in (y0 if isinstance(y0, list) else [y0])]
      opt = keras.optimizers.SGD(0.01, clipvalue=0.5)
      t.compile(opt, 'mse', run_eagerly=True)
      frozen = [not l.trainable for l in leaves(t)]
      saved = [w.copy() for w in t.get_weights()]

      def check(state, hist):
        t.set_weights([w.copy() for w in state])
        msg = 'after %s' % (list(hist),)
        ref = reference(name, form, a, t, msg)
        want = ref(X[0])
        close(t(X[0]), want, msg + ': output of the training model')
        close(t(X[1]), ref(X[1]), msg + ': output of the training model')
        e = effs(name, form, a, t)
        inf = a.infer(real, t)
        require(all(np.array_equal(u, v) for u, v in zip(state, t.get_weights())), '%s: conversion changed the training model', msg)
        ri = reference(name, form, a, inf, msg + ', inference', inf=e)
        for x in X:
          out = inf(x)
          close(out, ri(x), msg + ': output of the inference model')
          if a.kind not in ('svd afterwards', 'periodic svd'):
            close(out, t(x), msg + ': training and inference')
        ctx.evald((sig, hist))
        if name in ('batch normalization', 'conv, batch normalization', 'batch normalization, dense') and not hist and a.kind != 'periodic svd':
          # layers which are not compressed still know that they are trained
          close(t(X[0], training=True), ref(X[0], training=True), msg + ': training output')
          for rl, tl in zip(leaves(ref), leaves(t)):
            if isinstance(rl, L.BatchNormalization):
              close(tl.get_weights(), rl.get_weights(), msg + ': moving statistics')
          t.set_weights([w.copy() for w in state])
        if 'dropout' in name and not hist:
          outs = [np.asarray(t(X[0], training=True)) for _ in range(12)]
          require(any(not np.allclose(o, outs[0]) for o in outs), 'dropout does nothing in training')
          t.set_weights([w.copy() for w in state])
        if 'two outputs' == name:
          require(isinstance(t(X[0]), list), 'outputs')

      def step(state, ev, hist):
        t.set_weights([w.copy() for w in state])
        if ev == 'predict':
          t.predict_on_batch(X[1])
          require(all(np.array_equal(u, v) for u, v in zip(state, t.get_weights())), 'prediction changed the weights')
          return [w.copy() for w in state]
        if ev == 'assign':
          new = [w if w.dtype.kind == 'i' else (w * np.float32(0.5) + np.float32(0.125)) for w in state]
          t.set_weights(new)
        else:
          pre = [l.get_weights() for l in leaves(t)]
          r = t.train_on_batch(X[0] if ev == 'train a' else X[1], Y if len(Y) > 1 else Y[0])
          require(np.all(np.isfinite(r)), 'loss')
          for k, l in enumerate(leaves(t)):
            if frozen[k] and a.kind != 'periodic svd':
              require(all(np.array_equal(u, v) for u, v in zip(pre[k], l.get_weights())), 'training changed frozen layer %d', k)
          for u, v in zip(state, t.get_weights()):
            if u.dtype.kind == 'i' and a.kind != 'periodic svd':
              require(np.array_equal(u, v), 'training changed the indices')
        new = [w.copy() for w in t.get_weights()]
        check(new, hist)
        return new
      check(saved, ())
      evs = ['train a', 'predict', 'assign'] + ctx.pick([], ['train b'])
      bfs.explore(ctx, saved, evs, step, ctx.pick(2 if name in ('dense', 'conv', 'dense, dense without bias', 'conv, batch normalization') else 1, 3), key=bfs.arr)
      ctx.sample({'case': sig})

  # ---- an algorithm of one's own: any selection of weights, in any order
  class Halves(alg.WeightCompressor):
    """Trains two summands of a weight, keeps their sum for inference, multiplied by four."""

    def __init__(self, names):
      self.names = names

    def init_training_weights(self, w):
      for n, part in (('first', w * 0.25), ('second', w * 0.75)):
        self.add_training_weight(name=n, shape=w.shape, dtype=w.dtype, initializer=keras.initializers.Constant(part))

    def project_training_weights(self, first, second):
      return first + second

    def compress_training_weights(self, first, second):
      return [4.0 * (first + second)]

    def decompress_weights(self, total):
      return total / 4.0

    def get_compressible_weights(self, layer):
      if not isinstance(layer, (L.Dense, L.Conv2D)) or isinstance(layer, (L.DepthwiseConv2D, L.SeparableConv2D)):
        return []
      return [getattr(layer, n) for n in self.names if getattr(layer, n) is not None]

  names = [('kernel',), ('bias',), ('kernel', 'bias'), ('bias', 'kernel')]
  for (name, form), ns in itertools.product([x for x in todo if x[1] != 'sequential' and x[0] not in ('shared', 'nested model')], names):
    if not ctx.mine() or ctx.over():
      continue
    sig = '%s, own algorithm for %s' % (name, ' and '.join(ns))
    with ctx.cell(sig):
      keras.backend.clear_session()
      m, shape = make(name, form, 0)
      x = np.array([((i * 5) % 13 - 6) / 6.0 for i in range(2 * int(np.prod(shape)))], np.float32).reshape((2,) + shape)
      a = Halves(ns)
      t = keras.models.clone_model(m, clone_function=lambda l: alg.create_layer_for_training(l, a))
      close(t(x), m(x), 'training model before training')
      for k, (ol, tl) in enumerate(zip(leaves(m), leaves(t))):
        sel = a.get_compressible_weights(ol)
        rest = [v.numpy() for v in ol.weights if not any(v is s for s in sel)]
        want = [p for s in sel for p in (s.numpy() * np.float32(0.25), s.numpy() * np.float32(0.75))] + rest
        got = tl.get_weights()
        require(len(got) == len(want) and all(u.shape == v.shape and np.allclose(u, v, atol=1e-6) for u, v in zip(got, want)), 'layer %d: training weights', k)
      y0 = m(x)
      Y = [tf.zeros_like(v) + 0.25 for v in (y0 if isinstance(y0, list) else [y0])]
      t.compile(keras.optimizers.SGD(0.01, clipvalue=0.5), 'mse', run_eagerly=True)
      for step_ in range(3):
        inf = keras.models.clone_model(t, clone_function=lambda l: alg.create_layer_for_inference(l, a))
        close(inf(x), t(x), 'inference after %d steps' % step_)
        ref, _ = make(name, form, 0)
        for rl, tl in zip(leaves(ref), leaves(t)):
          sel, ws = a.get_compressible_weights(rl), tl.get_weights()
          ids = [id(s) for s in sel]
          eff = [ws[2 * j] + ws[2 * j + 1] for j in range(len(sel))]
          rest = list(ws[2 * len(sel):])
          rl.set_weights([eff[ids.index(id(v))] if id(v) in ids else rest.pop(0) for v in rl.weights])
        close(t(x), ref(x), 'training model after %d steps' % step_)
        ctx.evald((sig, step_))
        t.train_on_batch(x, Y if len(Y) > 1 else Y[0])

  # ---- every size of a kernel and every rank, also above both sizes
  dims = ctx.pick((1, 2, 3, 5), (1, 2, 3, 4, 5, 6))
  for conv, ni, no in itertools.product((False, True), dims, dims):
    if not ctx.mine() or ctx.over():
      continue
    for r in ctx.pick((1, 2, 3, 5, 6), (1, 2, 3, 4, 5, 6, 7)):
      with ctx.cell('%s %d x %d, rank %d' % ('convolution' if conv else 'dense', ni, no, r)):
        i = keras.Input((1, ni, ni) if conv else (ni,))
        m = keras.Model(i, (L.Conv2D(no, 1) if conv else L.Dense(no))(i))
        size = ni * no
        k = (np.array([((7 * j * j + 3 * j + no) % 13) - 6.25 for j in range(size)], np.float32) / 4).reshape(m.layers[1].kernel.shape)
        b = np.arange(no, dtype=np.float32) / 2 - 0.25
        m.layers[1].set_weights([k, b])
        x = np.eye(ni, dtype=np.float32)
        x = x[None, None] if conv else x
        for what, alg in (('svd', same.SVD(r)), ('svd afterwards', diff.SVD(r))):
          t = alg.compress_model(m)
          e = np.array(t(x, training=False)).reshape(-1, no) - b
          require(e.shape == (ni, no), '%s: outputs %s', what, e.shape)
          trunc_ok(k.reshape(ni, no), e, r, what)
          ctx.evald((ctx.cur, what, e.round(3).tobytes()))
        require(np.array_equal(m.layers[1].kernel.numpy(), k), 'compression changes the original model')
