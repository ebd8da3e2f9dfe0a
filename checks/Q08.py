"""Q08: quantization aware training that preserves clusters (and sparsity)."""
import itertools
LEVEL = 'model_checking'
RULE = ('state = values of all variables; transition = one training batch, inference or assignment, executed on the cluster preserving model and, '
        'with the clustered kernels put in, on a plain quantized model (the reference); distinct = distinct (model, state)')
ASSUME = ['SGD', 'for convolutions, which are quantized per channel, distinct values are counted per output channel',
          'where two centroids are equally near either one is accepted', 'single threaded']
BOUND = {'quick': 'dense and 2x1 convolution kernels with every assignment of four weights to three values (one of them zero), with and without sparsity preservation; sequences of 2 '
                  'layers over 12 kinds of layer and some of 3, 20 further graphs; histories of up to 3 of 4 events (2 for larger models), and longer training runs; stripping at the end',
         'thorough': 'histories of up to 4 events (3 for larger models); all sequences of up to 3 layers'}


def run(ctx):
  import numpy as np
  from env import tf, keras, tfmot, snap, restore
  from mc import require
  import bfs
  from qz import L, qw
  from tensorflow_model_optimization.python.core.quantization.keras import quantize as Q
  from tensorflow_model_optimization.python.core.quantization.keras.collab_opts.cluster_preserve.default_8bit_cluster_preserve_quantize_scheme import Default8BitClusterPreserveQuantizeScheme as Scheme
  from tensorflow_model_optimization.python.core.quantization.keras.collab_opts.cluster_preserve import cluster_utils
  qk = tfmot.quantization.keras
  LR = 0.0625
  C, P, O = 'cluster_centroids_tf', 'pulling_indices_tf', 'ori_weights_vars_tf'

  def fill(n, shape):
    return np.array([((7 * i + 5 * n) % 11 - 5.25) / (4 + n % 3) for i in range(int(np.prod(shape)))], np.float32).reshape(shape)

  def clustered(vals):
    """Kernel made of the given values, in an order that gives every channel all of them."""
    def f(shape):
      size, ch = int(np.prod(shape)), shape[-1]
      return np.array([vals[(i // ch + (i % ch)) % len(vals)] for i in range(size)], np.float32).reshape(shape)
    return f

  def per_channel(lists):
    """Every output channel has its own values."""
    def f(shape):
      ch = shape[-1]
      return np.array([lists[(i % ch) % len(lists)][(i // ch) % len(lists[(i % ch) % len(lists)])] for i in range(int(np.prod(shape)))], np.float32).reshape(shape)
    return f
  three, sparse, pos = clustered([0.5, -0.75, 1.25]), clustered([0.0, 0.5, -0.75]), clustered([0.25, 0.625])
  plain = lambda shape: fill(3, shape)

  def load(m, makers):
    for n, l in enumerate([l for l in m.layers if l.weights]):
      new = []
      for w in l.weights:
        if 'variance' in w.name:
          new.append(np.abs(fill(n, w.shape)) + 0.5)
        elif 'kernel' in w.name:
          new.append(makers[n % len(makers)](tuple(w.shape)))
        else:
          new.append(fill(n + 1, w.shape))
      l.set_weights(new)
    return m

  class M:

    def __init__(self, m):
      self.m = m
      m.compile(keras.optimizers.SGD(LR), loss='mse', run_eagerly=True)
      self.vs = list(m.weights)
      self.x, self.y = [], []
      for j in range(2):
        x = [np.array([((5 * i + 3 * j + k) % 9 - 4.25) / 3 for i in range(2 * int(np.prod(t.shape[1:])))], np.float32).reshape((2,) + tuple(t.shape[1:])) for k, t in enumerate(m.inputs)]
        self.x.append(x if len(x) > 1 else x[0])
        self.y.append([np.array([((3 * i + j) % 5 - 2) / 2 for i in range(2 * int(np.prod(t.shape[1:])))], np.float32).reshape((2,) + tuple(t.shape[1:])) for t in m.outputs])

    def index(self, v):
      return [k for k, u in enumerate(self.vs) if u is v][0]

    def do(self, e):
      if e == 'predict':
        return [np.array(a) for a in tf.nest.flatten(self.m(self.x[1], training=False))]
      return [np.array(a) for a in np.atleast_1d(self.m.train_on_batch(self.x[int(e[-1])], self.y[int(e[-1])]))]

  EV = ('train0', 'train1', 'assign', 'predict')
  extra = lambda v: any(t in v.name for t in (C, P, O))

  def distinct(k, conv):
    """Numbers of distinct values, of each channel for convolutions."""
    return [len(np.unique(k[..., c])) for c in range(k.shape[-1])] if conv else [len(np.unique(k))]

  class Layer:
    """What has to be kept of one kernel."""

  def history(make, makers, ps, depth, events=EV, runs=0):
    keras.backend.clear_session()
    m = load(make(), makers)
    before = snap(m.weights)
    a = Q.quantize_apply(qk.quantize_annotate_model(m), Scheme(ps))
    b = qk.quantize_model(m)
    for u, v in zip(m.weights, before):
      require(np.array_equal(u.numpy(), v), 'quantizing changes the original weights')
    o, r = M(a), M(b)
    common = [k for k, v in enumerate(o.vs) if not extra(v)]
    require(len(common) == len(r.vs), 'other variables than plain quantization')
    for k, v in zip(common, r.vs):
      require(o.vs[k].shape == v.shape and np.array_equal(o.vs[k].numpy(), v.numpy()), '%s is %s instead of %s', v.name, o.vs[k].numpy().reshape(-1)[:5], v.numpy().reshape(-1)[:5])
    at = {k: n for n, k in enumerate(common)}
    # ---- the layers whose clusters or zeros are to be preserved
    keep = []
    wraps = [l for l in a.layers if isinstance(l, qw.QuantizeWrapper) and type(l.layer) in (L.Dense, L.Conv2D)]
    for l in wraps:
      ker = [v for v in l.weights if v.name.split('/')[-1].startswith('kernel:')]
      s = Layer()
      s.k, s.conv = o.index(ker[0]), type(l.layer) is L.Conv2D
      s.w0 = ker[0].numpy().copy()
      s.name = l.name
      s.counts = distinct(s.w0, s.conv)
      s.zero = (s.w0 == 0) if ps else np.zeros(s.w0.shape, bool)
      own = lambda t: [v for v in l.weights if t in v.name]
      total = len(np.unique(s.w0))
      s.pc = s.conv and max(s.counts) - min(s.counts) <= 1
      n = max(s.counts) if s.pc else total
      s.is_clustered = 1 < n <= 1024
      # the values allowed per channel (or in all): at most as many as the layer had
      s.limit = n
      if s.is_clustered:
        require(all(len(own(t)) == 1 for t in (C, P, O)), '%s: the clusters are not preserved (%s)', s.name, [v.name for v in l.weights])
        s.c, s.p, s.o = (o.index(own(t)[0]) for t in (C, P, O))
      else:
        require(not any(own(t) for t in (C, P, O)), '%s: clusters of weights without', s.name)
        s.c = None
      s.frozen = not l.trainable
      keep.append(s)
    require(sum(extra(v) for v in o.vs) == 3 * sum(s.is_clustered for s in keep), 'cluster variables of other layers')

    def counts(w, s):
      return max(distinct(w, True)) if s.pc else len(np.unique(w))

    def step(st, e, hist):
      restore(o.vs, st)
      if e == 'assign':
        for n, v in enumerate(o.vs):
          if v.trainable and v.dtype == tf.float32 and not any(s.k == n for s in keep if s.is_clustered):
            v.assign(v * np.float32(-0.5) + (fill(n + 1, v.shape) * np.float32(0.3) + np.float32(0.07)))
        return snap(o.vs)
      res = o.do(e)
      new = snap(o.vs)
      ref = [np.array(st[k]) for k in common]
      used = {}
      for s in keep:
        if e == 'predict':
          used[s.k] = st[s.k]
        elif s.is_clustered:
          w, c, ow = new[s.k], st[s.c], st[s.o] * np.where(s.zero, 0, 1)
          if not hist[:-1] or all(h == 'predict' for h in hist[:-1]):
            require(np.allclose(w, s.w0, rtol=1e-6, atol=1e-7), 'history %s: %s starts training with %s instead of %s', hist, s.name, w.reshape(-1)[:8], s.w0.reshape(-1)[:8])
          w2, ow2 = (w, ow) if s.pc else (w.reshape(-1, 1), ow.reshape(-1, 1))
          for ch in range(w2.shape[-1]):
            cs = c[ch] if s.pc else c
            if ps and s.zero.any():  # the cluster of the zero weights stays zero
              z0 = (s.w0[..., ch] if s.pc else s.w0) == 0
              init0 = s.init_c[ch] if s.pc else s.init_c
              cs = np.where(init0 == 0, 0, cs) if z0.any() else cs
            x, y = w2[..., ch].reshape(-1), ow2[..., ch].reshape(-1)
            d = np.abs(x[:, None] - cs).min(-1)
            require((d <= 1e-6 * (1 + np.abs(x))).all(), 'history %s: %s uses %s, the clusters are %s', hist, s.name, x, cs)
            far = np.abs(x - y) - np.abs(y[:, None] - cs).min(-1)
            require((far <= 1e-5).all(), 'history %s: %s uses %s for %s, the clusters are %s', hist, s.name, x, y, cs)
          used[s.k] = w
        else:
          used[s.k] = st[s.k] * np.where(s.zero, 0, 1)
        u = used[s.k]
        if s.is_clustered:
          require(counts(u, s) <= s.limit, 'history %s: %d distinct weights in %s instead of %d', hist, counts(u, s), s.name, s.limit)
          require(not u[s.zero].any(), 'history %s: zero weights of %s are %s', hist, s.name, u[s.zero][:8])
        ref[at[s.k]] = u
      restore(r.vs, ref)
      rr = r.do(e)
      require(all(np.allclose(x, y, rtol=1e-4, atol=1e-5) for x, y in zip(res, rr)), 'history %s: result %s, of the plain model with these weights %s', hist, res, rr)
      after = snap(r.vs)
      for k in common:
        s = [s for s in keep if s.k == k]
        want = after[at[k]]
        if s and s[0].is_clustered:
          want = used[k]  # changed by clustering only
        elif s and e != 'predict':
          want = np.where(s[0].zero, st[k], want)
        require(np.allclose(new[k], want, rtol=1e-4, atol=1e-5), 'history %s: %s is %s, expected %s', hist, o.vs[k].name, new[k].reshape(-1)[:8], want.reshape(-1)[:8])
      for s in keep:
        if s.is_clustered and e == 'predict':
          require(all(np.array_equal(st[q], new[q]) for q in (s.c, s.o, s.p, s.k)), 'inference changes the clusters of %s', s.name)
        elif s.is_clustered and not s.frozen:
          g = (used[s.k] - after[at[s.k]]) / LR  # gradient of the weights in use
          trained(st, new, s, used[s.k], g, hist)
      return new

    def trained(st, new, s, u, g, hist):
      c, c2 = st[s.c], new[s.c]
      for ch in range(u.shape[-1] if s.pc else 1):
        cs, cn = (c[ch], c2[ch]) if s.pc else (c, c2)
        x, gg = (u[..., ch], g[..., ch]) if s.pc else (u, g)
        for n in range(len(cs)):
          if (s.init_c[ch] if s.pc else s.init_c)[n] == 0 and ps and s.zero.any():
            continue  # held at zero
          if (np.abs(np.delete(cs, n) - cs[n]) < 1e-5).any():
            continue
          want = cs[n] - LR * gg[np.abs(x - cs[n]) < 1e-6].sum()
          require(abs(cn[n] - want) < 1e-3 * (1 + abs(want)), 'history %s: cluster %d of %s goes from %g to %g instead of %g', hist, n, s.name, cs[n], cn[n], want)
      want = st[s.o] * np.where(s.zero, 0, 1) - LR * g
      require(np.allclose(np.where(s.zero, 0, new[s.o]), np.where(s.zero, 0, want), rtol=1e-3, atol=1e-3), 'history %s: original weights of %s go to %s instead of %s', hist, s.name, new[s.o].reshape(-1)[:8], want.reshape(-1)[:8])

    init = snap(o.vs)
    for s in keep:
      if s.is_clustered:
        s.init_c = init[s.c]
    n, t, full = bfs.explore(ctx, init, list(events), step, depth, key=bfs.arr)
    ctx.evald((ctx.cur, n, t))
    for j in range(runs):  # long training runs
      st = init
      for i in range(12):
        st = step(st, 'train%d' % ((i >> j) & 1), ('train0', 'run %d' % j, 'step %d' % i) if i else ('train%d' % ((i >> j) & 1),))
        ctx.trans(); ctx.state((ctx.cur, bfs.arr(st)))
      restore(o.vs, st)
    # ---- stripping
    x = o.x[0]
    y0 = [np.array(v) for v in tf.nest.flatten(o.m.predict_on_batch(x))]
    vals = [o.vs[k].numpy().copy() for k in common]
    s = cluster_utils.strip_clustering_cqat(o.m)
    require(not any(extra(v) for v in s.weights), 'the stripped model has %s', [v.name for v in s.weights if extra(v)])
    require(len(s.weights) == len(vals) and all(np.array_equal(u.numpy(), v) for u, v in zip(s.weights, vals)), 'stripping changes the weights')
    y1 = [np.array(v) for v in tf.nest.flatten(s.predict_on_batch(x))]
    require(all(np.allclose(u, v, atol=1e-6) for u, v in zip(y0, y1)), 'stripped model computes %s instead of %s', y1, y0)
    require([type(l).__name__ for l in s.layers] == [type(l).__name__ for l in r.m.layers], 'layers of the stripped model')

  def go(sig, *a, **kw):
    if ctx.mine() and not ctx.over():
      with ctx.cell(sig):
        history(*a, **kw)
        ctx.sample({'case': sig})

  # ---- every assignment of four weights to three values
  def seq(shape, *ls):
    return lambda: keras.Sequential([keras.Input(shape)] + [l() for l in ls])
  one = {
      'dense': seq((2,), lambda: L.Dense(2)),
      'conv': seq((2, 1, 1), lambda: L.Conv2D(2, (2, 1))),
  }
  vals = [0.5, -0.75, 0.0]
  for name, make in one.items():
    for combo in itertools.product(range(3), repeat=4):
      for ps in (True, False):
        if not ctx.thorough and (sum(combo) + ps) % 2 and 2 in combo:
          continue
        go('%s, weights %s%s' % (name, [vals[c] for c in combo], ', sparsity preserving' if ps else ''), make,
           [lambda shape, combo=combo: np.array([vals[c] for c in combo], np.float32).reshape(shape)], ps, ctx.pick(2, 4))

  # ---- layers in every order
  D = lambda u, **kw: (lambda: L.Dense(u, **kw))
  V = lambda *a, **kw: (lambda: L.Conv2D(*a, **kw))
  flat = {'clustered dense': (D(3), three), 'sparse clustered dense': (D(3), sparse), 'positive clustered dense': (D(2, activation='tanh'), pos),
          'dense': (D(3, activation='relu'), plain), 'constant dense': (D(2), clustered([0.375])), 'zero dense': (D(2, activation='softmax'), clustered([0.0]))}
  image = {'clustered conv': (V(2, 2, padding='same'), three), 'sparse clustered conv': (V(2, 2, padding='same'), sparse), 'per channel conv': (V(2, 2, padding='same'), per_channel([[0.5, -0.25], [1.0, 0.0]])),
           'uneven conv': (V(2, 2, padding='same', activation='relu'), per_channel([[0.5], [1.25, -0.5]])), 'very uneven conv': (V(2, 2, padding='same'), per_channel([[0.5], [1.0, -0.5, 0.0]])), 'clustered depthwise': (lambda: L.DepthwiseConv2D(2, padding='same'), three)}
  for al, shape in ((flat, (3,)), (image, (2, 2, 2))):
    names = list(al)
    for n in (2, 3):
      for c in itertools.product(range(6), repeat=n):
        if n == 3 and not ctx.thorough and sum(k * 7 ** p for p, k in enumerate(c)) % 18:
          continue
        ns = [names[k] for k in c]
        for ps in (True, False):
          if not ctx.thorough and not ps and sum(c) % 3:
            continue
          go('%s%s' % (' - '.join(ns), ', sparsity preserving' if ps else ''), seq(shape, *[al[k][0] for k in ns]), [al[k][1] for k in ns], ps, ctx.pick(1, 3 if n == 2 else 2),
             EV if ctx.thorough else ('train0', 'predict'), runs=0)

  # ---- graphs
  def branches():
    i = keras.Input((3,)); a, b = L.Dense(2)(i), L.Dense(2, activation='tanh')(i)
    return keras.Model(i, [L.Add()([b, a]), L.Dense(2)(a)])

  def shared():
    i = keras.Input((3,)); d = L.Dense(3); return keras.Model(i, L.Dense(2)(d(d(i))))

  def cat():
    i = keras.Input((3,)); return keras.Model(i, L.Concatenate()([L.Dense(2)(i), L.Dense(3)(i)]))

  def catconv():
    i = keras.Input((2, 2, 2)); return keras.Model(i, L.Concatenate()([L.Conv2D(2, 1)(i), L.Conv2D(2, 1)(i)]))
  bn, relu = (lambda: L.BatchNormalization()), (lambda: L.ReLU())
  graphs = {
      'branches': (branches, (3,)), 'conv, batch normalization, relu, dense': (seq((3, 3, 2), V(2, 2), bn, relu, lambda: L.Flatten(), D(2)), [three, plain, sparse]),
      'conv, batch normalization': (seq((3, 3, 2), V(2, 2, use_bias=False), bn), None), 'dense, batch normalization': (seq((3,), D(3), bn, D(2)), None),
      'separable conv': (seq((3, 3, 2), lambda: L.SeparableConv2D(2, 2), lambda: L.Flatten(), D(2)), None),
      'dense named depthwise': (seq((3,), D(3, name='depthwise_head'), D(2)), None), 'conv named conv': (seq((2, 2, 2), V(2, 1, name='a_depthwise_b'), V(2, 1, name='pointwise')), None),
      'frozen dense, dense': (seq((3,), D(3, trainable=False), D(2)), None), 'conv 1x1, flatten, dense': (seq((2, 2, 2), V(3, 1, activation='relu6' if False else 'relu'), lambda: L.Flatten(), D(2, use_bias=False)), None),
      'dense before relu': (seq((3,), D(3), relu), None), 'conv before relu': (seq((2, 2, 2), V(2, 1), relu), None),
      'dense into concatenation': (cat, None), 'conv into concatenation': (catconv, None), 'shared': (shared, None),
      'strided conv': (seq((3, 3, 2), V(2, 2, strides=2, padding='same'), lambda: L.MaxPooling2D(1)), None), 'two channels of very different size': (seq((2, 2, 2), V(2, 2)), [per_channel([[0.01, 0.02], [-3.0, 5.0]])]),
      'channel without zero': (seq((2, 2, 2), V(2, 2)), [per_channel([[0.25, 0.5], [0.0, 0.75]])]), 'channel with one value': (seq((2, 2, 2), V(2, 2)), [per_channel([[0.875], [0.0, 0.75]])]),
      'values beyond one': (seq((2, 2, 2), V(3, 2)), [per_channel([[1.5], [2.0, -1.0], [0.0, 1.125]])]),
      'many clusters': (seq((8,), D(6)), [clustered([k / 8 - 2 for k in range(33)])]), 'too many clusters': (seq((34,), D(34)), [lambda s: (np.arange(np.prod(s)).reshape(s) / 500 - 1).astype(np.float32)]),
      'just not too many clusters': (seq((32,), D(32)), [lambda s: (np.arange(np.prod(s)).reshape(s) / 500 - 1).astype(np.float32)]),
  }
  for name, (make, makers) in graphs.items():
    for ps in (True, False):
      for mk in ([makers] if isinstance(makers, list) else [[three, sparse], [sparse, pos]]):
        sig = '%s%s%s' % (name, ' %d' % (mk[0] is sparse) if not isinstance(makers, list) else '', ', sparsity preserving' if ps else '')
        go(sig, make, mk, ps, ctx.pick(1, 3), EV if name not in ('shared',) else ('train0', 'train1', 'predict'), runs=ctx.pick(1, 3) if ps or ctx.thorough else 0)
  for name, mk in (('three', three), ('sparse', sparse), ('pos', pos)):
    for ps in (True, False):
      go('history of two layers, %s%s' % (name, ', sparsity preserving' if ps else ''), seq((3,), D(3, activation='tanh'), D(2)), [mk, three], ps, ctx.pick(3, 4))
