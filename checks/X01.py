"""X01: optimizations applied one after another keep what the earlier ones established."""
import itertools
LEVEL = 'model_checking'
RULE = ('state = values of all weights of the plain model between two optimizations, and which zeros and how many distinct values have been established; '
        'transition = a whole optimization (wrap, train, strip), a training step, or saving and loading; each path may end with one of the quantization schemes; distinct = distinct (model, path, weights)')
ASSUME = ['one optimization trains for two batches', 'a training step without any optimization may destroy structure', 'single threaded']
BOUND = {'quick': '5 models; all sequences of up to 2 of 7 steps, each followed by each of 4 quantization schemes, on 3 of them; sequences of up to 1 on the others',
         'thorough': 'all sequences of up to 3 steps on 5 models, each followed by each of 4 quantization schemes'}


def run(ctx):
  import os, shutil, tempfile
  import numpy as np
  from env import tf, keras, tfmot, snap
  from mc import require
  import refs
  L = keras.layers
  S, CK, qk = tfmot.sparsity.keras, tfmot.clustering.keras, tfmot.quantization.keras
  from tensorflow_model_optimization.python.core.clustering.keras.experimental import cluster as exp
  from tensorflow_model_optimization.python.core.quantization.keras import quantize as Q, quantize_wrapper as qw, quantize_layer
  from tensorflow_model_optimization.python.core.clustering.keras import cluster_wrapper
  from tensorflow_model_optimization.python.core.sparsity.keras import pruning_wrapper
  from tensorflow_model_optimization.python.core.quantization.keras.collab_opts.prune_preserve.default_8bit_prune_preserve_quantize_scheme import Default8BitPrunePreserveQuantizeScheme as PS
  from tensorflow_model_optimization.python.core.quantization.keras.collab_opts.cluster_preserve.default_8bit_cluster_preserve_quantize_scheme import Default8BitClusterPreserveQuantizeScheme as CS
  from tensorflow_model_optimization.python.core.quantization.keras.collab_opts.cluster_preserve import cluster_utils

  def functional():
    i = keras.Input((4,), name='i')
    a = L.Dense(4, activation='tanh', name='a')(i)
    b = L.Dense(4, name='b')(i)
    return keras.Model(i, L.Dense(2, name='c')(L.Add(name='add')([a, b])))

  MODELS = {
      'dense': lambda: keras.Sequential([keras.Input((4,)), L.Dense(6, activation='relu', name='a'), L.Dense(4, name='b')]),
      'conv': lambda: keras.Sequential([keras.Input((3, 3, 4)), L.Conv2D(3, 2, activation='relu', name='a'), L.Flatten(name='f'), L.Dense(2, name='b')]),
      'conv, batch normalization': lambda: keras.Sequential([keras.Input((3, 3, 2)), L.Conv2D(4, 2, use_bias=False, name='a'), L.BatchNormalization(name='n'), L.ReLU(name='r'), L.Flatten(name='f'), L.Dense(3, name='b')]),
      'depthwise': lambda: keras.Sequential([keras.Input((3, 3, 3)), L.DepthwiseConv2D(2, name='a'), L.Conv2D(4, 1, name='b'), L.GlobalAveragePooling2D(name='g'), L.Dense(2, name='c')]),
      'branches': functional,
  }
  STEPS = ('prune', 'prune 2 by 4', 'cluster', 'cluster, preserving sparsity', 'cluster per channel', 'train', 'save and load')
  ENDS = ('quantize', 'quantize, preserving sparsity', 'quantize, preserving clusters', 'quantize, preserving both')

  def data(m):
    n = 8 * int(np.prod(m.input_shape[1:]))
    x = np.array([((5 * i + i * i % 13) % 19 - 9.25) / 9 for i in range(n)], np.float32).reshape((8,) + tuple(m.input_shape[1:]))
    k = 8 * int(np.prod(m.output_shape[1:]))
    return x, np.array([((3 * i) % 7 - 3) / 4 for i in range(k)], np.float32).reshape((8,) + tuple(m.output_shape[1:]))

  def train(m, n=2, cb=()):
    m.compile(keras.optimizers.SGD(0.03125), loss='mse', run_eagerly=True)
    x, y = data(m)
    if cb:
      m.fit(x, y, batch_size=4, epochs=1, verbose=0, shuffle=False, callbacks=list(cb))
    else:
      for j in range(n):
        m.train_on_batch(x[4 * j:4 * j + 4], y[4 * j:4 * j + 4])

  def kernels(m):
    return {l.name: l.kernel if not isinstance(l, L.DepthwiseConv2D) else l.depthwise_kernel for l in m.layers if isinstance(l, (L.Dense, L.Conv2D, L.DepthwiseConv2D))}

  def fresh(mn, weights=None):
    keras.backend.clear_session()
    m = MODELS[mn]()
    if weights is None:
      k = 0
      for l in m.layers:
        new = []
        for w in l.weights:
          a = np.array([(((17 * i + 7 * k + i * i % 5) % 37) - 18.25) / 20 for i in range(int(np.prod(w.shape)))], np.float32).reshape(w.shape)
          new.append(np.abs(a) + 0.5 if 'variance' in w.name or 'gamma' in w.name else a * 0.1 if 'bias' in w.name else a)
          k += 1
        if new:
          l.set_weights(new)
    else:
      m.set_weights(weights)
    return m

  def config(m):
    out = []
    for l in m.layers:
      c = l.get_config(); c.pop('build_config', None)
      out.append((type(l).__name__, {k: v for k, v in c.items() if k not in ('dtype',)}))
    return out

  def plain(m, wrapped, mn, want, what):
    """The stripped model is the architecture it started from and computes what the wrapped one did."""
    require(not any(isinstance(l, (pruning_wrapper.PruneLowMagnitude, cluster_wrapper.ClusterWeights, qw.QuantizeWrapper)) for l in m.layers), '%s: wrappers are left', what)
    require(str(config(m)) == str(want), '%s: architecture %s, expected %s', what, config(m), want)
    x, _ = data(m)
    a, b = m(x, training=False).numpy(), wrapped(x, training=False).numpy()
    require(np.allclose(a, b, rtol=1e-4, atol=1e-5), '%s: the stripped model computes %s, before %s', what, a.reshape(-1)[:6], b.reshape(-1)[:6])

  def cluster(m, **kw):
    return exp.cluster_weights(m, number_of_clusters=3, cluster_centroids_init=CK.CentroidInitialization.LINEAR, **kw)

  def step(mn, st, e, hist):
    """st = (weights, established) with established = {kernel: (zero mask or None, 'all'|'channel'|None)}."""
    ws, est = st
    m = fresh(mn, ws)
    want = config(m)
    est = dict(est)
    ctx.trans()
    if e == 'train':
      train(m)
      return snap(m.weights), {}
    if e == 'save and load':
      d = tempfile.mkdtemp(prefix='x01')
      try:
        m.save(d + '/m.h5', include_optimizer=False)
        r = keras.models.load_model(d + '/m.h5', compile=False)
      finally:
        shutil.rmtree(d, ignore_errors=True)
      for a, b in zip(m.weights, r.weights):
        require(np.array_equal(a.numpy(), b.numpy()), '%s: weights differ after loading', hist)
      return snap(r.weights), est
    if e.startswith('prune'):
      kw = {'sparsity_m_by_n': (2, 4)} if e != 'prune' else {'pruning_schedule': S.ConstantSparsity(0.5, 0, frequency=1)}
      before = {n: v.numpy().copy() for n, v in kernels(m).items()}
      w = S.prune_low_magnitude(m, **kw)
      train(w, cb=[S.UpdatePruningStep()])
      r = S.strip_pruning(w)
      plain(r, w, mn, want, '%s' % (hist,))
      est = {}
      for n, v in kernels(r).items():
        a = v.numpy()
        if isinstance(r.get_layer(n), L.DepthwiseConv2D):
          continue  # not pruned by default
        z = a == 0
        if e == 'prune':
          keep = max(1, int(round(a.size * 0.5)))
          mags = np.abs(before[n][before[n] != 0])
          if (before[n] == 0).sum() <= a.size - keep and len(np.unique(mags)) == len(mags):  # no ties at the cut
            require(z.sum() >= a.size - keep, '%s: %s zeros of %s weights in %s', hist, z.sum(), a.size, n)
        else:
          for row in refs.mn_rows(a):
            for k in range(0, len(row) - 3, 4):
              require((np.asarray(row[k:k + 4]) == 0).sum() >= 2, '%s: %s is not 2 by 4 sparse: %s', hist, n, a.tolist())
        est[n] = (z, None)
      return snap(r.weights), est
    # clustering
    pres, chan = 'preserving' in e, 'channel' in e
    kw = {}
    if pres:
      kw['preserve_sparsity'] = True
    if chan:
      kw['cluster_per_channel'] = True
    before = {n: v.numpy().copy() for n, v in kernels(m).items()}
    w = cluster(m, **kw)
    train(w)
    r = CK.strip_clustering(w)
    plain(r, w, mn, want, '%s' % (hist,))
    new = {}
    for n, v in kernels(r).items():
      l = r.get_layer(n)
      if isinstance(l, L.DepthwiseConv2D):
        continue  # not clustered
      a = v.numpy()
      z = est.get(n, (None, None))[0]
      if pres:
        z0 = before[n] == 0
        require(not a[z0].any(), '%s: zero weights of %s become %s', hist, n, a[z0][:8].tolist())
        z = z0
      else:
        z = None
      if chan and isinstance(l, L.Conv2D):
        counts = [len(np.unique(a[..., c])) for c in range(a.shape[-1])]
        require(max(counts) <= 3, '%s: %s distinct values in the channels of %s', hist, counts, n)
        new[n] = (z, 'channel')
      else:
        require(len(np.unique(a)) <= 3, '%s: %s distinct values in %s', hist, len(np.unique(a)), n)
        new[n] = (z, 'all')
    return snap(r.weights), new

  def end(mn, st, e, hist):
    ws, est = st
    m = fresh(mn, ws)
    ctx.trans()
    before = {n: v.numpy().copy() for n, v in kernels(m).items()}
    scheme = {'quantize': None, 'quantize, preserving sparsity': PS, 'quantize, preserving clusters': lambda: CS(False), 'quantize, preserving both': lambda: CS(True)}[e]
    q = qk.quantize_model(m) if scheme is None else Q.quantize_apply(qk.quantize_annotate_model(m), scheme())
    train(q)
    if 'clusters' in e or 'both' in e:
      # what it computes has to survive removing the cluster variables
      x, _ = data(m)
      b = q(x, training=False).numpy()
      q = cluster_utils.strip_clustering_cqat(q)
      a = q(x, training=False).numpy()
      require(np.allclose(a, b, rtol=1e-3, atol=2e-2), '%s: the stripped model computes %s, before %s', hist, a.reshape(-1)[:6], b.reshape(-1)[:6])
    if scheme is None:
      return
    seen = 0
    for l in q.layers:
      if not isinstance(l, qw.QuantizeWrapper) or type(l.layer) not in (L.Dense, L.Conv2D):
        continue
      n = l.layer.name
      if n not in before:
        continue
      v = [v for v in l.weights if v.name.split('/')[-1].startswith('kernel:')]
      require(len(v) == 1, '%s: kernel of %s is missing', hist, n)
      a, z = v[0].numpy(), before[n] == 0
      seen += 1
      if 'sparsity' in e or ('both' in e and est.get(n, (None,))[0] is not None):
        require(not a[z].any(), '%s: zero weights of %s become %s', hist, n, a[z][:8].tolist())
      if 'sparsity' not in e and n in est and est[n][1]:
        if isinstance(l.layer, L.Conv2D):
          old = [len(np.unique(before[n][..., c])) for c in range(a.shape[-1])]
          counts = [len(np.unique(a[..., c])) for c in range(a.shape[-1])]
          limit = [max(3, o) for o in old]
        else:
          counts, limit = [len(np.unique(a))], [max(3, len(np.unique(before[n])))]
        require(all(c <= o for c, o in zip(counts, limit)), '%s: %s distinct values in %s, before %s', hist, counts, n, limit)
    require(seen == sum(isinstance(m.get_layer(n), L.Dense) or type(m.get_layer(n)) is L.Conv2D for n in before), '%s: %s kernels', hist, seen)

  full = list(MODELS) if ctx.thorough else list(MODELS)[:3]
  depth = ctx.pick(2, 3)
  for mn in MODELS:
    base = fresh(mn)
    st0 = (snap(base.weights), {})
    for first in [c for n in range(depth if mn in full else 2) for c in itertools.product(STEPS, repeat=n)]:
      if not ctx.mine() or ctx.over():
        continue
      with ctx.cell('%s: %s' % (mn, ' - '.join(first) or 'nothing'), timeout=600):
        st = st0
        ok = True
        for k, e in enumerate(first):
          st = step(mn, st, e, first[:k + 1])
        ctx.state((mn, first, tuple(a.tobytes() for a in st[0])))
        for e in ENDS:
          end(mn, st, e, first + (e,)); ctx.trace()
        ctx.evald((mn, first, tuple(a.tobytes() for a in st[0])), n=len(first) + len(ENDS))
        ctx.sample({'model': mn, 'steps': first})
        if mn in full and len(first) == depth - 1:
          for e2 in STEPS:
            s2 = step(mn, st, e2, first + (e2,))
            ctx.state((mn, first + (e2,), tuple(a.tobytes() for a in s2[0])))
            for e in ENDS:
              end(mn, s2, e, first + (e2, e)); ctx.trace()
            ctx.evald((mn, first + (e2,), tuple(a.tobytes() for a in s2[0])), n=1 + len(ENDS))
