"""C03: gradients through clustered weights for every small assignment."""
import itertools
LEVEL = 'exploration'
RULE = ('one case = one assignment of entries to centroids x upstream gradient x aggregation x layout; both gradients are '
        'compared with the definition; distinct = distinct (case, gradients) pairs')
ASSUME = ['gradients are compared up to float32 rounding of sums of at most 8 terms (all terms are small dyadic numbers, so exactly)',
          'weights are far from the value -10^6 at which the library\'s gradient override changes sign']
BOUND = {'quick': 'all assignments of 1..6 entries to 2 centroids, 1..5 to 3, 4 to 4 (vector and matrix weights), 3 upstream gradients; all per-channel assignments of 2 channels x 3 entries x 2 and 3 centroids and 3 channels x 2 entries, both layouts; gradient of whole layers of 12 kinds in 2 modes',
         'thorough': 'assignments of up to 9 entries to 2, 7 to 3, 5 to 4 centroids; 2 channels x 4 entries'}


def run(ctx):
  import numpy as np
  from env import tf, keras, f32
  from mc import require
  from clus import Rig, KINDS, CI, GA, L
  from tensorflow_model_optimization.python.core.clustering.keras import clustering_algorithm as ca
  cent = np.array([-2., 0., 1., 4., 7.], np.float32)

  def up(j, shape):
    n = int(np.prod(shape))
    return {0: np.ones(n), 1: (np.arange(n) + 1) * 0.5, 2: np.array([(-2.) ** (i % 4) * (i % 3 - 0.5) for i in range(n)])}[j].reshape(shape).astype(np.float32)

  cache = {}

  def grads(per_channel, agg, fmt, c, w, g):
    key = (per_channel, agg, fmt, c.shape, w.shape)
    if key not in cache:
      if len(cache) > 60:
        cache.clear()
      cls = ca.ClusteringAlgorithmPerChannel if per_channel else ca.ClusteringAlgorithm
      cv, wv = tf.Variable(c), tf.Variable(w)
      alg = cls(cv, agg, fmt)

      @tf.function
      def f(g):
        with tf.GradientTape() as t:
          out = alg.get_clustered_weight(alg.get_pulling_indices(wv), wv)
          loss = tf.reduce_sum(out * g)
        gc, gw = t.gradient(loss, [cv, wv])
        return out, tf.convert_to_tensor(gc), gw
      cache[key] = (cv, wv, f)
    cv, wv, f = cache[key]
    cv.assign(tf.constant(c)); wv.assign(tf.constant(w))
    return [np.array(x) for x in f(tf.constant(g))]

  def ref(c, idx, g, avg):
    s = np.zeros(len(c), np.float64)
    n = np.zeros(len(c))
    for i, v in zip(idx, g):
      s[i] += v; n[i] += 1
    return np.where(n > 0, s / np.maximum(n, 1), 0) if avg else s

  def compare(sig, got, c, idx, g, agg, out_exp):
    out, gc, gw = got
    require(np.array_equal(out, out_exp), 'clustered weight %s instead of %s', out, out_exp)
    require(np.array_equal(gw, g), 'gradient of the weights %s instead of the upstream gradient %s', gw, g)
    require(np.allclose(gc, c, rtol=1e-5, atol=1e-6), 'gradient of the centroids %s instead of %s', gc, c)
    ctx.evald((sig, gc.tobytes()))

  sizes = {2: ctx.pick(6, 9), 3: ctx.pick(5, 7), 4: ctx.pick(4, 5)}
  for k, agg in itertools.product((2, 3, 4), (GA.SUM, GA.AVG)):
    for n in range(1, sizes[k] + 1):
      for ai, assign in enumerate(itertools.product(range(k), repeat=n)):
        if not ctx.mine() or ctx.over():
          continue
        shapes = [(n,)] + ([(2, n // 2), (1, n // 2, 2)] if n % 2 == 0 and n > 2 else [(n, 1)])
        for j, shape in itertools.product(range(3), shapes):
          sig = 'shape %s, assignment %s, gradient %d, %s' % (shape, assign, j, agg.name)
          with ctx.cell(sig):
            c = cent[:k]
            a = np.array(assign)
            w = (c[a] + 0.25 * np.array([(-1) ** i for i in range(n)])).astype(np.float32).reshape(shape)
            g = up(j, shape)
            got = grads(False, agg, None, c, w, g)
            compare(sig, got, ref(c, a, g.reshape(-1), agg == GA.AVG), a, g, agg, c[a].reshape(shape))
        ctx.sample({'case': sig})
  # ---- per channel: the centroids of a channel get gradients of that channel only
  for (nch, n, k), agg, fmt in itertools.product(((2, ctx.pick(3, 4), 2), (2, 3, 3), (3, 2, 2)), (GA.SUM, GA.AVG), ('channels_last', 'channels_first')):
    for assign in itertools.product(itertools.product(range(k), repeat=n), repeat=nch):
      if not ctx.mine() or ctx.over():
        continue
      j = ctx.counter % 2 + 1
      sig = 'per channel %s, assignment %s, gradient %d, %s' % (fmt, assign, j, agg.name)
      with ctx.cell(sig):
        c = np.stack([cent[:k] * (i + 1) for i in range(nch)])
        a = np.array(assign)  # (channels, entries)
        cw = np.stack([c[i][a[i]] for i in range(nch)])
        w = cw + np.float32(0.25)
        g = up(j, (nch, n))
        lay = (lambda v: np.ascontiguousarray(v.T).reshape(n, 1, 1, nch)) if fmt == 'channels_last' else (lambda v: np.ascontiguousarray(v.T).reshape(n, nch, 1, 1))
        got = grads(True, agg, fmt, c.astype(np.float32), lay(w.astype(np.float32)), lay(g))
        compare(sig, got, np.stack([ref(c[i], a[i], g[i], agg == GA.AVG) for i in range(nch)]), a, lay(g), agg, lay(cw.astype(np.float32)))
  # ---- whole layers: the gradients Keras applies in training
  for (kind, (make, shape, call)), agg in itertools.product(KINDS.items(), (GA.SUM, GA.AVG)):
    if not ctx.mine() or ctx.over():
      continue
    sig = 'layer %s, %s' % (kind, agg.name)
    with ctx.cell(sig):
      rig = Rig(make, shape, 3, CI.LINEAR, agg=agg, call=call)
      with tf.GradientTape() as t:
        loss = tf.reduce_mean((rig.model(rig.x, training=True) - 0.5) ** 2)
      tv = rig.model.trainable_weights
      got = {id(v): tf.convert_to_tensor(g).numpy() if g is not None else None for v, g in zip(tv, t.gradient(loss, tv))}
      eff = rig.effective()
      rig.reference(eff)
      with tf.GradientTape() as t:
        loss = tf.reduce_mean((rig.ref(rig.x, training=True) - 0.5) ** 2)
      rv = list(rig.refl.trainable_weights)
      want = {id(v): tf.convert_to_tensor(g).numpy() for v, g in zip(rv, t.gradient(loss, rv))}
      rws = list(rig.refl.weights)
      for k, v in enumerate(rig.vars):
        require(id(v) in got and got[id(v)] is not None, 'weight %s is not trained', v.name)
        require(np.allclose(got[id(v)], want[id(rws[k])], rtol=1e-3, atol=1e-5), 'weight %s: gradient %s instead of %s', v.name, got[id(v)].reshape(-1)[:6], want[id(rws[k])].reshape(-1)[:6])
      for k, p in enumerate(rig.pos):
        c = rig.cent[k].numpy()
        idx = np.abs(eff[k][..., None] - c).argmin(-1).reshape(-1)
        e = ref(c, idx, want[id(rws[p])].reshape(-1), agg == GA.AVG)
        require(id(rig.cent[k]) in got and got[id(rig.cent[k])] is not None, 'centroids of %s are not trained', rig.names[k])
        require(np.allclose(got[id(rig.cent[k])], e, rtol=1e-3, atol=1e-5), 'centroids of %s: gradient %s instead of %s', rig.names[k], got[id(rig.cent[k])], e)
        ctx.evald((sig, e.tobytes()))
  # ---- the default aggregation is the sum
  if ctx.mine():
    with ctx.cell('default aggregation'):
      rig = Rig(lambda: L.Dense(2), (3,), 2, CI.LINEAR)
      require(rig.w.get_config()['cluster_gradient_aggregation'] == GA.SUM, 'default aggregation')
      ctx.evald('default')
