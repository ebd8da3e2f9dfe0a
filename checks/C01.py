"""C01: clustered weights over every history of updates and forward passes."""
import itertools
LEVEL = 'model_checking'
RULE = ('state = all variables of a clustered layer (weights, centroids, associations); transition = one update of weights or '
        'centroids, one forward pass (eager or graph, training or inference) or one gradient step on the real layer')
ASSUME = ['where two centroids are equally near either one is accepted', 'outputs are compared up to float32 rounding, clustered values exactly']
BOUND = {'quick': '23 layer kinds, 2 and 3 clusters; 4 weight and 3 centroid assignments, 4 forward kinds explored to a fixpoint (depth 6), gradient steps up to depth 3; models with 144 convolutions of 1 to 30 weights and 2 to 6 clusters',
         'thorough': 'same with 2..5 clusters, 5 weight and 4 centroid assignments, gradient steps up to depth 5'}


def run(ctx):
  import numpy as np
  from env import tf, keras
  import bfs
  from mc import require
  from clus import Rig, KINDS, CI, GA, L, fill

  def explore(rig, sig, nw, nc, depth, steps, graph):
    W = []
    for j in range(nw):
      W.append([{0: fill(k + 1, v.shape, 5), 1: -2 * fill(k + 2, v.shape), 2: np.full(v.shape, 0.25, np.float32),
                 3: fill(k + 3, v.shape, 4) * 1e7, 4: fill(k + 3, v.shape, 3) * 1000}[j].astype(np.float32) for k, v in enumerate(rig.vars)])
    C = []
    for j in range(nc):
      n = rig.n
      base = [np.arange(n, dtype=np.float32) - 0.75, 0.5 - 0.25 * np.arange(n, dtype=np.float32) ** 2, np.full((n,), 0.5, np.float32), np.linspace(-50, 100, n).astype(np.float32)[::-1]][j]
      C.append([(base * (1 + 0.5 * np.arange(c.shape[0])[:, None]) if rig.per_channel else base).astype(np.float32).reshape(c.shape) for c in rig.cent])
    events = ['W%d' % j for j in range(nw)] + ['C%d' % j for j in range(nc)] + ['infer', 'train']
    if graph:
      events += ['infer graph', 'train graph']
    init = (rig.state(), 0)

    def step(s, ev, hist):
      st, k = s
      if ev == 'step' and k >= steps:
        return None
      rig.load(st)
      if ev[0] in 'WC' and ev[1:].isdigit():
        for v, a in zip(rig.vars if ev[0] == 'W' else rig.cent, (W if ev[0] == 'W' else C)[int(ev[1:])]):
          v.assign(tf.constant(a))
      elif ev == 'step':
        with tf.GradientTape() as t:
          y = rig.model(rig.x, training=True)
          loss = tf.reduce_mean((y - 0.5) ** 2)
        tv = rig.model.trainable_weights
        rig.check(np.array(y))
        for v, g in zip(tv, t.gradient(loss, tv)):
          if g is not None:
            v.assign_sub(0.5 * tf.convert_to_tensor(g))
        k += 1
      else:
        before = [v.numpy().copy() for v in rig.vars + rig.cent]
        y = rig.forward('train' in ev, 'graph' in ev)
        rig.check(y, graph='graph' in ev)
        require(all(np.array_equal(a, v.numpy()) for a, v in zip(before, rig.vars + rig.cent)), 'a forward pass changed weights or centroids after %s', hist)
        ctx.evald((sig, y.tobytes()))
      return (rig.state(), k)
    # associations only matter through the forward pass that renews them
    key = lambda s: (bfs.arr(s[0]), s[1])
    ns, nt, complete = bfs.explore(ctx, init, events, step, depth, key)
    if steps:
      # gradient steps make new values every time: bounded depth
      bfs.explore(ctx, init, ['step', 'W0', 'C0', 'infer'], step, steps, key)
    return ns, nt, complete

  ns = ctx.pick((2, 3), (2, 3, 4, 5))
  nw, nc, steps = ctx.pick((4, 3, 3), (5, 4, 5))
  for (kind, (make, shape, call)), n in itertools.product(KINDS.items(), ns):
    if not ctx.mine() or ctx.over():
      continue
    sig = '%s, %d clusters' % (kind, n)
    with ctx.cell(sig):
      init = [CI.LINEAR, CI.DENSITY_BASED, CI.KMEANS_PLUS_PLUS, CI.RANDOM][(ctx.counter + n) % 4]
      rig = Rig(make, shape, n, init, call=call)
      small = kind in ('Dense', 'Conv2D', 'own layer') or ctx.thorough
      r = explore(rig, sig, nw if small else 2, nc if small else 2, 6 if small else 3, steps, kind in ('Dense', 'Conv2D', 'LSTM', 'Embedding'))
      ctx.sample({'case': sig, 'states': r[0], 'transitions': r[1], 'fixpoint': r[2]})
  for n, agg, fmt in itertools.product(ns, (GA.SUM, GA.AVG), ((2, 2, 1), (1, 1, 3), (2, 1, 2))):
    if not ctx.mine() or ctx.over():
      continue
    kh, kw_, ci = fmt
    sig = 'Conv2D per channel, kernel %s, %d clusters, %s' % (fmt, n, agg.name)
    with ctx.cell(sig):
      if kh * kw_ * ci <= n:
        continue
      rig = Rig(lambda: L.Conv2D(3, (kh, kw_)), (2, 2, ci), n, CI.LINEAR, per_channel=True, agg=agg)
      require(rig.cent[0].shape == (3, n), 'centroids %s', rig.cent[0].shape)
      explore(rig, sig, nw, nc, 6, steps, False)
  for init, agg in itertools.product((CI.LINEAR, CI.DENSITY_BASED, CI.KMEANS_PLUS_PLUS, CI.RANDOM), (GA.SUM, GA.AVG)):
    if not ctx.mine() or ctx.over():
      continue
    sig = 'Dense 4x3, 4 clusters, %s, %s' % (init.name, agg.name)
    with ctx.cell(sig):
      rig = Rig(lambda: L.Dense(3), (4,), 4, init, agg=agg)
      explore(rig, sig, nw, nc, 6, steps, True)

  # ---- what a channel is does not depend on the layout of the images
  for fmt, bias, n in itertools.product(('channels_first', 'channels_last'), (True, False), (2, 3)):
    if not ctx.mine():
      continue
    sig = 'Conv2D %s per channel, bias %s, %d clusters' % (fmt, bias, n)
    with ctx.cell(sig):
      rig = Rig(lambda: L.Conv2D(3, (2, 2), data_format=fmt, use_bias=bias), (4, 4, 4), n, CI.LINEAR, per_channel=True)
      require(rig.cent[0].shape == (3, n), 'centroids %s', rig.cent[0].shape)
      for j in range(3):
        rig.vars[0].assign(fill(j + 1, rig.vars[0].shape))
        rig.w.update_clustered_weights_associations()
        e, x = rig.effective()[0], rig.expected()[0]
        require((np.isnan(x) | (e == x)).all(), 'weights are not the nearest centroids of their channel')
        for c in range(3):
          require(len(np.unique(e[..., c])) <= n and np.isin(e[..., c], rig.cent[0].numpy()[c]).all(), 'channel %d has values %s', c, np.unique(e[..., c]))
        ctx.evald((sig, e.tobytes()))

  # ---- a model's own convolutions, of any size around the number of clusters, through wrapping, training and stripping
  from clus import cluster_weights, strip
  for kh, ci, co, n, per in itertools.product((1, 2), (1, 2, 3), (1, 3, 5), (2, 3, 4, 6), (False, True)):
    if not ctx.mine() or ctx.over():
      continue
    sig = 'model with a convolution %dx1x%dx%d, %d clusters%s' % (kh, ci, co, n, ', per channel' if per else '')
    with ctx.cell(sig):
      i = keras.Input((2, 2, ci))
      m = keras.Model(i, L.Dense(2)(L.Flatten()(L.Conv2D(co, (kh, 1))(i))))
      m.layers[1].kernel.assign(fill(n, m.layers[1].kernel.shape, 5))
      c = cluster_weights(m, number_of_clusters=n, cluster_centroids_init=CI.LINEAR, cluster_per_channel=per)
      x = fill(3, (2, 2, 2, ci)).astype(np.float32)
      for _ in range(2):
        s = strip(c)
        k, d = s.layers[1].kernel.numpy(), s.layers[-1].kernel.numpy()
        for part in ([k[..., j] for j in range(co)] if per else [k]) + [d]:
          require(len(np.unique(part)) <= n, '%d distinct values in %s', len(np.unique(part)), part.reshape(-1).tolist())
        require(np.allclose(c(x), s(x), atol=1e-5), 'outputs change by stripping')
        ctx.evald((sig, k.tobytes()))
        with tf.GradientTape() as t:
          loss = tf.reduce_mean((c(x, training=True) - 0.5) ** 2)
        for v, g in zip(c.trainable_weights, t.gradient(loss, c.trainable_weights)):
          if g is not None:
            v.assign_sub(0.3 * tf.convert_to_tensor(g))
        c(x, training=True)
