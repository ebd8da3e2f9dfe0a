"""C02: centroid initialisation over every small weight tensor."""
import itertools
LEVEL = 'exploration'
RULE = 'one case = one weight multiset x number of clusters x method x sparsity x layout; distinct = distinct (case, centroids) pairs'
ASSUME = ['the order of the entries of a tensor matters to k-means++ only, which is run on two orders',
          'k-means++ is only asked for at most as many centroids as there are weights (on each side of zero when sparsity is preserved); TensorFlow rejects the rest']
BOUND = {'quick': 'all multisets of 1..4 values out of 7 and of 5 out of 5 (density: 4 out of 6), clusters 2,3,5,8 (sparsity: 3,4,6), 4 methods; per channel: all pairs of channel multisets of 3 entries over 4 values, 2 layouts',
         'thorough': 'all multisets of 1..5 values out of 8, clusters 2..9, per channel pairs over 5 values'}


def run(ctx):
  import numpy as np
  from env import tf, keras, f32
  from mc import require
  from tensorflow_model_optimization.python.core.clustering.keras import clustering_centroids as cc
  from clus import CI
  get = cc.CentroidsInitializerFactory.get_centroid_initializer
  M = [CI.LINEAR, CI.DENSITY_BASED, CI.RANDOM, CI.KMEANS_PLUS_PLUS]

  def call(method, w, n, sparse=False, per_channel=False, fmt='channels_last'):
    return np.array(get(method)(tf.Variable(w), n, per_channel, fmt, sparse).get_cluster_centroids())

  def one_side(method, c, w, n, what, sparse=False):
    """c: the n centroids of an interval that holds the weights w."""
    require(c.shape == (n,), '%s: %d centroids instead of %d', what, c.size, n)
    require(np.isfinite(c).all(), '%s: centroids %s', what, c)
    if n == 0:
      return
    lo, hi = w.min(), w.max()
    tol = 1e-6 + 1e-6 * max(abs(lo), abs(hi))
    if method == CI.LINEAR:
      exp = np.linspace(lo, hi, n) if n > 1 else np.array([lo])
      require(np.allclose(c, exp, rtol=1e-5, atol=tol), '%s: centroids %s are not evenly spaced over [%s, %s]', what, c, lo, hi)
    elif method == CI.RANDOM:
      require((c >= lo - tol).all() and (c <= hi + tol).all(), '%s: centroids %s outside [%s, %s]', what, c, lo, hi)
    elif method == CI.KMEANS_PLUS_PLUS:
      require(np.isin(c, w).all(), '%s: centroids %s are not among the weights', what, c)
      if len(np.unique(w)) >= n:
        require(len(np.unique(c)) == n, '%s: centroids %s repeat although there are %d distinct weights', what, c, len(np.unique(w)))
    else:
      gap = 0.01 if not sparse else min(0.01, abs(lo) / 2, abs(hi) / 2)
      require((np.diff(c) >= -tol).all(), '%s: centroids %s decrease', what, c)
      require((c >= lo - gap - tol).all() and (c <= hi + gap + tol).all(), '%s: centroids %s outside [%s, %s]', what, c, lo, hi)
      cell = (hi - lo + 2 * gap) / 29
      e = 1e-4 * cell + tol
      for x, p in zip(c, np.linspace(0.01, 1, n) if n > 1 else [0.01]):
        above, below = np.mean(w <= x + e), np.mean(w <= x - cell - e)
        require(above > p - 1e-6 or x >= hi, '%s: centroid %s has only %s of the weights below it, quantile %s', what, x, above, p)
        require(below <= p + 1e-6, '%s: centroid %s is beyond the quantile %s (%s below the previous grid point)', what, x, p, below)

  def check(method, c, w, n, what):
    one_side(method, c, w, n, what)

  def check_sparse(method, c, w, n, what):
    neg, pos = w[w < 0], w[w > 0]
    if neg.size + pos.size == 0:
      require(np.array_equal(c, np.zeros((1,))) or np.array_equal(c, np.zeros((n,))), '%s: centroids %s for all-zero weights', what, c)
      return
    require(c.shape == (n,), '%s: %d centroids instead of %d', what, c.size, n)
    require(np.isfinite(c).all(), '%s: centroids %s', what, c)
    z = np.flatnonzero(c == 0)
    require(len(z) == 1, '%s: centroids %s do not contain exactly one zero', what, c)
    a, b = c[:z[0]], c[z[0] + 1:]
    require((a < 0).all() and (b > 0).all(), '%s: centroids %s mix the sides of zero', what, c)
    want = (n - 1) * neg.size / (neg.size + pos.size)
    require(abs(len(a) - want) <= 0.5 + 1e-6, '%s: %d negative centroids for %d negative and %d positive weights', what, len(a), neg.size, pos.size)
    one_side(method, a, neg, len(a), what, True)
    one_side(method, b, pos, len(b), what, True)

  def kmeans_ok(w, n, sparse):
    if not sparse:
      return w.size >= n
    neg, pos = (w < 0).sum(), (w > 0).sum()
    if neg + pos == 0:
      return True
    k = int(np.round((n - 1) * neg / (neg + pos)))
    return neg >= k and pos >= n - 1 - k

  vals = [-1.5, -0.5, -0.004, 0., 0.25, 1., 3.] + ctx.pick([], [0.006])
  sets = [m for k in range(1, ctx.pick(5, 6)) for m in itertools.combinations_with_replacement(vals, k)]
  sets += list(itertools.combinations_with_replacement([-2., -1., 0., 0.5, 0.75], 5))
  for method, sparse in itertools.product(M, (False, True)):
    ns = ctx.pick((3, 4, 6), tuple(range(3, 9))) if sparse else ctx.pick((2, 3, 5, 8), tuple(range(2, 10)))
    small = [m for m in sets if len(m) < 4 or -0.5 not in m]  # the density method is slow in TensorFlow
    for n, ms in itertools.product(ns, small if method == CI.DENSITY_BASED and not ctx.thorough else sets):
      if not ctx.mine() or ctx.over():
        continue
      w = np.array(ms, np.float32)
      if method == CI.KMEANS_PLUS_PLUS and not kmeans_ok(w, n, sparse):
        continue
      sig = '%s, %d clusters%s, weights %s' % (method.name, n, ', sparse' if sparse else '', ms)
      with ctx.cell(sig):
        for ww in ([w, w[::-1].reshape(1, -1)] if method == CI.KMEANS_PLUS_PLUS else [w]):
          c = call(method, ww, n, sparse)
          (check_sparse if sparse else check)(method, c, w, n, 'weights %s' % (ms,))
          require(c.dtype == np.float32, 'type %s', c.dtype)
          ctx.evald((sig, c.tobytes() if method != CI.RANDOM else ''))
        ctx.sample({'case': sig, 'centroids': c.tolist()})
  # ---- per channel
  cv = [-1., 0., 0.5, 2.] + ctx.pick([], [-0.25])
  chans = list(itertools.combinations_with_replacement(cv, 3))
  pairs = list(itertools.product(chans, chans))
  for (a, b), (mi, method) in itertools.product(pairs, enumerate(M)):
    if not ctx.mine() or ctx.over():
      continue
    k = pairs.index((a, b))
    if method == CI.DENSITY_BASED and k % 3 and not ctx.thorough:
      continue  # slow in TensorFlow: a third of the pairs (a != b included)
    fmt = ('channels_last', 'channels_first')[k % 2]
    for sparse, n in (((False, 3), (True, 3)) if k % 2 else ((False, 2), (True, 4))):
      ch = [np.array(a, np.float32), np.array(b, np.float32)]
      if method == CI.KMEANS_PLUS_PLUS and not all(kmeans_ok(x, n, sparse) for x in ch):
        continue
      # kernels of shape (3, 1, 1, 2) or, channels first, (3, 2, 1, 1)
      w = np.stack(ch, -1).reshape(3, 1, 1, 2) if fmt == 'channels_last' else np.stack(ch, 1).reshape(3, 2, 1, 1)
      sig = 'per channel %s, %s, %d clusters%s, channels %s %s' % (method.name, fmt, n, ', sparse' if sparse else '', a, b)
      with ctx.cell(sig):
        c = call(method, w, n, sparse, True, fmt)
        require(c.shape[0] == 2, 'centroids for %d channels', c.shape[0])
        for i in range(2):
          (check_sparse if sparse else check)(method, c[i], ch[i], n, 'channel %d %s' % (i, ch[i]))
        ctx.evald((sig, c.tobytes() if method != CI.RANDOM else ''))
  # ---- unknown arguments
  if ctx.mine():
    with ctx.cell('unknown method and layout are refused'):
      for f in (lambda: get('NOPE'), lambda: get(CI.LINEAR)(tf.zeros((2,)), 2, False, 'nhwc')):
        try:
          f(); ok = False
        except ValueError:
          ok = True
        require(ok, 'accepted')
      ctx.evald('refused')
