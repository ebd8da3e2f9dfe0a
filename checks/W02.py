"""W02: compression schedules and periodic updates follow the training step."""
import itertools
LEVEL = 'model_checking'
RULE = ('schedules: one case = one setting, every step around its interval is evaluated; periodic updates: one case = (layer, rank, period, '
        'warm up, execution mode), states = training weights and step counter reached by a history of training and inference calls; '
        'distinct = distinct (case, state or value) pairs')
ASSUME = ['positive decay lengths and exponents (documented), integer start and end values for integer schedules']
BOUND = {'quick': 'begin 0, 1, 3, decay 1, 2, 3, 5, 4 exponents, 5x5 values, 5 types, steps from 2 before to 3 after, python and tensor steps; ranks 1..5, periods 1..4, warm up 0..5, histories of <=8 events over 4 events',
         'thorough': 'begin 0..6, decay 1..12, 6 exponents; periods 1..6, warm up 0..8, histories of <=14 events'}


def run(ctx):
  import math
  import numpy as np
  from env import tf, keras
  from mc import require
  import bfs
  from tensorflow_model_optimization.python.core.common.keras.compression import schedules
  from tensorflow_model_optimization.python.core.common.keras.compression import algorithm as alg
  from tensorflow_model_optimization.python.core.common.keras.compression.algorithms import periodical_update_and_scheduling as per
  L = keras.layers

  # ---- schedules
  vals = [0, 1, 10, -3, 6]
  fvals = [0.0, 1.0, 0.3, -2.5, 16.0]
  begins, decays = ctx.pick((0, 1, 3), range(7)), ctx.pick((1, 2, 3, 5), range(1, 13))
  exps = ctx.pick((1.0, 2.0, 0.5, 3.0), (1.0, 2.0, 0.5, 3.0, 1, 0.25))
  types = [('float32', 1e-5), ('float64', 1e-5), ('float16', 4e-3), ('int32', 0), ('int64', 0)]
  for (dt, tol), begin, decay, ex in itertools.product(types, begins, decays, exps):
    if not ctx.mine():
      continue
    if ctx.over():
      return
    sig = 'polynomial decay %s begin=%d decay=%d exponent=%g' % (dt, begin, decay, ex)
    with ctx.cell(sig):
      isint = dt.startswith('int')
      for a, b in itertools.product(vals if isint else fvals, repeat=2):
        s = schedules.PolynomialDecay(a, decay, b, begin_step=begin, exponent=ex, dtype=tf.as_dtype(dt))
        prev = None
        for t in range(begin - 2, begin + decay + 4):
          step = t if (a + t) % 2 else tf.constant(t, tf.int64 if t % 3 else tf.int32)
          v = s(step)
          require(v.dtype.name == dt and v.shape == (), 'type %s', v.dtype)
          v = float(v)
          u = min(max((t - begin) / decay, 0.0), 1.0)
          want = b + (a - b) * (1 - u) ** ex
          lim = tol * (1 + max(abs(a), abs(b)))
          if isint:
            lim = 0 if t <= begin or t >= begin + decay else 1 + 1e-4
          require(abs(v - want) <= lim, 'start %s end %s, step %d: %s instead of %s', a, b, t, v, want)
          require(min(a, b) - tol * 17 <= v <= max(a, b) + tol * 17, 'step %d: %s outside [%s, %s]', t, v, a, b)
          if prev is not None:
            require((v - prev) * (b - a) >= -tol * 17, 'step %d: %s after %s', t, v, prev)
          prev = v
          ctx.evald((sig, a, b, t))
      # the same schedule inside a compiled training step
      s = schedules.PolynomialDecay(vals[2], decay, vals[3], begin_step=begin, exponent=ex, dtype=tf.as_dtype(dt))
      f = tf.function(lambda st: s(st))
      for t in range(begin - 1, begin + decay + 3):
        e = s(t)
        for tt in (tf.int32, tf.int64):
          require(abs(float(f(tf.constant(t, tt))) - float(e)) <= (1 if isint else 17 * tol), 'step %d: compiled value differs', t)
      ctx.sample({'case': sig})

  # ---- periodic update and rank scheduling
  def val(shape, k):
    n = int(np.prod(shape))
    return (np.array([((i * (7 + 2 * k) + 3 * k) % 23 - 11) / 7.0 for i in range(n)], np.float32).reshape(shape))

  def ranks(n, rank, warm, k):
    """Ranks the schedule may prescribe at training step n (rounded either way)."""
    r = float(rank) if n >= warm else (k * (warm - n) + rank * n) / warm
    return sorted({min(k, math.floor(r + 1e-6)), min(k, math.ceil(r - 1e-6))})

  def trunc(w, r):
    u, s, v = np.linalg.svd(w.astype(np.float64), full_matrices=False)
    return np.matmul(u[..., :r] * s[..., None, :r], v[..., :r, :])

  kinds = {'dense': ((4,), lambda: L.Dense(3), (2, 3)), 'wide dense': ((3,), lambda: L.Dense(5, use_bias=False), (2, 5)),
           'conv': ((3, 3, 2), lambda: L.Conv2D(3, 2), (2, 2, 2, 3))}
  todo = []
  for kind in kinds:
    for rank, freq, warm in itertools.product((1, 2, 5), ctx.pick((1, 2, 3, 4), range(1, 7)), ctx.pick((0, 1, 3, 5), range(9))):
      if kind != 'dense' and (rank == 5 or warm == 1) and not ctx.thorough:
        continue
      for mode in ('eager', 'graph'):
        if mode == 'graph' and not ctx.thorough and (kind == 'wide dense' or (freq, warm) not in ((1, 3), (2, 5), (3, 0), (2, 3), (4, 3))):
          continue
        todo.append((kind, rank, freq, warm, mode))
  depth = ctx.pick(8, 14)
  for kind, rank, freq, warm, mode in todo:
    if not ctx.mine():
      continue
    if ctx.over():
      return
    sig = 'periodic svd of %s, rank %d every %d steps, warm up %d, %s' % (kind, rank, freq, warm, mode)
    with ctx.cell(sig):
      keras.backend.clear_session()
      shape, mk, yshape = kinds[kind]
      i = L.Input(shape)
      m = keras.Model(i, mk()(i))
      m.set_weights([val(w.shape, k) for k, w in enumerate(m.get_weights())])
      a = per.SVD(rank, update_freq=freq, warmup_step=warm)
      t = a.optimize_model(m)
      lr = 0.125 if kind == 'dense' else 0.0
      t.compile(keras.optimizers.SGD(lr), 'mse', run_eagerly=mode == 'eager')
      X, Y = val((2,) + shape, 5) / 4, val(yshape, 6)
      k = min(m.layers[-1].kernel.shape[-2:])
      first = [w.copy() for w in t.get_weights()]

      def split(ws):
        return ws[0], int(ws[1]), ws[2:]
      require(split(first)[1] == 0, 'starts at step %d', split(first)[1])

      def step(state, ev, hist):
        ws, n = state
        t.set_weights([w.copy() for w in ws])
        w0, c0, rest0 = split(ws)
        if ev == 'train':
          t.train_on_batch(X, Y)
        elif ev == 'call in training':
          t(X, training=True)
        elif ev == 'predict':
          t.predict_on_batch(X)
        elif ev == 'evaluate':
          t.test_on_batch(X, Y)
        elif ev == 'call':
          t(X)
        else:
          inf = a.compress_model(t)
          inf(X)
        new = [w.copy() for w in t.get_weights()]
        w1, c1, rest1 = split(new)
        msg = 'after %s' % (list(hist),)
        if ev in ('predict', 'evaluate', 'call', 'convert'):
          require(all(np.array_equal(u, v) for u, v in zip(ws, new)), '%s: weights or step changed (step %d, then %d)', msg, c0, c1)
          return (new, n)
        require(c1 == c0 + 1 == n + 1, '%s: step %d after %d training calls', msg, c1, n + 1)
        grad = gradb = 0.0
        if lr and ev == 'train':  # gradient of the weights the forward pass used
          d = 2.0 * (X @ w0 + rest0[0] - Y) / Y.size
          grad, gradb = X.T @ d, d.sum(0)
        upd = n % freq == 0
        cands = [trunc(w0, r) for r in ranks(n, rank, warm, k)] if upd else [w0]
        err = min(np.abs(w1 + lr * grad - c).max() for c in cands)
        require(err <= 1e-4, '%s: %s, weight differs by %g from %s', msg, 'update due' if upd else 'no update due', err,
                'rank %s of it' % ranks(n, rank, warm, k) if upd else 'itself')
        if rest0:
          require(np.abs(rest1[0] + (lr * gradb if ev == 'train' else 0) - rest0[0]).max() <= 1e-4, '%s: bias', msg)
        ctx.evald((sig, hist))
        return (new, n + 1)
      evs = ['train', 'predict', 'evaluate'] + (['call', 'call in training', 'convert'] if mode == 'eager' and kind != 'conv' and freq == 2 else ['call'])
      bfs.explore(ctx, (first, 0), lambda s, h: [e for e in evs if e != 'call in training' or len(h) < 4], step, depth if mode == 'eager' else depth,
                  key=lambda s: (s[1], bfs.arr([np.round(w, 4) if w.dtype.kind == 'f' else w for w in s[0]])), max_states=400)
      ctx.sample({'case': sig})
