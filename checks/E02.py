"""E02: lossy encodings stay within their error bound and value range."""
import itertools
LEVEL = 'exploration'
RULE = ('one case = (encoding, bit width, range, type, rounding); inside it every small tensor over the value alphabet is encoded and decoded, for '
        'randomised rounding with every draw of the draw alphabet and with the real generator; distinct = distinct (case, encoded tensor) pairs')
ASSUME = ['finite inputs whose range does not overflow', 'draws of randomised rounding are forced through tf.random.uniform where the code uses it']
BOUND = {'quick': 'all tensors of <=3 elements over 6 values plus grids of 2^bits points, bit widths 1-16, 4 fixed ranges and data range, 2 types, 5 draws per element, mean over 64 draws; split: vectors <=4 over 7 values, 5 thresholds; clipping: 4 norms, 5 intervals',
         'thorough': 'tensors of <=4 elements, mean over 256 draws'}


def run(ctx):
  import contextlib
  import numpy as np
  from env import tf
  from mc import require
  from tensorflow_model_optimization.python.core.internal.tensor_encoding.stages import stages_impl as st
  from tensorflow_model_optimization.python.core.internal.tensor_encoding.stages.research import quantization as qz, misc, clipping

  real_uniform = tf.random.uniform

  class Draws:
    """Forces the values tf.random.uniform returns; counts the forced draws."""

    def __init__(self):
      self.value, self.used = None, 0

    def __call__(self, shape, minval=0, maxval=None, dtype=tf.float32, seed=None, name=None):
      dt = tf.as_dtype(dtype)
      if self.value is None or not dt.is_floating or minval != 0 or maxval not in (None, 1, 1.0):
        return real_uniform(shape, minval, maxval, dtype, seed, name)
      self.used += 1
      return tf.cast(tf.broadcast_to(tf.constant(self.value(tuple(np.array(shape))), tf.float64), shape), dt)

  draws = Draws()

  @contextlib.contextmanager
  def forced(value):
    draws.value, draws.used = value, 0
    tf.random.uniform = draws
    try:
      yield
    finally:
      tf.random.uniform = real_uniform
      draws.value = None

  def batch(x, us):
    """Copies of x along a new first axis, and the draw of every copy."""
    us = np.asarray(us, np.float64)

    def value(shape):
      per = int(np.prod(shape)) // len(us)
      require(per * len(us) == int(np.prod(shape)), 'draws of shape %s', shape)
      return np.repeat(us, per).reshape(shape)
    return np.stack([x] * len(us)), value

  alpha = [-2.5, -1.0, 0.0, 0.375, 1.0, 7.0]
  eps = {'float32': 2.0 ** -24, 'float64': 2.0 ** -53}

  def tensors(maxn):
    for n in range(1, maxn + 1):
      for c in itertools.product(alpha, repeat=n):
        yield np.array(c)

  def grid(b, lo, hi):
    n = 2 ** b - 1
    k = np.unique(np.linspace(0, n, min(n + 1, 41)).round())
    yield lo + (hi - lo) * k / n
    yield lo + (hi - lo) * (np.concatenate([k[:-1] + 0.25, k[:-1] + 0.5, k[:-1] + 0.75, [0, n]]) / n)

  def inputs(b, rng):
    for x in tensors(ctx.pick(2 if b not in (1, 2, 8) or rng else 3, 4)):
      yield x
    lo, hi = rng or (-3.0, 5.0)
    for g in grid(b, lo, hi):
      yield g
    yield np.array([lo, hi, lo, hi])
    yield np.array([[lo, hi], [(lo + hi) / 2, hi], [lo, lo]])
    yield np.array([-1e3, 1e3, 0.0])
    yield np.full((2, 2), 3.75)
    yield np.full((3,), -1e-3)

  def check(sig, x, q, y, b, lo, hi, dtn, steps):
    """lo, hi: range per element (arrays broadcastable to x)."""
    top = 2 ** b - 1
    q, y = q.astype(np.float64), y.astype(np.float64)
    require(q.size == x.size and (q == np.round(q)).all() and (q >= 0).all() and (q <= top).all(), '%s encoded to %s', x, q)
    c = np.clip(x, lo, hi)
    step = (hi - lo) / top
    tol = 16 * eps[dtn] * (np.abs(lo) + np.abs(hi) + (hi - lo) + (top if 0 else 0)) + 4 * eps[dtn] * (hi - lo)
    err = np.abs(y - c)
    require((err <= steps * step + tol).all(), '%s in [%s, %s] decoded to %s', x, lo, hi, y)

  # ---- uniform quantization of a whole tensor
  ranges = [None, (-1.0, 1.0), (0.0, 1.0), (-3.0, 5.0), (0.25, 0.28125)]
  for b, rng, dtn, kind in itertools.product(range(1, 17), ranges, ('float32', 'float64'), ('nearest', 'random')):
    if dtn == 'float64' and (b % 3 or rng == (0.0, 1.0)) and not ctx.thorough:
      continue
    if not ctx.mine():
      continue
    if ctx.over():
      return
    sig = 'uniform quantization %d bits range %s %s %s' % (b, rng, dtn, kind)
    with ctx.cell(sig):
      mm = None if rng is None else list(rng)
      if rng is not None and b % 2:
        mm = tf.constant(mm, dtn)
      stage = st.UniformQuantizationEncodingStage(bits=tf.constant(b) if b % 5 == 0 else b, min_max=mm, stochastic=kind == 'random')
      ep, dp = stage.get_params()

      def go(x):
        e = stage.encode(x, ep)
        return e, stage.decode(e, dp)
      for x in inputs(b, rng):
        t = tf.constant(x, dtn)
        x = t.numpy().astype(np.float64)
        if rng is None:
          lo, hi = x.min(), x.max()
        else:
          lo, hi = [float(v) for v in np.array(rng, dtn)]
        if kind == 'nearest':
          runs = [(t, go(t))]
        else:
          runs = [(t, go(t))]
          xs, v = batch(x, [0.0, 0.25, 0.5, 0.75, 1 - 2 * eps[dtn]])
          with forced(v):
            xs = tf.constant(xs, dtn)
            runs.append((xs, go(xs)))
          with forced(lambda shape: (np.arange(int(np.prod(shape))) % 2 * 0.999).reshape(shape)):
            runs.append((t, go(t)))
        for tt, (e, d) in runs:
          require(d.dtype.name == dtn and d.shape == tt.shape, 'decoded to %s %s', d.dtype, d.shape)
          q, x6 = e[stage.ENCODED_VALUES_KEY].numpy(), tt.numpy().astype(np.float64)
          require(q.dtype == dtn and q.shape == tt.shape, 'encoded to %s %s', q.dtype, q.shape)
          check(sig, x6, q, d.numpy(), b, lo, hi, dtn, 0.5 if kind == 'nearest' else 1)
          # the ends of the range are exact codes
          if hi > lo:
            require((q[x6 <= lo] == 0).all() and (q[x6 >= hi] == 2 ** b - 1).all(), '%s: ends of the range encoded to %s', x6, q)
          ctx.evald((sig, x6.tobytes(), q.tobytes()))
        if kind == 'random' and hi > lo:
          # rounding is unbiased over all draws, independently of the element
          n = ctx.pick(64, 256)
          xs, v = batch(x, (np.arange(n) + 0.5) / n)
          with forced(v):
            y = go(tf.constant(xs, dtn))[1].numpy().astype(np.float64).mean(axis=0)
            used = draws.used
          if used:
            c = np.clip(x, lo, hi)
            lim = (hi - lo) / (2 ** b - 1) / n + 128 * eps[dtn] * (abs(lo) + abs(hi) + 1e-6)
            require((np.abs(y - c) <= lim).all(), '%s decoded to %s on average', x, y)
      ctx.sample({'case': sig})

  # ---- the other quantizations
  def chan(x):
    """Minimum and maximum over all but the last axis."""
    ax = tuple(range(x.ndim - 1))
    return x.min(axis=ax, keepdims=True) if ax else x, x.max(axis=ax, keepdims=True) if ax else x

  def shaped():
    for c in itertools.product(alpha[1:5], repeat=4):
      yield np.array(c).reshape(2, 2)
    for x in tensors(2):
      yield x
    a = np.arange(24).reshape(2, 3, 4) * 7 % 11 - 4.0
    yield a
    yield a.reshape(2, 2, 2, 3) * np.array([1.0, 100.0, 0.01])
    yield a.reshape(4, 1, 6)
    yield a.reshape(24, 1)
    yield a.reshape(1, 24)
    yield np.stack([np.full(5, 2.5), np.linspace(-1, 1, 5), np.full(5, -1.0)], 1)

  kinds = {'prng': (qz.PRNGUniformQuantizationEncodingStage, {}, False, 0.5, True),
           'per channel nearest': (qz.PerChannelUniformQuantizationEncodingStage, dict(stochastic=False), True, 0.5, False),
           'per channel random': (qz.PerChannelUniformQuantizationEncodingStage, {}, True, 1, False),
           'per channel prng': (qz.PerChannelPRNGUniformQuantizationEncodingStage, {}, True, 0.5, True)}
  for (name, (cls, kw, per, steps, prng)), b, dtn in itertools.product(kinds.items(), range(1, 17), ('float32', 'float64')):
    if dtn == 'float64' and b % 4 or not ctx.mine():
      continue
    if ctx.over():
      return
    sig = '%s %d bits %s' % (name, b, dtn)
    with ctx.cell(sig):
      stage = cls(bits=b, **kw)
      ep, dp = stage.get_params()

      def go(x):
        e = stage.encode(x, ep)
        return e, stage.decode(e, dp, shape=tf.shape(x))

      fn = tf.function(go, input_signature=[tf.TensorSpec(None, dtn)])
      for k, x in enumerate(shaped()):
        if k % 4 != b % 4 and k < 250 and not ctx.thorough:
          continue
        t = tf.constant(x, dtn)
        x = t.numpy().astype(np.float64)
        lo, hi = chan(x) if per else (x.min(), x.max())
        runs = [(t, fn(t))]
        if prng:
          runs += [(t, fn(t)), (t, go(t))]
        if name == 'per channel random':
          xs, v = batch(x, [0.0, 0.25, 0.5, 0.75, 1 - 2 * eps[dtn]])
          if x.ndim == 1:
            xs, v = x, lambda shape: 0.0
          with forced(v):
            xs = tf.constant(xs, dtn)
            runs.append((xs, go(xs)))
        for tt, (e, d) in runs:
          require(d.dtype.name == dtn and d.shape == tt.shape, 'decoded to %s %s', d.dtype, d.shape)
          q, x6 = e[stage.ENCODED_VALUES_KEY].numpy(), tt.numpy().astype(np.float64)
          require(q.size == x6.size, 'encoded to %s', q.shape)
          lo, hi = chan(x6) if per else (x6.min(), x6.max())
          qq = q.reshape(x6.shape)
          check(sig, x6, qq, d.numpy(), b, lo, hi, dtn, steps)
          if not prng:
            require((qq[(x6 == lo) & (hi > lo)] == 0).all() and (qq[(x6 == hi) & (hi > lo)] == 2 ** b - 1).all(), '%s: ends of the range encoded to %s', x6, q)
          ctx.evald((sig, x6.tobytes(), q.tobytes()))
        if name == 'per channel random' and x.ndim > 1:
          n = 64
          xs, v = batch(x, (np.arange(n) + 0.5) / n)
          with forced(v):
            y = go(tf.constant(xs, dtn))[1].numpy().astype(np.float64).mean(axis=0)
            used = draws.used
          if used:
            lo, hi = chan(x)
            lim = (hi - lo) / (2 ** b - 1) / n + 128 * eps[dtn] * (np.abs(lo) + np.abs(hi) + 1e-6)
            require((np.abs(y - x) <= lim).all(), '%s decoded to %s on average', x, y)
      ctx.sample({'case': sig})

  # random numbers used for rounding: in [0, 1), repeatable, not constant
  if ctx.mine():
    from tensorflow_model_optimization.python.core.internal.tensor_encoding.utils import tf_utils
    with ctx.cell('random floats'):
      for n, dtn, s in itertools.product((1, 2, 5, 99, 101, 400, 2500), ('float32', 'float64'), range(ctx.pick(6, 40))):
        for fn, seed in ((tf_utils.random_floats, tf.constant([s, 7 * s], tf.int64)), (tf_utils.random_floats_cmwc, tf.constant(s, tf.int64))):
          r = fn(n, seed, tf.as_dtype(dtn)).numpy()
          require(r.shape == (n,) and r.dtype == dtn and (r >= 0).all() and (r <= 1).all() and (dtn == 'float32' or (r < 1).all()), '%d values in [%s, %s]', n, r.min(), r.max())
          require((fn(n, seed, tf.as_dtype(dtn)).numpy() == r).all(), 'other values for the same seed')
          require(n < 99 or len(set(r.tolist())) > n // 2, 'repeated values')
          ctx.evald((n, dtn, s, r.tobytes()))

  # ---- splitting off small values
  for thr, dtn, mode in itertools.product((1e-8, 0.0, 0.375, 1.0, 2.5), ('float32', 'float64'), ('eager', 'graph')):
    if not ctx.mine():
      continue
    sig = 'split by small value %g %s %s' % (thr, dtn, mode)
    with ctx.cell(sig):
      stage = misc.SplitBySmallValueEncodingStage(threshold=thr)
      ep, dp = stage.get_params()

      def go(x):
        e = stage.encode(x, ep)
        return e, stage.decode(e, dp, shape=tf.shape(x))
      f = go if mode == 'eager' else tf.function(go, input_signature=[tf.TensorSpec([None], dtn)])
      vals = np.array([0.0, 1e-9, 0.375, -0.375, 1.0, -2.5, 7.0], dtn)
      for n in range(0, ctx.pick(4, 5)):
        for c in itertools.product(vals, repeat=n):
          x = np.array(c, dtn)
          e, d = f(tf.constant(x))
          want = np.where(np.abs(x) > np.array(thr, dtn), x, 0).astype(dtn)
          d = d.numpy()
          require(d.dtype == x.dtype and d.shape == x.shape and (d == want).all(), '%s decoded to %s', x, d)
          require(all(int(v.shape[0]) == int((want != 0).sum()) for v in e.values()), '%s: encoded tensors %s', x, {k: v.numpy() for k, v in e.items()})
          ctx.evald((sig, x.tobytes()))

  # ---- clipping
  cases = [('norm', c) for c in (0.5, 1.0, 3.0, 100.0)] + [('value', c) for c in ((-1.0, 1.0), (0.0, 0.375), (-5.0, -1.0), (0.375, 0.375), (-100.0, 100.0))]
  for (how, c), dtn in itertools.product(cases, ('float32', 'float64')):
    if not ctx.mine():
      continue
    sig = 'clip by %s %s %s' % (how, c, dtn)
    with ctx.cell(sig):
      stage = clipping.ClipByNormEncodingStage(c) if how == 'norm' else clipping.ClipByValueEncodingStage(*c)
      ep, dp = stage.get_params()
      more = [np.zeros((2, 0)), np.array([[1.0, -1.0], [0.375, 7.0]]), np.array(-2.5), np.array([3e4, -4e4]), np.array([1e-4, 0.0])]
      for x in itertools.chain(tensors(3), more):
        x = x.astype(dtn)
        e = stage.encode(tf.constant(x), ep)
        d = stage.decode(e, dp).numpy()
        if how == 'value':
          want = np.clip(x, np.array(c[0], dtn), np.array(c[1], dtn))
          require(d.dtype == x.dtype and d.shape == x.shape and (d == want).all(), '%s clipped to %s', x, d)
        else:
          x6 = x.astype(np.float64)
          nrm = np.sqrt((x6 ** 2).sum())
          inside = nrm <= c * (1 - 1e-5)
          want = x6 if nrm <= c else x6 * (c / nrm)
          tol = 4e-6 if dtn == 'float32' else 1e-12
          require(d.dtype == x.dtype and d.shape == x.shape and (np.abs(d - want) <= (tol * np.abs(want) if not inside else 4 * eps[dtn] * np.abs(want))).all(), '%s clipped to %s', x, d)
        ctx.evald((sig, x.tobytes()))
