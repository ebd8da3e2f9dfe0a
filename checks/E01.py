"""E01: lossless encodings decode to exactly the encoded tensor."""
import itertools
LEVEL = 'exploration'
RULE = ('one case = (encoding, parameters, type, static or run-time shape); inside it every length / shape and every content of the alphabet '
        'goes through encode and decode; distinct = distinct (case, encoded value) pairs')
ASSUME = ['integer inputs of bit packing lie in the declared range and are exact in their floating point type', 'non-empty tensors for rotations',
          'rotations are linear: a basis, its sum and large values stand for every content']
BOUND = {'quick': 'bit packing: 16 input widths x 7 target widths, lengths 0..58, all one-hot contents up to length 30; shapes of rank 0..4; difference: sequences of length <=3 over 6 values, 5 types; rotations: dimensions 1..17, batches 1..3',
         'thorough': 'bit packing: 12 target widths, lengths 0..120, one-hot up to length 60; difference: length <=4; rotations: dimensions 1..70, batches 1..5'}


def run(ctx):
  import numpy as np
  from env import tf
  from mc import require
  from tensorflow_model_optimization.python.core.internal.tensor_encoding.utils import tf_utils
  from tensorflow_model_optimization.python.core.internal.tensor_encoding.stages import stages_impl as st
  from tensorflow_model_optimization.python.core.internal.tensor_encoding.stages.research import kashin, misc

  def same(a, b):
    a, b = np.asarray(a), np.asarray(b)
    return a.dtype == b.dtype and a.shape == b.shape and a.tobytes() == b.tobytes()

  # ---- bit packing
  maxlen = ctx.pick(58, 120)
  hot = ctx.pick(30, 60)

  def contents(n, b):
    top = 2 ** b - 1
    yield np.zeros(n, np.int64)
    yield np.full(n, top, np.int64)
    if n:
      i = np.arange(n, dtype=np.int64)
      yield (i * 40503 + 1) % (top + 1)
      yield (top - i * 10007) % (top + 1)
      yield np.where(i % 2 == 0, top, 0)
      yield np.where(i % 2 == 1, 1 << (b - 1), 0)

  def packing(sig, dt, b, target, words, unpack, n, v, static):
    lim = 1 << target
    require(words.dtype == dt, 'words of type %s', words.dtype)
    w = words.numpy().reshape(-1).astype(object)
    need = -(-n * b // target)
    # without a static shape the code may only pad to a whole packing period
    period = np.lcm(b, target) // target
    most = need if static else -(-need // period) * period
    require(need <= len(w) <= most, '%d values use %d words, %d needed', n, len(w), need)
    require(all(0 <= x < lim for x in w), 'a word of %d values is outside [0, 2^%d): %s', n, target, w)
    r = unpack.numpy()
    require(r.shape == (n,) and (r.astype(np.int64) == v).all(), '%d values %s decoded to %s', n, v.tolist(), r.tolist())
    ctx.evald((sig, n, tuple(w)))

  targets = ctx.pick((7, 8, 14, 16, 24, 28, 30), (1, 3, 7, 8, 12, 14, 15, 16, 24, 27, 28, 30))
  for target, b, dtn in itertools.product(targets, range(1, 17), ('int32', 'int64')):
    if b > target or (dtn == 'int64' and target != 28 and not ctx.thorough):
      continue
    if not ctx.mine():
      continue
    if ctx.over():
      return
    dt = tf.as_dtype(dtn)
    sig = 'bit packing %d into %d bits, %s' % (b, target, dtn)

    @tf.function(input_signature=[tf.TensorSpec([None], dt)])
    def dyn(x):
      p = tf_utils.pack_into_int(x, b, target)
      return p, tf_utils.unpack_from_int(p, b, target, tf.shape(x))
    with ctx.cell(sig):
      lens = range(0, maxlen + 1) if target == 28 else range(0, maxlen // 2 + 1)
      for n in lens:
        for k, v in enumerate(contents(n, b)):
          x = tf.constant(v, dt)
          p, u = dyn(x)
          packing(sig, dt, b, target, p, u, n, v, False)
          if k in (1, 2) and dtn == 'int32':  # shapes known statically
            p = tf_utils.pack_into_int(x, b, target)
            packing(sig, dt, b, target, p, tf_utils.unpack_from_int(p, b, target, x.shape), n, v, True)
      if target == 28:
        for n in range(1, hot + 1):
          if n % 3 and n > 14 and not ctx.thorough:
            continue
          for i in range(n):
            v = np.zeros(n, np.int64)
            v[i] = 2 ** b - 1
            p, u = dyn(tf.constant(v, dt))
            packing(sig, dt, b, target, p, u, n, v, False)
      ctx.sample({'case': sig})

  # ---- the stages on every shape, type, with static and run-time shapes
  shapes = [(), (1,), (5,), (0,), (14,), (29,), (2, 3), (3, 1), (0, 4), (2, 7), (2, 2, 3), (1, 1, 1), (2, 0, 3), (3, 1, 2, 2), (2, 2, 2, 7)]

  def roundtrip(make, x, mode):
    """Encodes and decodes; mode is what is known about the shape while tracing."""
    stage = make()
    ep, dp = stage.get_params()
    if mode == 'eager':
      e = stage.encode(tf.constant(x), ep)
      return e, stage.decode(e, dp, shape=tf.shape(x) if stage.decode_needs_input_shape else None)
    spec = {'static': x.shape, 'dynamic': [None] * x.ndim, 'unknown': None}[mode]

    @tf.function(input_signature=[tf.TensorSpec(spec, x.dtype)])
    def f(t):
      e = stage.encode(t, ep)
      return e, stage.decode(e, dp, shape=tf.shape(t) if stage.decode_needs_input_shape else None)
    return f(tf.constant(x))

  fl = {'identity': st.IdentityEncodingStage, 'flatten': st.FlattenEncodingStage}
  alltypes = ['float32', 'float64', 'float16', 'bfloat16', 'int32', 'int64', 'bool']
  for (name, make), dtn, mode in itertools.product(fl.items(), alltypes, ('eager', 'static', 'dynamic', 'unknown')):
    if not ctx.mine():
      continue
    sig = '%s of %s, %s shape' % (name, dtn, mode)
    with ctx.cell(sig):
      npt = tf.as_dtype(dtn).as_numpy_dtype
      for shape in shapes:
        n = int(np.prod(shape))
        x = np.array([(i * 37 % 11) - 5 for i in range(n)], np.float64).reshape(shape).astype(npt)
        if dtn.startswith('float') and n > 3:
          x.reshape(-1)[:3] = [np.inf, -0.0, np.nan]
        e, d = roundtrip(make, x, mode)
        require(same(d.numpy(), x), 'shape %s: %s decoded to %s', shape, x, d.numpy())
        if name == 'flatten':
          require(all(v.shape.rank == 1 for v in e.values()), 'not flat')
        ctx.evald((sig, shape, d.numpy().tobytes()))

  exact = {'float32': 16, 'float64': 16, 'float16': 11, 'bfloat16': 8}
  for dtn, mode, b in itertools.product(exact, ('eager', 'static', 'dynamic'), range(1, 17)):
    if b > exact[dtn] or not ctx.mine():
      continue
    if ctx.over():
      return
    sig = 'packing stage %d bits of %s, %s shape' % (b, dtn, mode)
    with ctx.cell(sig):
      npt = tf.as_dtype(dtn).as_numpy_dtype
      for si, shape in enumerate(shapes):
        if mode == 'static' and si % 3 != b % 3 and not ctx.thorough:
          continue
        n = int(np.prod(shape))
        for v in itertools.islice(contents(n, b), 1, 3):
          x = v.reshape(shape).astype(npt)
          e, d = roundtrip(lambda: st.BitpackingEncodingStage(b), x, mode)
          require(same(d.numpy(), x), 'shape %s: %s decoded to %s', shape, x, d.numpy())
          big = [t for t in e.values() if t.dtype.is_integer]
          require(len(big) == 1 and (big[0].numpy() >= 0).all() and (big[0].numpy() < 2 ** 28).all(), 'packed values outside 28 bits')
          ctx.evald((sig, shape, d.numpy().tobytes()))

  # ---- differences of integers
  for dtn, mode in itertools.product(('int32', 'int64', 'int16', 'int8', 'uint8'), ('eager', 'dynamic')):
    if not ctx.mine():
      continue
    sig = 'difference between integers of %s, %s shape' % (dtn, mode)
    with ctx.cell(sig):
      info = np.iinfo(dtn)
      vals = sorted({0, 1, 3, info.max, info.min, info.max // 2})
      stage = misc.DifferenceBetweenIntegersEncodingStage()
      ep, dp = stage.get_params()

      def go(t):
        e = stage.encode(t, ep)
        return stage.decode(e, dp)
      f = go if mode == 'eager' else tf.function(go, input_signature=[tf.TensorSpec([None], dtn)])
      for n in range(0, ctx.pick(4, 5)):
        for c in itertools.product(vals, repeat=n):
          x = np.array(c, dtn)
          d = f(tf.constant(x)).numpy()
          require(same(d, x), '%s decoded to %s', x, d)
          ctx.evald((sig, c))

  # ---- rotations
  if ctx.mine():
    with ctx.cell('Walsh-Hadamard transform'):
      h = np.ones((1, 1))
      while len(h) <= ctx.pick(64, 256):
        n = len(h)
        for dtn, tol in (('float32', 1e-4), ('float64', 1e-10)):
          dyn = tf.function(tf_utils.fast_walsh_hadamard_transform, input_signature=[tf.TensorSpec([None, None], dtn)])
          for f in (tf_utils.fast_walsh_hadamard_transform, dyn):
            for rows in (np.eye(n), np.ones((1, n)), 1000 * np.eye(n)[:2] - 3):
              r = f(tf.constant(rows, dtn))
              want = rows @ h / np.sqrt(n)
              require(r.shape == want.shape and np.abs(r.numpy() - want).max() <= tol * (1 + np.abs(want).max()), 'dimension %d: wrong product', n)
              back = f(r)
              require(np.abs(back.numpy() - rows).max() <= tol * (1 + np.abs(rows).max()), 'dimension %d: not its own inverse', n)
              ctx.evald((n, dtn, rows.tobytes()))
        h = np.block([[h, h], [h, -h]])
      for n in (3, 5, 6, 7, 9, 12):  # rejected, statically and at run time
        for f in (tf_utils.fast_walsh_hadamard_transform,
                  tf.function(tf_utils.fast_walsh_hadamard_transform, input_signature=[tf.TensorSpec([None, None], tf.float32)])):
          try:
            f(tf.ones([1, n]))
          except (ValueError, tf.errors.OpError):
            continue
          require(False, 'dimension %d accepted', n)

  # every pseudo-random sign is +1 or -1
  nseed, nel = ctx.pick((128, 1 << 18), (1024, 1 << 20))
  for base in range(8):
    if not ctx.mine():
      continue
    with ctx.cell('random signs, seeds %d mod 8' % base):
      f = tf.function(lambda seed: tf_utils.random_signs(nel, seed, tf.float32))
      for k in range(base, nseed, 8):
        for seed in ([k, 1], [2 ** 62 + k * 7919, -k]):
          s = f(tf.constant(seed, tf.int64)).numpy()
          bad = np.flatnonzero(np.abs(s) != 1)
          require(not len(bad), 'seed %s: element %d has sign %s', seed, bad[0] if len(bad) else 0, s[bad[0]] if len(bad) else 0)
          ctx.evald((seed[0], seed[1], float(s.sum())))
      for n in (1, 2, 63, 700):
        for dtn in ('float32', 'float64'):
          for fn, seed in ((tf_utils.random_signs, tf.constant([base, 3], tf.int64)), (tf_utils.random_signs_cmwc, tf.constant(base + 5, tf.int64))):
            s = fn(n, seed, tf.as_dtype(dtn))
            require(s.dtype.name == dtn and s.shape == (n,) and (np.abs(s.numpy()) == 1).all(), 'signs of length %d', n)
            require((fn(n, seed, tf.as_dtype(dtn)).numpy() == s.numpy()).all(), 'signs differ for equal seeds')

  dims = list(range(1, ctx.pick(18, 71)))
  kash = [dict(), dict(num_iters=1), dict(num_iters=4, eta=0.5, delta=2.0), dict(num_iters=2, pad_extra_level_threshold=0.4),
          dict(num_iters=3, delta=0.3, pad_extra_level_threshold=1.0)]
  makers = [('hadamard', st.HadamardEncodingStage, {})] + [('kashin %d' % i, kashin.KashinHadamardEncodingStage, k) for i, k in enumerate(kash)]
  for (name, cls, kw), dim, dtn in itertools.product(makers, dims, ('float32', 'float64')):
    if (dtn == 'float64' and dim % 3) or not ctx.mine():
      continue
    if ctx.over():
      return
    sig = '%s rotation of dimension %d, %s' % (name, dim, dtn)
    with ctx.cell(sig):
      stage = cls(**kw)
      ep, dp = stage.get_params()
      tol = 2e-5 if dtn == 'float32' else 1e-11
      vecs = [np.eye(dim)[i] for i in range(dim)] + [np.zeros(dim), np.ones(dim), 1e4 * ((np.arange(dim) * 7) % 5 - 2.0), 1e-6 * (np.arange(dim) - 1.0)]

      def go(t, seed):
        e_p = dict(ep, seed=seed) if 'seed' in ep else ep
        d_p = dict(dp, seed=seed) if 'seed' in dp else dp
        e = stage.encode(t, e_p)
        return e, stage.decode(e, d_p, shape=tf.shape(t))
      seedspec = tf.TensorSpec([2], tf.int64)
      fns = [(1, tf.function(go, input_signature=[tf.TensorSpec([dim], dtn), seedspec])),
             (2, tf.function(go, input_signature=[tf.TensorSpec([None, dim], dtn), seedspec]))]
      if dim % 4 == 1:
        fns += [(1, go), (2, go)]
      seeds = [[0, 0], [1, 5], [2 ** 62 + 11, 2 ** 63 - 1]]
      for (rank, f), seed in itertools.product(fns, seeds):
        seed = tf.constant(seed, tf.int64)
        blocks = [v for v in vecs] if rank == 1 else [np.stack(vecs[i:i + k]) for k in range(1, ctx.pick(4, 6)) for i in range(0, len(vecs), k)]
        if rank == 1 and len(blocks) > 24:
          blocks = blocks[:4] + blocks[-20:]
        if rank == 2 and len(blocks) > 24:
          blocks = blocks[:6] + blocks[-18:]
        for x in blocks:
          e, d = f(tf.constant(x, dtn), seed)
          require(d.dtype.name == dtn and d.shape == x.shape, 'decoded %s %s', d.dtype, d.shape)
          # relative to each vector
          lim = tol * (1e-30 + np.abs(x).max(axis=-1, keepdims=True)) * (1 + np.log2(dim))
          require((np.abs(d.numpy() - x) <= lim).all(), 'seed %s: %s decoded to %s', seed.numpy(), x, d.numpy())
          if name == 'hadamard':
            (r,) = [t for t in e.values()]
            a, b = np.linalg.norm(np.atleast_2d(x), axis=1), np.linalg.norm(r.numpy(), axis=1)
            require((np.abs(a - b) <= 4 * tol * (1e-30 + a)).all(), 'the rotation changes the norm from %s to %s', a, b)
            require(r.shape[1] & (r.shape[1] - 1) == 0 and dim <= r.shape[1] < 2 * max(dim, 1), 'rotated to dimension %d', r.shape[1])
          ctx.evald((sig, rank, x.tobytes()))
      ctx.sample({'case': sig})
