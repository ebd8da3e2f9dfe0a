"""Q01: fake quantization over all small tensors, bit widths and modes."""
import itertools
LEVEL = 'exploration'
RULE = 'one case = a quantizer with bit width and mode, the tensor that set its range, and a sweep of tensors quantized with it; distinct = distinct (mode, range, output)'
ASSUME = ['values and ranges are ordinary float32 numbers', 'a value exactly between two levels may go to either']
BOUND = {'quick': 'bit widths 2, 3, 4, 8, 16 (all 2..16 for two tensors), symmetric or not, narrow or not, per tensor and per axis, 5 kinds; all tensors of up to 3 values out of 7, in 1 to 5 dimensions; sweeps of up to 1200 values',
         'thorough': 'all bit widths 2..16; tensors of up to 4 values out of 9'}


def run(ctx):
  import numpy as np
  from env import tf, keras, tfmot
  from mc import require
  import qz
  from qz import Last, Moving, All, Fixed
  V = ctx.pick([-3.0, -1.0, -0.1, 0.0, 0.3, 1.0, 2.5], [-30.0, -3.0, -1.0, -0.1, 0.0, 1e-3, 0.3, 1.0, 2.5])
  tensors = [t for n in range(1, ctx.pick(4, 5)) for t in itertools.combinations_with_replacement(V, n)]

  def sweep(lo, hi, bits):
    w = max(hi - lo, 1e-2)
    n = min(2 ** bits * 6, 1200)
    return np.unique(np.concatenate([np.linspace(lo - w * 0.3, hi + w * 0.3, n), [0, lo, hi, lo / 2, hi / 2]]).astype(np.float32))

  def apply(q, x, vs, training):
    x = tf.constant(x, tf.float32)
    with tf.GradientTape() as t:
      t.watch(x)
      y = q(x, training, vs)
    return y.numpy(), t.gradient(y, x).numpy()

  # ---- per tensor
  modes = list(itertools.product((Last, Moving, All), (False, True), (False, True)))
  few = [(-1.0, 0.3, 2.5), (-3.0, 1.0)]
  for (kind, sym, narrow), bits in itertools.product(modes, range(2, 17)):
    ts = tensors if ctx.thorough or bits in (2, 3, 4, 8, 16) else few
    if not ctx.mine() or ctx.over():
      continue
    for t in ts:
      sig = '%s %d bits%s%s, %s' % (kind.__name__, bits, ' symmetric' if sym else '', ' narrow' if narrow else '', list(t))
      with ctx.cell(sig):
        shape = [(len(t),), (1, len(t)), (len(t), 1), (1, 1, len(t)), (1, len(t), 1, 1), (len(t), 1, 1, 1, 1)][(len(t) + bits + int(t[0] * 10)) % 6]
        q, vs = qz.make(kind(num_bits=bits, per_axis=False, symmetric=sym, narrow_range=narrow), shape)
        m = qz.mode(q)
        x = np.array(t, np.float32).reshape(shape)
        if kind is Moving:  # a range of the history, not of this tensor
          lo, hi = qz.batch_range(x, **m)
          vs['min_var'].assign(lo); vs['max_var'].assign(hi)
        y, g = apply(q, x, vs, True)
        require(y.shape == shape, 'shape %s became %s', shape, y.shape)
        lo, hi = vs['min_var'].numpy(), vs['max_var'].numpy()
        elo, ehi = qz.batch_range(x, **m)
        require(abs(lo - elo) <= 1e-5 * (abs(elo) + abs(ehi)) and abs(hi - ehi) <= 1e-5 * (abs(elo) + abs(ehi)), 'the range is %g..%g and should be %g..%g', lo, hi, elo, ehi)
        require(lo <= 0 <= hi, 'zero is not in the range')
        qz.check_grid(x, y, g, float(lo), float(hi), bits, narrow, 'training')
        xs = sweep(lo, hi, bits)
        ys, gs = apply(q, xs, vs, False)
        k = qz.check_grid(xs, ys, gs, float(lo), float(hi), bits, narrow, 'inference')
        if lo < hi and bits <= 7:
          n = len(np.unique(k))
          require(n == 2 ** bits - narrow, '%d levels of %d', n, 2 ** bits - narrow)
          if sym:
            require(k.max() == 2 ** (bits - 1) - 1 and k.min() == -(2 ** (bits - 1) - narrow), 'the levels go from %d to %d', k.min(), k.max())
        require((np.diff(ys) >= 0).all(), 'not monotonic')
        require(np.array_equal(vs['min_var'].numpy(), lo) and np.array_equal(vs['max_var'].numpy(), hi), 'inference changed the range')
        ctx.evald((kind.__name__, bits, sym, narrow, ys.tobytes()))
    if ctx.counter % 16 == 0:
      ctx.sample({'quantizer': kind.__name__, 'bits': bits, 'symmetric': sym, 'narrow': narrow, 'tensors': len(ts)})

  # ---- per axis: every channel as if it was alone
  for n, (kind, sym, narrow), bits in itertools.product((1, 2, 3), modes, (2, 4, 8)):
    if not ctx.mine() or ctx.over():
      continue
    cols = [t for t in itertools.product(V, repeat=n)]
    for dims in range(1, 6):
      if dims == 1 and n > 1:
        continue
      sig = '%s per axis, %d bits%s%s, %d dimensions, %d rows' % (kind.__name__, bits, ' symmetric' if sym else '', ' narrow' if narrow else '', dims, n)
      with ctx.cell(sig):
        x = np.array(cols, np.float32).T  # rows x channels
        shape = {1: x.shape[1:], 2: x.shape, 3: (1,) + x.shape, 4: (n, 1, 1, x.shape[1]), 5: (1, 1, n, 1, x.shape[1])}[dims]
        x = x.reshape(shape)
        q, vs = qz.make(kind(num_bits=bits, per_axis=True, symmetric=sym, narrow_range=narrow), shape)
        m = qz.mode(q)
        require(tuple(vs['min_var'].shape) == (x.shape[-1],), 'the range has the shape %s', vs['min_var'].shape)
        elo, ehi = qz.batch_range(x, **m)
        if kind is Moving:
          vs['min_var'].assign(elo); vs['max_var'].assign(ehi)
        y, g = apply(q, x, vs, True)
        lo, hi = vs['min_var'].numpy(), vs['max_var'].numpy()
        require(np.allclose(lo, elo, rtol=1e-4, atol=1e-6) and np.allclose(hi, ehi, rtol=1e-4, atol=1e-6), 'the ranges are not the ones of the channels')
        require(y.shape == shape, 'shape %s became %s', shape, y.shape)
        xi = np.linspace(-1.3 * 30, 1.3 * 30, 41).astype(np.float32)[:, None] / np.float32(10) * np.ones((1, x.shape[-1]), np.float32)
        yi, gi = apply(q, xi.reshape((41,) + (1,) * (dims - 2) + (-1,)), vs, False) if dims > 1 else (None, None)
        for c in range(x.shape[-1]):
          qz.check_grid(x[..., c], y[..., c], g[..., c], float(lo[c]), float(hi[c]), bits, narrow, 'channel %d in training' % c)
          if yi is not None:
            qz.check_grid(xi[:, c], yi[..., c], gi[..., c], float(lo[c]), float(hi[c]), bits, narrow, 'channel %d in inference' % c)
          ctx.evald((sig, c, y[..., c].tobytes()))

  # ---- fixed range
  for bits, narrow in itertools.product(range(2, 17), (False, True)):
    for lo, hi in [(-6.0, 6.0), (0.0, 1.0), (-1.0, 1.0), (-1.0, 0.0), (-0.3, 2.5), (-128.0, 127.0), (0.0, 255.0)]:
      if not ctx.mine():
        continue
      with ctx.cell('FixedQuantizer %d bits%s, %g..%g' % (bits, ' narrow' if narrow else '', lo, hi)):
        q, vs = qz.make(Fixed(num_bits=bits, init_min=lo, init_max=hi, narrow_range=narrow), (3,))
        xs = sweep(lo, hi, bits)
        a, ga = apply(q, xs, vs, True)
        b, gb = apply(q, xs, vs, False)
        require(np.array_equal(a, b), 'training and inference differ')
        k = qz.check_grid(xs, a, ga, lo, hi, bits, narrow)
        require(bits > 7 or len(np.unique(k)) == 2 ** bits - narrow, '%d levels', len(np.unique(k)))
        ctx.evald((bits, narrow, a.tobytes()))

  # ---- the quantizers of the schemes for convolution kernels
  rng = np.array([((i * 37 + i * i * 11) % 101 - 50) / 17 for i in range(360)], np.float32)
  shapes = [(1, 1, 1, 1), (2, 2, 3, 5), (1, 3, 2, 4), (3, 1, 4, 2)]
  makes = [('8 bit convolution', 8, True, lambda: qz.d8.Default8BitConvWeightsQuantizer()), ('8 bit transposed convolution', 8, False, lambda: qz.d8.Default8BitConvTransposeWeightsQuantizer())]
  for b in (2, 3, 4, 5, 8):
    makes += [('%d bit convolution' % b, b, True, lambda b=b: qz.dn.DefaultNBitConvWeightsQuantizer(b, 6)), ('%d bit transposed convolution' % b, b, False, lambda b=b: qz.dn.DefaultNBitConvTransposeWeightsQuantizer(b, 6))]
  for (name, bits, per, f), shape in itertools.product(makes, shapes):
    if not ctx.mine():
      continue
    with ctx.cell('%s %s' % (name, shape)):
      x = rng[:int(np.prod(shape))].reshape(shape) * np.linspace(0.5, 2, shape[-1]).astype(np.float32)
      q, vs = qz.make(f(), shape)
      y, g = apply(q, x, vs, True)
      elo, ehi = qz.batch_range(x, bits, True, True, per)
      require(np.allclose(vs['min_var'].numpy(), elo, rtol=1e-5) and np.allclose(vs['max_var'].numpy(), ehi, rtol=1e-5), 'range %s..%s instead of %s..%s', vs['min_var'].numpy(), vs['max_var'].numpy(), elo, ehi)
      y2, _ = apply(q, x, vs, False)
      require(np.array_equal(y, y2), 'training and inference differ')
      for c in range(shape[-1]):
        xc, yc, gc = [a[..., c] if per else a for a in (x, y, g)]
        qz.check_grid(xc, yc, gc, float(np.atleast_1d(elo)[c if per else 0]), float(np.atleast_1d(ehi)[c if per else 0]), bits, True, 'channel %d' % c)
      ctx.evald((name, shape, y.tobytes()))
  if ctx.mine():
    with ctx.cell('NoQuantizer'):
      q, vs = qz.make(qz._q.NoQuantizer(), (3,))
      x = np.array([0.123, -77.0, 5e-9], np.float32)
      require(all(np.array_equal(apply(q, x, vs, t)[0], x) for t in (True, False)), 'values changed')
      ctx.evald('none')
