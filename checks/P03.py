"""P03: m-by-n structured pruning and the m-by-n checker."""
import itertools
LEVEL = 'exploration'
RULE = ('one case = (kernel shape, m, n, content family); evaluations = kernels pruned or patterns judged; distinct = '
        'distinct (case, mask or verdict) pairs')
ASSUME = ['finite weights']
BOUND = {'quick': 'dense inputs 1..9 x outputs 1..3, convolutions up to 2x3x5x2, n 2..5, all contents over 4 values for one row of <=5, all permutations of distinct magnitudes for <=5; all 0/1 patterns of <=10 cells for the checker',
         'thorough': 'dense inputs 1..17, n 2..8, contents up to 6 entries over 5 values, all 0/1 patterns of <=14 cells'}


def run(ctx):
  import numpy as np
  from env import tf, keras, tfmot
  from mc import require
  from tensorflow_model_optimization.python.core.sparsity.keras import pruning_impl, pruning_utils
  from tensorflow_model_optimization.python.core.sparsity.keras import pruning_schedule as ps

  def rows_of(a):
    """Kernel -> list of rows along the input dimension, with their position."""
    if a.ndim == 2:
      return [a[:, o] for o in range(a.shape[1])]
    return [a[h, w, :, o] for h in range(a.shape[0]) for w in range(a.shape[1]) for o in range(a.shape[3])]

  def judge(w, mask, m, n):
    require(mask.shape == w.shape, 'mask shape %s for weight shape %s', mask.shape, w.shape)
    require(np.all((mask == 0) | (mask == 1)), 'mask not 0/1')
    for rw, rm in zip(rows_of(np.abs(w)), rows_of(mask)):
      for i in range(0, len(rw), n):
        gw, gm = rw[i:i + n], rm[i:i + n]
        keep = min(len(gw), n - m)
        require(int(gm.sum()) == keep, 'group %s keeps %d entries, should keep %d (mask %s)', gw.tolist(), int(gm.sum()), keep, gm.tolist())
        if keep < len(gw):
          require(gw[gm == 1].min() >= gw[gm == 0].max(), 'group %s prunes a larger entry than it keeps: %s', gw.tolist(), gm.tolist())

  class H:
    def __init__(self, shape, m, n, dtype='float32'):
      self.w = tf.Variable(tf.zeros(shape, dtype)); self.m = tf.Variable(tf.zeros(shape, dtype)); self.t = tf.Variable(tf.zeros([], dtype))
      self.step = tf.Variable(1, dtype=tf.int64)
      p = pruning_impl.Pruning(lambda: self.step, [(self.w, self.m, self.t)], ps.ConstantSparsity(0.5, 0), (1, 1), 'AVG', (m, n))

      def upd():
        p.conditional_mask_update(); p.weight_mask_op()
      self.upd = tf.function(upd)
      self.mn = (m, n)

    def check(self, w, key):
      self.w.assign(w); self.m.assign(tf.ones_like(self.m))
      self.upd()
      mk, out = self.m.numpy(), self.w.numpy()
      judge(w, mk, *self.mn)
      require(np.array_equal(out, np.where(mk == 1, w, 0)), 'masked weight %s', out.tolist())
      require(pruning_utils.is_pruned_m_by_n(tf.constant(out), self.mn), 'checker rejects the weight just pruned')
      ctx.evald((key, mk.tobytes()))

  maxn = ctx.pick(5, 8)
  mns = [(m, n) for n in range(2, maxn + 1) for m in range(1, n)]
  shapes = [(i, o) for i in range(1, ctx.pick(10, 18)) for o in (1, 2, 3)]
  shapes += [(1, 1, 4, 1), (1, 1, 4, 3), (2, 1, 3, 2), (1, 2, 5, 2), (2, 3, 5, 2), (2, 2, 8, 1), (3, 3, 1, 2), (1, 3, 7, 4)]
  for shape, (m, n) in itertools.product(shapes, mns):
    if not ctx.mine():
      continue
    if ctx.over():
      return
    sig = 'layout shape=%s %d:%d' % (shape, m, n)
    with ctx.cell(sig):
      h = H(shape, m, n)
      size = int(np.prod(shape))
      for k in (1, 7, 11, 13, 29, 31):  # multipliers: distinct magnitudes in different orders
        mag = np.array([((i * k + 3) % 997) + 1 for i in range(size)], np.float32)
        sgn = np.where(np.arange(size) % 3 == 1, -1, 1).astype(np.float32)
        h.check((mag * sgn).reshape(shape), sig)
      h.check(np.zeros(shape, np.float32), sig)
      h.check(np.full(shape, -2.0, np.float32), sig)
      for pos in range(min(size, 24)):
        w = np.full(size, 0.25, np.float32); w[pos] = -8.0
        h.check(w.reshape(shape), sig)
      ctx.sample({'case': sig})

  A = ctx.pick([0.0, 1.0, -1.0, 2.0], [0.0, 1.0, -1.0, 2.0, -3.0])
  for ln, (m, n) in itertools.product(range(1, ctx.pick(6, 7)), mns):
    if n > ln + 2:
      continue
    for orient in ('dense', 'conv'):
      if not ctx.mine():
        continue
      if ctx.over():
        return
      sig = 'contents %s length=%d %d:%d' % (orient, ln, m, n)
      with ctx.cell(sig):
        shape = (ln, 1) if orient == 'dense' else (1, 1, ln, 1)
        h = H(shape, m, n)
        for v in (itertools.product(A, repeat=ln) if ln <= 4 or ctx.thorough else
                  itertools.chain(itertools.permutations([1.0, -2.0, 3.0, -4.0, 5.0]), itertools.product([0.0, -1.0, 1.0], repeat=5))):
          h.check(np.array(v, np.float32).reshape(shape), sig)

  for dtype in ('float16', 'float64', 'bfloat16'):
    pass  # the m-by-n path is float32 only in the library; not claimed

  # The mask moves at step 1 only.
  for step in (-1, 0, 2, 3, 100):
    if ctx.mine():
      with ctx.cell('no update at step %d' % step):
        h = H((4, 2), 2, 4)
        w = np.arange(1, 9, dtype=np.float32).reshape(4, 2)
        h.w.assign(w); h.m.assign(tf.ones_like(h.m)); h.step.assign(step)
        h.upd()
        require(np.all(h.m.numpy() == 1) and np.array_equal(h.w.numpy(), w), 'mask moved at step %d', step)
        ctx.evald(('step', step))

  # Checker: every zero pattern.
  for shape, last in [((r, c), l) for r in range(1, 8) for c in range(1, 8) for l in ('C_OUT', 'C_IN')] + [((1, 2, 3, 1), 'C_OUT'), ((1, 1, 4, 2), 'C_OUT'), ((2, 1, 2, 2), 'C_IN'), ((2, 2, 2, 1), 'C_OUT')]:
    size = int(np.prod(shape))
    if size > ctx.pick(10, 14):
      continue
    for m, n in [(1, 2), (2, 4), (1, 3), (2, 3), (3, 4), (2, 2), (0, 2)]:
      if not ctx.mine():
        continue
      sig = 'checker shape=%s %s %d:%d' % (shape, last, m, n)
      with ctx.cell(sig):
        step = 1 if size <= 8 else 3
        for bits in range(0, 2 ** size, step):
          w = np.array([((bits >> i) & 1) * (-1.5 if i % 2 else 0.5) for i in range(size)], np.float32).reshape(shape)
          rows = rows_of(w) if last == 'C_OUT' else list(w.reshape(-1, shape[-1]))
          want = all(np.count_nonzero(r[i:i + n]) <= n - m for r in rows for i in range(0, len(r), n))
          got = pruning_utils.is_pruned_m_by_n(tf.constant(w), (m, n), last)
          require(bool(got) == want, 'checker says %s for %s', got, w.tolist())
          ctx.evald((shape, last, m, n, want))

  # Refused arguments.
  def refused(f):
    try:
      f()
      return False
    except (ValueError, tf.errors.InvalidArgumentError):
      return True
  for name, f in [
      ('m = n', lambda: pruning_utils.generate_m_by_n_mask(tf.ones([1, 4]), (4, 4))),
      ('m > n', lambda: pruning_utils.generate_m_by_n_mask(tf.ones([1, 4]), (5, 4))),
      ('rank 1', lambda: pruning_utils.weights_rearrange(tf.ones([4]))),
      ('rank 3', lambda: pruning_utils.weights_rearrange(tf.ones([4, 2, 2]))),
      ('checker m > n', lambda: pruning_utils.is_pruned_m_by_n(tf.ones([4, 2]), (5, 4))),
      ('layer one int', lambda: tfmot.sparsity.keras.prune_low_magnitude(keras.layers.Dense(2, input_shape=(4,)), sparsity_m_by_n=(2,))),
      ('layer float', lambda: tfmot.sparsity.keras.prune_low_magnitude(keras.layers.Dense(2, input_shape=(4,)), sparsity_m_by_n=(2, 4.0))),
      ('layer int', lambda: tfmot.sparsity.keras.prune_low_magnitude(keras.layers.Dense(2, input_shape=(4,)), sparsity_m_by_n=2)),
      ('layer three', lambda: tfmot.sparsity.keras.prune_low_magnitude(keras.layers.Dense(2, input_shape=(4,)), sparsity_m_by_n=(1, 2, 4)))]:
    if ctx.mine():
      with ctx.cell('refused ' + name):
        require(refused(f), 'accepted')
        ctx.evald(('refused', name))
