"""P02: magnitude masks (elementwise and by block) against a numpy reference."""
import itertools
LEVEL = 'exploration'
RULE = ('one case = (tensor shape, dtype, block shape, pooling, sparsity, execution context); evaluations = weight '
        'contents whose mask update was compared; distinct = distinct (configuration, mask) pairs produced')
ASSUME = ['finite weights', 'block averages are exact in float32 for the chosen contents, so ranking is unambiguous']
BOUND = {'quick': 'all tensors of 1..4 entries over 5 values, 5..6 over 3; 6 sparsities; all 2x3/3x3/1xn/nx1 and two-peak 4x4..5x6 block cases for 9 block shapes',
         'thorough': 'all tensors of 1..6 entries over 5 values, 7..8 over 3; 14 sparsities; larger block cases'}


def run(ctx):
  import numpy as np
  from env import tf, keras, tfmot
  from mc import require
  from tensorflow_model_optimization.python.core.sparsity.keras import pruning_impl
  from tensorflow_model_optimization.python.core.sparsity.keras import pruning_schedule as ps

  class StepSched(ps.PruningSchedule):
    """Test schedule: sparsity is a variable, due on a fixed set of steps."""

    def __init__(self, var, due):
      self.var, self.due = var, due

    def __call__(self, step):
      return tf.reduce_any(tf.equal(tf.cast(step, tf.int64), tf.constant(self.due, tf.int64))), self.var.read_value()

    def get_config(self):
      return {}

  def ref_elem(mag, s):
    k = int(max(np.round(np.float32(mag.size) * (np.float32(1) - np.float32(s))), 1))
    thr = np.sort(mag.reshape(-1))[::-1][k - 1]
    return mag >= thr, k

  def ref_block(w, s, block, pool):
    mag = np.abs(w).astype(np.float64)
    bh, bw = block
    gh, gw = -(-w.shape[0] // bh), -(-w.shape[1] // bw)
    grid = np.zeros((gh, gw))
    for i in range(gh):
      for j in range(gw):
        b = mag[i * bh:(i + 1) * bh, j * bw:(j + 1) * bw]
        grid[i, j] = b.mean() if pool == 'AVG' else b.max()
    gm, _ = ref_elem(grid, s)
    return np.repeat(np.repeat(gm, bh, 0), bw, 1)[:w.shape[0], :w.shape[1]]

  class Harness:
    def __init__(self, shape, dtype='float32', block=(1, 1), pool='AVG', context='eager'):
      self.shape, self.block, self.pool = shape, block, pool
      self.strategy = None
      if context == 'cross-replica':
        self.strategy = tf.distribute.MirroredStrategy(['/cpu:0'])
      scope = self.strategy.scope() if self.strategy else tf.name_scope('x')
      with scope:
        self.w = tf.Variable(tf.zeros(shape, dtype), name='w')
        self.m = tf.Variable(tf.ones(shape, dtype), trainable=False, aggregation=tf.VariableAggregation.MEAN)
        self.t = tf.Variable(tf.zeros([], dtype), trainable=False, aggregation=tf.VariableAggregation.MEAN)
      self.s = tf.Variable(0.5)
      self.step = tf.Variable(0, dtype=tf.int64)
      self.p = pruning_impl.Pruning(lambda: self.step, [(self.w, self.m, self.t)], StepSched(self.s, [5]), block, pool)
      f = self._update
      self.update = tf.function(f) if context != 'cross-replica' else self._scoped

    def _update(self):
      self.p.conditional_mask_update()
      self.p.weight_mask_op()

    def _scoped(self):
      with self.strategy.scope():
        self._update()

    def go(self, w, s, step=5):
      self.w.assign(w); self.m.assign(np.ones(self.shape)); self.s.assign(s); self.step.assign(step)
      self.update()
      return self.m.numpy(), self.w.numpy()

  def compare(h, w, s, key, refmask):
    m, out = h.go(w, s)
    require(m.shape == w.shape, 'mask shape %s for weight shape %s', m.shape, w.shape)
    require(np.all((m == 0) | (m == 1)), 'mask is not 0/1: %s', m.tolist())
    require(np.array_equal(m.astype(bool), refmask), 'weights %s sparsity %s: mask is %s, reference says %s', w.tolist(), s, m.tolist(), refmask.astype(int).tolist())
    want = np.where(refmask, w, np.zeros_like(w))
    require(np.array_equal(out, want), 'weights %s: masked to %s, should be %s', w.tolist(), out.tolist(), want.tolist())
    ctx.evald((key, m.tobytes(), s))

  spars = ctx.pick([0.0, 0.25, 0.4, 0.5, 0.7, 0.9],
                   [0.0, 0.05, 0.1, 0.2, 0.25, 0.3, 1 / 3, 0.4, 0.5, 0.6, 2 / 3, 0.75, 0.9, 0.99])
  A5 = [0.0, 1.0, -1.0, 2.0, -3.0]
  A3 = [0.0, 1.0, -2.0]
  spaces = [((1,), A5), ((2,), A5), ((3,), A5), ((2, 2), A5), ((5,), ctx.pick(A3, A5)), ((2, 1, 3), ctx.pick(A3, A5))] + ctx.pick([((1, 4, 1), A3)], [((1, 4, 1), A5)])
  if ctx.thorough:
    spaces += [((7,), A3), ((2, 2, 2), A3)]
  for (shape, alpha), s in itertools.product(spaces, spars):
    if not ctx.mine():
      continue
    if ctx.over():
      return
    sig = 'element shape=%s sparsity=%.3f' % (shape, s)
    with ctx.cell(sig):
      h = Harness(shape)
      n = int(np.prod(shape))
      for vals in itertools.product(alpha, repeat=n):
        w = np.array(vals, np.float32).reshape(shape)
        compare(h, w, s, sig, ref_elem(np.abs(w), s)[0])
      ctx.sample({'case': sig, 'contents': len(alpha) ** n})

  # Sizes: the kept count for every size and sparsity, on distinct magnitudes.
  for n in range(1, ctx.pick(41, 131)):
    if not ctx.mine():
      continue
    with ctx.cell('count size=%d' % n):
      h = Harness((n,))
      for s in [i / 20.0 for i in range(20)] + [0.99, 1 / 3, 2 / 3]:
        w = np.array([(-1) ** i * ((i * 7) % 131 + 1.0) for i in range(n)], np.float32)
        compare(h, w, s, 'count', ref_elem(np.abs(w), s)[0])

  # Magnitudes that differ little, are tiny or huge; other dtypes; strategy context.
  special = [[1.0, np.nextafter(np.float32(1), np.float32(2)), -1.0, 0.5], [1e-36, -1e-30, 1e30, 2e38],
             [-0.0, 0.0, 1e-20, -1e-20], [5.0] * 4, [0.0] * 4, [-7.0, 7.0, 7.0, -7.0], [4.0, 3.0, 2.0, 1.0], [1.0, 2.0, 3.0, 4.0]]
  for dtype, context in (('float32', 'eager'), ('float64', 'eager'), ('float16', 'eager'), ('bfloat16', 'eager'), ('float32', 'cross-replica')):
    for perm in itertools.permutations(range(4)):
      if not ctx.mine():
        continue
      sig = 'special dtype=%s context=%s order=%s' % (dtype, context, ''.join(map(str, perm)))
      with ctx.cell(sig):
        h = Harness((4,), dtype, context=context)
        for vals in special:
          if dtype in ('float16',) and max(np.abs(vals)) > 6e4:
            continue
          w = tf.cast(np.array(vals, np.float32)[list(perm)], dtype).numpy()
          for s in (0.0, 0.3, 0.5, 0.75, 0.9):
            compare(h, w, s, sig, ref_elem(np.abs(w), s)[0])

  # Not due: neither mask nor threshold may move.
  for step in (0, 4, 6, -1):
    if ctx.mine():
      with ctx.cell('not due step=%d' % step):
        h = Harness((2, 3))
        w = np.arange(6, dtype=np.float32).reshape(2, 3)
        m, out = h.go(w, 0.5, step)
        require(np.all(m == 1) and np.array_equal(out, w) and h.t.numpy() == 0, 'mask changed at a step that is not due')
        ctx.evald(('notdue', step))

  # Several weights in one object: each gets its own mask.
  for order in itertools.permutations(range(3)):
    if ctx.mine():
      with ctx.cell('several weights order=%s' % (order,)):
        arrs = [np.array([1., -2., 3., 4.], np.float32), np.array([[9., 1.], [0., 5.]], np.float32), np.array([[[7.]]], np.float32)]
        ws = [tf.Variable(arrs[i]) for i in order]
        ms = [tf.Variable(tf.ones_like(w)) for w in ws]
        ts = [tf.Variable(0.) for w in ws]
        p = pruning_impl.Pruning(lambda: tf.constant(5, tf.int64), list(zip(ws, ms, ts)), ps.ConstantSparsity(0.5, 0, -1, 1), (1, 1), 'AVG')
        p.conditional_mask_update(); p.weight_mask_op()
        for i, o in enumerate(order):
          rm = ref_elem(np.abs(arrs[o]), 0.5)[0]
          require(np.array_equal(ms[i].numpy().astype(bool), rm), 'weight %d: mask %s', o, ms[i].numpy().tolist())
          require(np.array_equal(ws[i].numpy(), np.where(rm, arrs[o], 0)), 'weight %d: masked %s', o, ws[i].numpy().tolist())
          ctx.evald(('several', o))

  # ---- blocks.  3600 makes all averages of up to 60 entries exact.
  U = 3600.0
  blocks = [(1, 2), (2, 1), (2, 2), (3, 2), (2, 3), (1, 4), (4, 1), (3, 3), (4, 4)]
  bspars = ctx.pick([0.25, 0.5, 0.7], [0.0, 0.2, 0.25, 0.5, 0.6, 0.75, 0.9])

  def contents(shape):
    n = shape[0] * shape[1]
    if n <= 4:
      for v in itertools.product(ctx.pick([0, 1, -2], [0, 1, -2, 3]), repeat=n):
        yield v
    elif n <= 6:
      for v in itertools.product(ctx.pick([1, -2], [0, 1, -2]), repeat=n):
        yield v
    elif n <= 9:
      for v in itertools.product([1, -3], repeat=n):
        yield v
    else:
      base = [((i * 5) % 7) % 3 for i in range(n)]
      for a, b in itertools.combinations(range(n), 2):
        v = list(base); v[a] = 5; v[b] = -4
        yield v
      yield [1] * n
      yield [0] * n
  shapes = [(1, 1), (1, 4), (4, 1), (2, 2), (2, 3), (3, 3), (1, 6), (6, 1), (2, 4), (4, 4), (5, 3)] + ctx.pick([], [(3, 2), (4, 2), (5, 6), (6, 5), (7, 4)])
  for shape, block, pool in itertools.product(shapes, blocks, ('AVG', 'MAX')):
    if not ctx.mine():
      continue
    if ctx.over():
      return
    sig = 'block shape=%s block=%s pooling=%s' % (shape, block, pool)
    with ctx.cell(sig):
      h = Harness(shape, block=block, pool=pool)
      for v in contents(shape):
        w = (np.array(v, np.float32) * U).reshape(shape)
        for s in bspars:
          compare(h, w, s, sig, ref_block(w, s, block, pool))

  # Block sparsity on weights that are not matrices is refused.
  for shape in ((4,), (2, 2, 2), (1, 2, 2, 1)):
    if ctx.mine():
      with ctx.cell('block on shape %s' % (shape,)):
        try:
          Harness(shape, block=(2, 2))
          ok = False
        except ValueError:
          ok = True
        require(ok, 'block sparsity accepted for a weight of rank %d', len(shape))
        ctx.evald(('rank', len(shape)))
