"""P01: pruning schedules against a python reference, every step and config."""
import itertools
LEVEL = 'exploration'
RULE = ('one case = (schedule configuration, execution mode); evaluations = (configuration, step) decisions '
        'compared with the reference; distinct = distinct (should_prune, sparsity) outcomes per position of the '
        'step relative to begin/end/frequency')
ASSUME = ['steps are int64 or int32 scalars as produced by the pruning wrapper']
BOUND = {'quick': 'begin 0..3, length 0..6 and none, frequency 1..3 and 7, powers 1,3,0.5, 6 sparsity pairs, steps 0..end+2*frequency+2',
         'thorough': 'begin 0..5, length 0..12 and none, frequency 1..7, powers 0.5,1,2,3,4, 12 sparsity pairs, steps 0..end+2*frequency+2'}


def run(ctx):
  import numpy as np
  from env import tf, keras, tfmot
  from mc import require
  Const, Poly = tfmot.sparsity.keras.ConstantSparsity, tfmot.sparsity.keras.PolynomialDecay

  begins = ctx.pick(range(4), range(6))
  lengths = ctx.pick([0, 1, 2, 3, 5, 6], range(13))
  freqs = ctx.pick([1, 2, 3, 7], range(1, 8))
  powers = ctx.pick([1, 3, 0.5], [0.5, 1, 2, 3, 4])
  pairs = ctx.pick([(0.0, 0.5), (0.5, 0.0), (0.25, 0.875), (0.5, 0.5), (0.1, 0.9), (0.9, 0.3)],
                   [(a, b) for a in (0.0, 0.25, 0.5, 0.99) for b in (0.0, 0.5, 0.9)])

  def due(step, b, e, f):
    return step >= b and (e == -1 or step <= e) and (step - b) % f == 0

  def poly(step, i, fi, b, e, pw):
    if step >= e:
      return fi
    if step <= b:
      return i
    frac = (step - b) / float(e - b)
    return fi + (i - fi) * (1 - frac) ** pw

  def batch(sched, steps, dtype, graph):
    """All decisions of one schedule, one call per step."""
    if graph:
      fn = tf.function(lambda s: sched(s), input_signature=[tf.TensorSpec([], dtype)])
    else:
      fn = sched
    out = []
    for s in steps:
      p, sp = fn(tf.constant(s, dtype))
      out.append((bool(np.asarray(p)), float(np.asarray(sp))))
    return out

  def compare(sched, ref, steps, cfgkey, e):
    for dtype, graph in ((tf.int64, True), (tf.int32, False)):
      sub = steps if graph else steps[::3]
      got = batch(sched, sub, dtype, graph)
      for s, (p, sp) in zip(sub, got):
        rp, rs = ref(s)
        require(p == rp, 'step %d (%s, %s): should_prune is %s, reference says %s', s, dtype.name, 'graph' if graph else 'eager', p, rp)
        require(np.isfinite(sp) and abs(sp - rs) <= 2e-6, 'step %d (%s): sparsity is %r, reference says %r', s, dtype.name, sp, rs)
        ctx.evald((p, round(rs, 4), s >= 0))

  for b, ln, f in itertools.product(begins, list(lengths) + [None], freqs):
    e = -1 if ln is None else b + ln
    last = (b + 6) if e == -1 else e
    steps = list(range(0, last + 2 * f + 3)) + [last + 100 * f]
    for t in (0.0, 0.5, 0.99):
      if not ctx.mine():
        continue
      if ctx.over():
        return
      sig = 'constant target=%s begin=%d end=%d frequency=%d' % (t, b, e, f)
      with ctx.cell(sig, {'schedule': sig}):
        sc = Const(t, b, e, f)
        ref = lambda s: (due(s, b, e, f), t)
        compare(sc, ref, steps, sig, e)
        cfg = sc.get_config()
        require(cfg['class_name'] == 'ConstantSparsity', 'config class name %s', cfg['class_name'])
        sc2 = Const.from_config(cfg['config'])
        compare(sc2, ref, steps[::5], sig, e)
        sc3 = keras.utils.deserialize_keras_object(cfg, custom_objects={'ConstantSparsity': Const})
        compare(sc3, ref, steps[::5], sig, e)
        ctx.sample({'schedule': sig, 'steps': steps[:4], 'expected': [ref(s) for s in steps[:4]]})
    if ln is None:
      continue
    for (i, fi), pw in itertools.product(pairs, powers):
      if not ctx.mine():
        continue
      if ctx.over():
        return
      sig = 'polynomial %s->%s begin=%d end=%d power=%s frequency=%d' % (i, fi, b, e, pw, f)
      with ctx.cell(sig, {'schedule': sig}):
        sc = Poly(i, fi, b, e, pw, f)
        ref = lambda s: (due(s, b, e, f), poly(s, i, fi, b, e, pw))
        compare(sc, ref, steps, sig, e)
        cfg = sc.get_config()
        require(cfg['class_name'] == 'PolynomialDecay', 'config class name %s', cfg['class_name'])
        sc2 = Poly.from_config(cfg['config'])
        compare(sc2, ref, steps[::5], sig, e)

  # Defaults: frequency 100, constant never ends, cubic decay.
  for b in (0, 1, 50, 100):
    if ctx.mine():
      with ctx.cell('defaults begin=%d' % b):
        ref = lambda s: (due(s, b, -1, 100), 0.5)
        compare(Const(0.5, b), ref, [0, 1, 49, 50, 51, 99, 100, 101, 150, 200, 201, 250, 300, 10000, 10050], 'd', -1)
        ref = lambda s: (due(s, b, b + 450, 100), poly(s, 0.1, 0.9, b, b + 450, 3))
        compare(Poly(0.1, 0.9, b, b + 450), ref, [0, 1, 50, 100, 101, 150, 200, 250, 300, 450, 500, 501, 550, 551, 600], 'd', -1)

  # Large steps (long trainings): exact step arithmetic in int64.
  for b, f in itertools.product((0, 1000003), (1, 7, 1000)):
    if ctx.mine():
      with ctx.cell('large steps begin=%d frequency=%d' % (b, f)):
        base = 2 ** 33
        sc = Const(0.5, b, -1, f)
        fn = tf.function(lambda s: sc(s), input_signature=[tf.TensorSpec([], tf.int64)])
        for s in list(range(base, base + 2 * f if f < 10 else base + 5)) + [b + f * 2 ** 24, b + f * 2 ** 24 + 1]:
          p = bool(fn(tf.constant(s, tf.int64))[0])
          require(p == due(s, b, -1, f), 'step %d: should_prune is %s', s, p)
          ctx.evald(('large', p))

  # Impossible parameters are rejected when the schedule is created.
  bad = []
  for b, e, f in itertools.product((-2, -1, 0, 2, 3), (-3, -2, -1, 0, 1, 2, 3), (-1, 0, 1, 2)):
    for s in (-0.1, 0.0, 0.5, 1.0, 1.5):
      bad.append((b, e, f, s))
  for b, e, f, s in bad:
    if not ctx.mine():
      continue
    steps_ok = b >= 0 and f > 0 and (e == -1 or (e >= 0 and e >= b))
    sp_ok = 0.0 <= s < 1.0
    for kind in ('constant', 'polynomial-initial', 'polynomial-final'):
      sig = 'validation %s begin=%d end=%d frequency=%d sparsity=%s' % (kind, b, e, f, s)
      with ctx.cell(sig):
        ok = steps_ok and sp_ok and not (kind != 'constant' and e == -1)
        try:
          if kind == 'constant':
            Const(s, b, e, f)
          elif kind == 'polynomial-initial':
            Poly(s, 0.5, b, e, 3, f)
          else:
            Poly(0.5, s, b, e, 3, f)
          got = True
        except ValueError:
          got = False
        require(got == ok, 'accepted=%s, should be %s', got, ok)
        ctx.evald(('validation', kind, ok))
