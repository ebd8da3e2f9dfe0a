"""P06: save + restore at every point of pruning histories."""
import itertools, os, tempfile
LEVEL = 'model_checking'
RULE = ('state = all variables of the pruned model; transition = one training/evaluation/epoch-end event or a '
        'save+restore in one of the formats, after which original and restored model are driven through the same '
        'continuations; distinct = distinct (format, configuration, state) restored')
ASSUME = ['SGD without momentum; restored models are compiled like the original']
BOUND = {'quick': '7 pruned models x 9 save formats; restore points: every state reachable within 3 events (file formats: 3 to 5 of them); continuations of 3 events',
         'thorough': '7 models x 9 formats; restore points within 4 events; continuations of 4 events'}


def run(ctx):
  import numpy as np
  from env import tf, keras, tfmot, snap, restore
  from mc import require
  import bfs
  prune = tfmot.sparsity.keras.prune_low_magnitude
  scope = tfmot.sparsity.keras.prune_scope
  L = keras.layers
  C, P = tfmot.sparsity.keras.ConstantSparsity, tfmot.sparsity.keras.PolynomialDecay

  class Ramp(tfmot.sparsity.keras.PruningSchedule):
    """A schedule of the user's own."""

    def __init__(self, slope):
      self.slope = slope

    def __call__(self, step):
      return (self._should_prune_in_step(step, 0, -1, 2), tf.minimum(tf.cast(step, tf.float32) * self.slope, 0.75))

    def get_config(self):
      return {'class_name': 'Ramp', 'config': {'slope': self.slope}}

    @classmethod
    def from_config(cls, c):
      return cls(**c)

  def loss_fn(y, out):
    return tf.reduce_sum(tf.square(out - y), axis=[1])

  def seq(*layers):
    return lambda: keras.Sequential([l() for l in layers])

  def fill(m):
    for j, l in enumerate([l.layer if hasattr(l, 'layer') else l for l in m.layers]):
      ws = l.get_weights()
      l.set_weights([np.array([((i * 7 + 3 * j + 1) % 13 - 6.25) / 4 for i in range(w.size)], np.float32).reshape(w.shape) for w in ws])

  configs = {
      'dense constant': seq(lambda: prune(L.Dense(2, name='a'), C(0.5, 1, 3, 2), input_shape=(4,))),
      'dense polynomial block': seq(lambda: prune(L.Dense(4, name='a'), P(0.25, 0.75, 1, 4, 2, 1), block_size=(2, 1), block_pooling_type='MAX', input_shape=(4,)),
                                    lambda: prune(L.Dense(2, name='b'), C(0.25, 0, -1, 3))),
      'dense 2:4': seq(lambda: prune(L.Dense(2, name='a'), C(0.5, 0), sparsity_m_by_n=(2, 4), input_shape=(4,))),
      'dense 1:2': seq(lambda: prune(L.Dense(2, name='a'), C(0.5, 0), sparsity_m_by_n=(1, 2), input_shape=(4,)), lambda: L.Dense(2, name='b')),
      'own schedule': seq(lambda: prune(L.Dense(2, name='a'), Ramp(0.25), input_shape=(4,))),
      'lstm': seq(lambda: L.Reshape((2, 2), input_shape=(4,)), lambda: prune(L.LSTM(2, name='a'), C(0.5, 1, -1, 2))),
      'conv': seq(lambda: L.Reshape((2, 2, 1), input_shape=(4,)), lambda: prune(L.Conv2D(2, 2, name='a'), P(0.0, 0.5, 1, 3, 1, 1)), lambda: L.Flatten()),
  }
  X = [np.array([[1., 0., 2., -1.]], np.float32), np.array([[0., -1., 1., 2.], [1., 1., 0., 4.]], np.float32)]
  Y = [np.array([[1., -1.]], np.float32), np.array([[0., 4.], [-2., 0.]], np.float32)]
  objs = {'Ramp': Ramp, 'loss_fn': loss_fn}

  class M:
    eager = False

    def __init__(self, m):
      self.m = m
      m.compile(keras.optimizers.SGD(1 / 64), loss=loss_fn, run_eagerly=M.eager)
      self.cb = tfmot.sparsity.keras.UpdatePruningStep()
      self.cb.set_model(m)

    def named(self):
      """All variables of the model by (layer position, kind)."""
      out = []
      for i, l in enumerate(self.m.layers):
        for j, v in enumerate(l.weights):
          out.append(v)
      return out

    def ev(self, e):
      if e == 'begin':
        self.cb.on_train_begin()
      elif e == 'epoch-end':
        self.cb.on_epoch_end(0)
      elif e == 'evaluate':
        return self.m.test_on_batch(X[0], Y[0])
      elif e == 'predict':
        return self.m.predict_on_batch(X[0]).tolist()
      else:
        return self.m.train_on_batch(X[int(e[-1])], Y[int(e[-1])])

    def state(self):
      return snap(self.named())

  def files(tag):
    d = tempfile.mkdtemp(prefix='p06_', dir=os.environ.get('MC_TMP'))
    return os.path.join(d, tag)

  def by_config(mk, o, r=None):
    if r is None:
      with scope(), keras.utils.custom_object_scope(objs):
        r = M(type(o.m).from_config(o.m.get_config()))
    r.m.set_weights(o.m.get_weights())
    return r

  def by_json(mk, o, r=None):
    with scope(), keras.utils.custom_object_scope(objs):
      m = keras.models.model_from_json(o.m.to_json())
    m.set_weights(o.m.get_weights())
    return M(m)

  def by_clone(mk, o, r=None):
    with scope(), keras.utils.custom_object_scope(objs):
      m = keras.models.clone_model(o.m)
    m.set_weights(o.m.get_weights())
    return M(m)

  def file_format(ext, **kw):
    def f(mk, o, r=None):
      path = files('m' + ext)
      keras.models.save_model(o.m, path, **kw)
      with scope(), keras.utils.custom_object_scope(objs):
        m = keras.models.load_model(path)
      return M(m)
    return f

  def weights_format(ext, **kw):
    def f(mk, o, r=None):
      path = files('w' + ext)
      o.m.save_weights(path, **kw)
      r = r or M(mk())
      r.m.load_weights(path)
      return r
    return f

  def by_checkpoint(mk, o, r=None):
    path = tf.train.Checkpoint(model=o.m, optimizer=o.m.optimizer).save(files('ckpt'))
    r = r or M(mk())
    tf.train.Checkpoint(model=r.m, optimizer=r.m.optimizer).restore(path).expect_partial()
    return r

  formats = {
      'configuration': by_config, 'json': by_json, 'clone': by_clone,
      'h5 file': file_format('.h5'), 'SavedModel': file_format('', save_format='tf'),
      'h5 weights': weights_format('.h5'), 'tf weights': weights_format('', save_format='tf'),
      'checkpoint': by_checkpoint,
      'keras file': file_format('.keras'),
  }
  cheap = ('configuration', 'h5 weights', 'tf weights', 'checkpoint')
  EV = ['train0', 'train1', 'evaluate', 'epoch-end']

  def same(a, b, what):
    sa, sb = a.state(), b.state()
    require(len(sa) == len(sb), '%s: %d variables against %d', what, len(sa), len(sb))
    for v, x, y in zip(a.named(), sa, sb):
      require(x.shape == y.shape and np.array_equal(x, y), '%s: %s is %s, in the restored model %s', what, v.name, x.tolist(), y.tolist())
    return bfs.arr(sa)

  def settings(m):
    out = []
    for l in m.layers:
      if type(l).__name__ == 'PruneLowMagnitude':
        out.append((l.name, type(l.pruning_schedule).__name__, str(l.pruning_schedule.get_config()), tuple(l.block_size), l.block_pooling_type,
                    tuple(l.sparsity_m_by_n) if l.sparsity_m_by_n else None))
    return out

  for cname, fname in itertools.product(configs, formats):
    if not ctx.mine() or ctx.over():
      continue
    with ctx.cell('%s via %s' % (cname, fname), timeout=600):
      mk, fmt = configs[cname], formats[fname]
      M.eager = fname not in cheap  # both execution modes are covered
      m0 = mk(); fill(m0)
      o = M(m0)
      # All restore points: histories of the original.
      points = [[]] + [['begin'] + list(h) for d in range(ctx.pick(3, 4)) for h in itertools.product(EV[:2] + EV[3:], repeat=d)]
      if fname not in cheap:
        points = [[], ['begin'], ['begin', 'train0'], ['begin', 'train1', 'train0', 'epoch-end'], ['begin', 'train0', 'train1', 'train1']]
        points = points if ctx.thorough else points[3:4] if fname == 'SavedModel' else points[3:]
      init, r = o.state(), None
      for hist in points:
        restore(o.named(), init)
        for e in hist:
          o.ev(e); ctx.trans()
        r = fmt(mk, o, r if fname in cheap else None)
        k = same(o, r, 'history %s' % hist)
        ctx.state((ctx.cur, k)); ctx.evald((ctx.cur, k))
        require(settings(o.m) == settings(r.m) and (len(settings(o.m)) > 0), 'settings %s, in the restored model %s', settings(o.m), settings(r.m))
        st = o.state()
        deep = hist in points[-2:]
        conts = list(itertools.product(EV, repeat=ctx.pick(3, 4))) if deep and fname in cheap[:1] else \
            [('train0', 'train1', 'train0', 'epoch-end'), ('evaluate', 'train1', 'train1', 'train0')]
        for cont in conts:
          for x in (o, r):
            restore(x.named(), st)
            x.ev('begin')
          for n, e in enumerate(cont):
            a, b = o.ev(e), r.ev(e)
            ctx.trans()
            require(a == b or (np.allclose(a, b, rtol=1e-5) if a is not None else False), 'history %s then %s: %s returns %r, in the restored model %r', hist, cont[:n], e, a, b)
            k = same(o, r, 'history %s then %s' % (hist, cont[:n + 1]))
            ctx.state((ctx.cur, k))
          ctx.trace()
        restore(o.named(), st)
      ctx.sample({'config': cname, 'format': fname, 'restore points': len(points)})

  # ---- one layer restored from earlier training, another one new.
  for first, other in itertools.product((-1, 3), (-1, 5)):
    if not ctx.mine():
      continue
    with ctx.cell('layers restored at steps %d and %d' % (first, other)):
      M.eager = True
      m = keras.Sequential([prune(L.Dense(2), C(0.5, 4, -1, 2), input_shape=(4,)), prune(L.Dense(2), C(0.5, 1, -1, 1))])
      o = M(m)
      steps = [[v for v in l.weights if 'pruning_step' in v.name][0] for l in m.layers]
      for v, s in zip(steps, (first, other)):
        v.assign(s)
      o.ev('begin')
      want = [max(first, 0), max(other, 0)]
      require([int(v.numpy()) for v in steps] == want, 'steps after train begin are %s, should be %s', [int(v.numpy()) for v in steps], want)
      o.ev('train0'); o.ev('epoch-end'); o.ev('begin'); o.ev('train1')
      want = [w + 2 for w in want]
      require([int(v.numpy()) for v in steps] == want, 'steps after two batches are %s, should be %s', [int(v.numpy()) for v in steps], want)
      ctx.trans(5); ctx.trace(); ctx.evald(('mixed', first, other))

  # ---- every combination of settings survives every configuration format.
  scheds = [('C', s, b, e, f) for s in (0.0, 0.3, 0.75, 0.999) for b, e in ((0, -1), (2, -1), (1, 7), (3, 3)) for f in (1, 3, 100)]
  scheds += [('P', i, s, b, e, p, f) for i, s in ((0.0, 0.5), (0.25, 0.9), (0.75, 0.25), (0.5, 0.5)) for b, e in ((0, 4), (2, 7), (5, 6))
             for p in (0.5, 1, 1.5, 3) for f in (1, 2, 100)]
  blocks = [((1, 1), 'AVG', None), ((2, 1), 'AVG', None), ((1, 3), 'MAX', None), ((4, 2), 'MAX', None), ((1, 1), 'AVG', (2, 4)), ((1, 1), 'AVG', (1, 2)), ((1, 1), 'AVG', (3, 8))]

  def make(s):
    return C(*s[1:]) if s[0] == 'C' else P(s[1], s[2], s[3], s[4], s[5], s[6])

  def values(s):
    return [(bool(a), float(b)) for a, b in (s(tf.constant(i)) for i in list(range(10)) + [99, 100, 101, 102, 105])]

  group = 28
  for g in range(0, len(scheds), group):
    for tag in ('configuration', 'json', 'clone', 'h5 file', 'keras file'):
      if not ctx.mine() or ctx.over():
        continue
      with ctx.cell('settings %d.. via %s' % (g, tag), timeout=600):
        M.eager = True
        ls = []
        for i, s in enumerate(scheds[g:g + group]):
          b = blocks[(i + g) % len(blocks)]
          kw = {'sparsity_m_by_n': b[2]} if b[2] else {'block_size': b[0], 'block_pooling_type': b[1]}
          ls.append(prune(L.Dense(4, name='d%d' % i, trainable=i % 5 != 0), make(s), **(dict(kw, input_shape=(4,)) if i == 0 else kw)))
        o = M(keras.Sequential(ls))
        r = formats[tag](None, o)
        require(settings(o.m) == settings(r.m), 'settings %s, in the restored model %s', settings(o.m), settings(r.m))
        for s, a, b, l in zip(scheds[g:g + group], o.m.layers, r.m.layers, ls):
          require(a.trainable == b.trainable, 'layer %s trainable is %s, in the restored model %s', a.name, a.trainable, b.trainable)
          va, vb, vn = values(a.pruning_schedule), values(b.pruning_schedule), values(make(s))
          require(va == vb == vn, 'schedule %s: (active, sparsity) by step %s, in the restored model %s', s, vn, vb)
          ctx.evald((s, tag)); ctx.trans(len(va)); ctx.state(('schedule', s))
        ctx.trace()
