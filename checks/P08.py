"""P08: reporting callbacks report the true state and change nothing."""
import itertools
LEVEL = 'model_checking'
RULE = ('case = (model, callback settings, sequence of fit calls with their epochs and batches); it is trained with and without the reporting callback, all variables are compared after '
        'every batch, and the written event files with the states at the moments of reporting; states = variables after each batch')
ASSUME = ['single threaded', 'the event files are read by TensorFlow itself']
BOUND = {'quick': '4 pruned and 5 clustered models; all sequences of 1 to 2 fit calls of 1 to 2 epochs of 1 to 3 batches; 2 pruning and 5 clustering frequencies',
         'thorough': 'sequences of up to 3 fit calls of up to 3 epochs of up to 4 batches'}


def run(ctx):
  import contextlib, glob, io, os, shutil, tempfile
  import numpy as np
  from env import tf, keras, tfmot, snap
  from mc import require
  L = keras.layers
  S, CK = tfmot.sparsity.keras, tfmot.clustering.keras
  from tensorflow_model_optimization.python.core.clustering.keras import clustering_callbacks
  from tensorflow_model_optimization.python.core.sparsity.keras import pruning_wrapper

  def fill(m):
    k = 0
    for l in m.layers:
      new = []
      for w in l.weights:
        a = np.array([(((17 * i + 7 * k + i * i % 5) % 37) - 18.25) / 20 for i in range(int(np.prod(w.shape)))], np.float32).reshape(w.shape)
        new.append(np.abs(a) + 0.5 if 'variance' in w.name else a)
        k += 1
      if new:
        l.set_weights(new)
    return m

  def seq(shape, *ls):
    return lambda: fill(keras.Sequential([keras.Input(shape)] + [l() for l in ls]))

  two = seq((3,), lambda: L.Dense(4, name='a', activation='tanh'), lambda: L.Dense(2, name='b'))
  conv = seq((3, 3, 2), lambda: L.Conv2D(2, 2, name='a'), lambda: L.BatchNormalization(name='n'), lambda: L.Flatten(name='f'), lambda: L.Dense(2, name='b'))
  rnn = seq((3, 2), lambda: L.LSTM(2, name='r'), lambda: L.Dense(2, name='b'))
  const = lambda: S.ConstantSparsity(0.5, 1, frequency=2)
  poly = lambda: S.PolynomialDecay(0.125, 0.75, 0, 5, frequency=1)

  def part():
    m = two()
    return keras.Sequential([keras.Input((3,)), S.prune_low_magnitude(m.layers[0], pruning_schedule=poly()), m.layers[1]])
  prune = lambda make, sch: (lambda: S.prune_low_magnitude(make(), pruning_schedule=sch()))
  PRUNED = {'dense, polynomial': prune(two, poly), 'conv, constant': prune(conv, const), 'lstm, polynomial': prune(rnn, poly), 'one layer of two': part}

  def clus(make, **kw):
    def f():
      tf.random.set_seed(1)
      return CK.cluster_weights(make(), number_of_clusters=3, cluster_centroids_init=CK.CentroidInitialization.LINEAR, **kw)
    return f

  def clusone():
    m = two()
    return keras.Sequential([keras.Input((3,)), m.layers[0], CK.cluster_weights(m.layers[1], number_of_clusters=2, cluster_centroids_init=CK.CentroidInitialization.DENSITY_BASED)])
  CLUSTERED = {'dense': clus(two), 'conv': clus(conv), 'lstm': clus(rnn), 'one layer of two': clusone, 'preserving sparsity': clus(two, preserve_sparsity=True)}

  def data(m, n):
    k = n * int(np.prod(m.input_shape[1:]))
    x = np.array([((5 * i + i * i % 13) % 19 - 9.25) / 9 for i in range(k)], np.float32).reshape((n,) + tuple(m.input_shape[1:]))
    k = n * int(np.prod(m.output_shape[1:]))
    return x, np.array([((3 * i) % 7 - 3) / 4 for i in range(k)], np.float32).reshape((n,) + tuple(m.output_shape[1:]))

  class Watch(keras.callbacks.Callback):
    """Records the variables after every batch and at the moments of reporting."""

    def __init__(self):
      super().__init__(); self.batches, self.begins, self.ends = [], [], []

    def vals(self):
      return {v.name: v.numpy().copy() for v in self.model.variables}

    def on_epoch_begin(self, epoch, logs=None):
      self.begins.append((int(self.model.optimizer.iterations.numpy()), self.vals()))

    def after_step(self):  # not a batch hook: callbacks have to work without another one that has any
      self.batches.append(snap(self.model.variables))
      self.ends.append(('batch', self.vals(), self.layer_vals()))

    def on_epoch_end(self, epoch, logs=None):
      self.ends.append(('epoch', self.vals(), self.layer_vals()))

    def layer_vals(self):
      return [{v.name: v.numpy().copy() for v in l.variables} for l in self.model.layers]

  def drive(make, plan, cb=None, extra=()):
    keras.backend.clear_session()
    m = make()
    m.compile(keras.optimizers.SGD(0.0625), loss='mse', run_eagerly=True)
    w = Watch()
    step = m.train_step

    def train_step(batch):
      out = step(batch)
      w.after_step()
      return out
    m.train_step = train_step
    for epochs, batches in plan:
      x, y = data(m, 2 * batches)
      with contextlib.redirect_stdout(io.StringIO()):
        m.fit(x, y, batch_size=2, epochs=epochs, verbose=(0, 2, 1)[(epochs + batches) % 3], shuffle=False, callbacks=list(extra) + [w] + ([cb] if cb else []))
    return m, w

  def same(a, b, what):
    require(len(a.batches) == len(b.batches), '%s: %s batches, without the callback %s', what, len(b.batches), len(a.batches))
    for k, (u, v) in enumerate(zip(a.batches, b.batches)):
      require(len(u) == len(v) and all(np.array_equal(x, y, equal_nan=True) for x, y in zip(u, v)), '%s: after batch %s the variables differ from training without the callback', what, k + 1)
      ctx.state((ctx.cur, k, tuple(x.tobytes() for x in u)))
    ctx.trans(2 * len(a.batches)); ctx.trace(2)

  def events(d):
    out = []
    for f in sorted(glob.glob(d + '/**/events*', recursive=True)):
      if '/train' in f[len(d):] or '/validation' in f[len(d):]:
        continue
      for e in tf.compat.v1.train.summary_iterator(f):
        for v in e.summary.value:
          out.append((e.step, v.tag, tf.make_ndarray(v.tensor) if v.HasField('tensor') else v.simple_value))
    return out

  def reps(n):
    e, b = ctx.pick((2, 3), (3, 4))
    one = list(itertools.product(range(1, e + 1), range(1, b + 1)))
    out = [(p,) for p in one]
    out += [p for p in itertools.product(one, repeat=2) if ctx.thorough or (p[0][0] * 5 + p[0][1] * 3 + p[1][0] + p[1][1] * 7) % 6 == n % 6]
    if ctx.thorough:
      out += [((2, 1), (1, 2), (2, 3)), ((1, 3), (1, 1), (3, 2))]
    return out

  for (mn, make), freq in itertools.product(PRUNED.items(), ('epoch', 'batch')):
    for plan in reps(len(mn)):
      if not ctx.mine() or ctx.over():
        continue
      with ctx.cell('pruned %s, %s, fit %s' % (mn, freq, plan)):
        d = tempfile.mkdtemp(prefix='p08')
        try:
          _, a = drive(make, plan, extra=[S.UpdatePruningStep()])
          m, b = drive(make, plan, S.PruningSummaries(d, update_freq=freq), extra=[S.UpdatePruningStep()])
          same(a, b, 'pruning summaries')
          ev = [e for e in events(d + '/metrics')]
          want = []
          for it, vals in b.begins:
            for n, v in vals.items():
              short = n.split('/')[-1]
              if short.startswith('mask'):
                want.append((it, n + '/sparsity', 1 - v.mean()))
              elif short.startswith('threshold'):
                want.append((it, n + '/threshold', v))
          key = lambda t: (t[0], t[1])
          ev, want = sorted(ev, key=key), sorted(want, key=key)
          require([key(t) for t in ev] == [key(t) for t in want], 'reported %s, expected %s', [key(t) for t in ev], [key(t) for t in want])
          for x, y in zip(ev, want):
            require(np.allclose(np.asarray(x[2]), y[2], atol=1e-6), '%s at step %s: reported %s, it is %s', x[1], x[0], x[2], y[2])
          ctx.evald(tuple((t[0], t[1], float(t[2])) for t in want), n=len(want))
          ctx.sample({'model': mn, 'plan': plan, 'reported': [(t[0], t[1], float(t[2])) for t in want][:4]})
        finally:
          shutil.rmtree(d, ignore_errors=True)

  for (mn, make), freq in itertools.product(CLUSTERED.items(), ('epoch', 'batch', 1, 2, 3)):
    for plan in reps(len(mn) + len(str(freq))):
      if not ctx.mine() or ctx.over():
        continue
      if not ctx.thorough and freq in (1, 3) and (len(mn) + sum(sum(p) for p in plan)) % 2:
        continue
      with ctx.cell('clustered %s, %s, fit %s' % (mn, freq, plan)):
        d = tempfile.mkdtemp(prefix='p08')
        try:
          _, a = drive(make, plan)
          m, b = drive(make, plan, clustering_callbacks.ClusteringSummaries(d, cluster_update_freq=freq))
          same(a, b, 'clustering summaries')
          ev = [e for e in events(d) if e[1].startswith('clustering/')]
          want, n = [], 0
          for kind, _, lv in b.ends:
            n += kind == 'batch'
            if (kind == 'epoch') if freq == 'epoch' else (kind == 'batch' and n % (1 if freq == 'batch' else freq) == 0):
              for l, vs in zip(m.layers, lv):
                if hasattr(l, 'layer') and hasattr(l.layer, 'get_clusterable_weights') or type(l).__name__.startswith('ClusterWeights') and any('centroid' in v for v in vs):
                  want += [(n, 'clustering/' + v, x) for v, x in vs.items()]
          key = lambda t: (t[0], t[1])
          own = [l for l in m.layers if hasattr(getattr(l, 'layer', None), 'get_clusterable_weights') and l.layer.get_clusterable_weights()]
          names = {'clustering/' + v.name for l in own for v in l.variables}
          want = [t for t in want if t[1] in names]
          ev, want = sorted(ev, key=key), sorted(want, key=key)
          require([key(t) for t in ev] == [key(t) for t in want], 'reported %s, expected %s', [key(t) for t in ev], [key(t) for t in want])
          for x, y in zip(ev, want):
            h, v = np.asarray(x[2]), np.asarray(y[2], np.float64).reshape(-1)
            require(h.ndim == 2 and h.shape[1] == 3 and round(float(h[:, 2].sum())) == v.size, '%s at step %s: histogram of %s entries for %s', x[1], x[0], h[:, 2].sum() if h.ndim == 2 else h, v.size)
            nz = h[h[:, 2] > 0]
            lo, hi = (nz[0, 0], nz[-1, 1]) if len(nz) else (0, 0)
            eps = 1e-4 * (1 + np.abs(v).max()) + (0.51 if v.max() == v.min() else 0)
            require(lo <= v.min() + eps and hi >= v.max() - eps and h[0, 0] >= v.min() - eps and h[-1, 1] <= v.max() + eps, '%s at step %s: histogram from %s to %s, values from %s to %s', x[1], x[0], h[0, 0], h[-1, 1], v.min(), v.max())
            cnt = [((v >= r[0] - 1e-6) & (v <= r[1] + 1e-6)).sum() for r in nz]
            require(all(c >= r[2] for c, r in zip(cnt, nz)), '%s at step %s: histogram %s of values %s', x[1], x[0], nz.tolist(), v.tolist())
          ctx.evald(tuple((t[0], t[1], t[2].tobytes()) for t in want), n=len(want))
        finally:
          shutil.rmtree(d, ignore_errors=True)

  # a directory is required
  for k, bad in enumerate(('', None, 3)):
    if ctx.mine():
      with ctx.cell('log_dir %r' % (bad,)):
        for make in (lambda: S.PruningSummaries(bad), lambda: clustering_callbacks.ClusteringSummaries(log_dir=bad)):
          try:
            make()
          except (ValueError, TypeError):
            ctx.evald(('refused', k))
            continue
          require(False, 'log_dir %r is accepted', bad)
