"""C06: save + restore at every point of clustering histories."""
import itertools, os, tempfile
LEVEL = 'model_checking'
RULE = ('state = all variables of the clustered model; transition = one training, evaluation or weight-assignment event or a '
        'save+restore in one of the formats, after which original and restored model are driven through the same '
        'continuations; distinct = distinct (format, model, state) restored')
ASSUME = ['SGD without momentum; restored models are compiled like the original', 'single threaded']
BOUND = {'quick': '30 clustered models x 3 of 9 save formats (rotating); restore points: every state reachable within 3 of 4 events (file formats: 2 of them); continuations of up to 3 events',
         'thorough': '30 models x 9 formats; restore points within 4 events; continuations of 4 events'}


def run(ctx):
  import numpy as np
  from env import tf, keras, tfmot, snap, restore
  from mc import require
  import bfs
  from clus import L, CI, GA, KINDS, cluster_weights, strip, is_wrap, fill, Own
  scope = tfmot.clustering.keras.cluster_scope
  objs = {'Own': Own}

  def one(kind, **kw):
    make, shape, call = KINDS[kind]

    def mk(variant=0):
      keras.backend.reset_uids()
      i = keras.Input(shape)
      l = make()
      m = keras.Model(i, call(l, i) if call else l(i))
      return load(m, variant, kw.get('preserve_sparsity')), kw
    return mk

  def load(m, variant, sparse=False):
    k = 0
    for l in m.layers:
      new = []
      for w in l.get_weights():
        k += 1
        v = fill(k + 2 * variant, w.shape) + np.float32(0.01 * k)
        if sparse:
          v.reshape(-1)[variant::3] = 0
        new.append(np.abs(v) + 0.1 if isinstance(l, L.BatchNormalization) else v)
      l.set_weights(new)
    return m

  def graph(f, **kw):
    def mk(variant=0):
      keras.backend.reset_uids()
      return load(f(), variant, kw.get('preserve_sparsity')), kw
    return mk

  def seq2():
    return keras.Sequential([L.Dense(3, input_shape=(4,), activation='tanh'), L.Dense(2)])

  def conv():
    return keras.Sequential([L.Conv2D(3, 2, input_shape=(3, 3, 2)), L.BatchNormalization(), L.ReLU(), L.Flatten(), L.Dense(2)])

  def branches():
    i = keras.Input((4,)); a, b = L.Dense(2)(i), L.Dense(2, activation='tanh')(i)
    return keras.Model(i, [L.Subtract()([b, a]), L.Dense(2)(a)])

  def nested():
    return keras.Sequential([keras.Sequential([L.Dense(3, input_shape=(4,), activation='tanh')]), L.Dense(2)])

  def shared():
    i = keras.Input((4,)); d = L.Dense(4, activation='tanh'); return keras.Model(i, d(d(i)))
  P = dict(number_of_clusters=3, cluster_centroids_init=CI.LINEAR)
  A = dict(P, cluster_gradient_aggregation=GA.AVG)
  Z = dict(number_of_clusters=3, cluster_centroids_init=CI.DENSITY_BASED, preserve_sparsity=True)
  configs = {}
  for n, kind in enumerate(KINDS):
    configs[kind] = one(kind, **[P, A, dict(P, cluster_centroids_init=CI.KMEANS_PLUS_PLUS, number_of_clusters=2)][n % 3])
  configs.update({
      'Dense, sparse': one('Dense', **Z), 'LSTM, sparse': one('LSTM', **Z),
      'Conv2D per channel': one('Conv2D', cluster_per_channel=True, **P), 'Conv2D per channel AVG': one('Conv2D', cluster_per_channel=True, **A),
      'Conv2D per channel, sparse': one('Conv2D', cluster_per_channel=True, **Z),
      'two layers': graph(seq2, **P), 'conv model': graph(conv, **A), 'conv model, sparse': graph(conv, **Z), 'branches': graph(branches, **P), 'nested': graph(nested, **P), 'shared': graph(shared, **A),
  })
  deep_ones = ('Dense', 'Dense, sparse', 'Conv2D per channel', 'LSTM', 'two layers', 'own layer')

  class M:
    def __init__(self, m):
      self.m = m
      m.compile(keras.optimizers.SGD(0.25, clipvalue=0.5), loss='mse', run_eagerly=True)
      self.x, self.y = [], []
      for j in range(2):
        sh = (2,) + tuple(m.inputs[0].shape[1:])
        x = np.array([((k * (3 + j) + k * k + j) % 7 - 3) / 2 for k in range(int(np.prod(sh)))], np.float32).reshape(sh)
        if any(isinstance(getattr(l, 'layer', l), L.Embedding) for l in m.layers):
          x = np.abs(x * 2) % 4
        self.x.append(x)
        ys = [np.array([((k * 5 + j) % 3) - 1 for k in range(2 * int(np.prod(o.shape[1:])))], np.float32).reshape((2,) + tuple(o.shape[1:])) for o in m.outputs]
        self.y.append(ys if len(ys) > 1 else ys[0])

    def ev(self, e):
      if e == 'assign':
        for n, v in enumerate(self.vars()):
          if v.dtype == tf.float32 and 'original' not in v.name and 'sparsity_mask' not in v.name and 'centroids' not in v.name and 'variance' not in v.name:
            v.assign(v * np.float32(-0.75) + np.float32(0.1) * fill(n, v.shape))
      elif e == 'evaluate':
        return self.m.test_on_batch(self.x[0], self.y[0])
      elif e == 'predict':
        return [np.array(a).tolist() for a in tf.nest.flatten(self.m.predict_on_batch(self.x[1]))]
      else:
        return self.m.train_on_batch(self.x[int(e[-1])], self.y[int(e[-1])])

    def vars(self):
      return list(self.m.weights)

    def wraps(self):
      out = []

      def rec(m):
        for l in m.layers:
          if is_wrap(l):
            out.append(l)
          elif isinstance(l, keras.Model):
            rec(l)
      rec(self.m)
      return out

    def extra(self):
      """The weights the layers compute with."""
      return [np.array(w.get_weight_from_layer(n)) for w in self.wraps() for n in sorted(w.cluster_centroids)]

    def settings(self):
      out = []
      for w in self.wraps():
        c = w.get_config()
        out.append((w.name,) + tuple(str(c[k]) for k in ('number_of_clusters', 'cluster_centroids_init', 'preserve_sparsity', 'cluster_gradient_aggregation', 'cluster_per_channel')) + (tuple(sorted(w.cluster_centroids)),))
      return out

  def files(tag):
    return os.path.join(tempfile.mkdtemp(prefix='c06_', dir=os.environ.get('MC_TMP')), tag)

  def fresh(mk):
    m, kw = mk(1)
    return M(cluster_weights(m, **kw))

  def by_config(mk, o, r=None):
    if r is None:
      with scope(), keras.utils.custom_object_scope(objs):
        r = M(type(o.m).from_config(o.m.get_config()))
    r.m.set_weights(o.m.get_weights())
    return r

  def by_json(mk, o, r=None):
    if r is None:
      with scope(), keras.utils.custom_object_scope(objs):
        r = M(keras.models.model_from_json(o.m.to_json()))
    r.m.set_weights(o.m.get_weights())
    return r

  def by_clone(mk, o, r=None):
    with scope(), keras.utils.custom_object_scope(objs):
      m = keras.models.clone_model(o.m)
    m.set_weights(o.m.get_weights())
    return M(m)

  def file_format(ext, **kw):
    def f(mk, o, r=None):
      path = files('m' + ext)
      keras.models.save_model(o.m, path, **kw)
      with scope(), keras.utils.custom_object_scope(objs):
        return M(keras.models.load_model(path))
    return f

  def weights_format(ext, **kw):
    def f(mk, o, r=None):
      path = files('w' + ext)
      o.m.save_weights(path, **kw)
      r = r or fresh(mk)
      r.m.load_weights(path)
      return r
    return f

  def by_checkpoint(mk, o, r=None):
    path = tf.train.Checkpoint(model=o.m, optimizer=o.m.optimizer).save(files('ckpt'))
    r = r or fresh(mk)
    tf.train.Checkpoint(model=r.m, optimizer=r.m.optimizer).restore(path).expect_partial()
    return r

  formats = {
      'configuration': by_config, 'h5 file': file_format('.h5'), 'h5 weights': weights_format('.h5'),
      'json': by_json, 'tf weights': weights_format('', save_format='tf'), 'keras file': file_format('.keras'),
      'clone': by_clone, 'checkpoint': by_checkpoint, 'SavedModel': file_format('', save_format='tf'),
  }
  cheap = ('configuration', 'json', 'h5 weights', 'tf weights', 'checkpoint')
  EV = ['train0', 'train1', 'assign', 'predict']

  def same(a, b, what):
    va, vb = a.vars(), b.vars()
    require(len(va) == len(vb), '%s: %d variables against %d', what, len(va), len(vb))
    for v, w in zip(va, vb):
      x, y = v.numpy(), w.numpy()
      require(x.shape == y.shape and np.array_equal(x, y), '%s: %s is %s, in the restored model %s', what, v.name, x.reshape(-1)[:8].tolist(), y.reshape(-1)[:8].tolist())
    return bfs.arr(snap(va))

  def equal(a, b):
    fa, fb = tf.nest.flatten(a), tf.nest.flatten(b)
    return len(fa) == len(fb) and all(u is v or np.allclose(u, v, rtol=1e-5, atol=1e-6) for u, v in zip(fa, fb))

  for ci, (cname, mk) in enumerate(configs.items()):
    for fi, (fname, fmt) in enumerate(formats.items()):
      if not ctx.thorough and fi // 3 != ci % 3 and not (cname in deep_ones and fname in cheap[:1]):
        continue
      if not ctx.mine() or ctx.over():
        continue
      with ctx.cell('%s via %s' % (cname, fname), timeout=600):
        plain, kw = mk()
        o = M(cluster_weights(plain, **kw))
        deep = cname in deep_ones or ctx.thorough
        points = [[]] + [list(h) for d in range(1, ctx.pick(3, 4) if deep else 2) for h in itertools.product(EV, repeat=d)]
        if fname not in cheap:
          points = [['train0', 'train1', 'assign']] + ([[], ['assign', 'train1']] if ctx.thorough else [])
        init, r = snap(o.vars()), None
        for hist in points:
          restore(o.vars(), init)
          for e in hist:
            o.ev(e); ctx.trans()
          r = fmt(mk, o, r if fname in cheap else None)
          require(r.m is not o.m, 'not a copy')
          k = same(o, r, 'history %s' % hist)
          ctx.state((ctx.cur, k)); ctx.evald((ctx.cur, k))
          require(o.settings() == r.settings() and len(o.settings()) > 0, 'settings %s, in the restored model %s', o.settings(), r.settings())
          st = snap(o.vars())
          last = hist in points[-1:]
          conts = list(itertools.product(EV, repeat=ctx.pick(2, 3))) if deep and last else [('predict', 'train1', 'train0')[:2 if len(hist) > 1 else 3]]
          for cont in conts:
            restore(o.vars(), st); restore(r.vars(), st)
            for n, e in enumerate(cont):
              s = snap(o.vars())
              a, b = o.ev(e), r.ev(e)
              ctx.trans()
              require(equal(a, b), 'history %s then %s: %s returns %r, in the restored model %r', hist, cont[:n], e, a, b)
              require(all(np.allclose(u.numpy(), v.numpy(), rtol=1e-4, atol=1e-6) for u, v in zip(o.vars(), r.vars())), 'history %s then %s: variables differ', hist, cont[:n + 1])
              restore(r.vars(), snap(o.vars()))  # rounding does not add up
              if e != 'assign':
                for u, v in zip(o.extra(), r.extra()):
                  require(np.allclose(u, v, rtol=1e-5, atol=1e-6), 'history %s then %s: weights in use %s, in the restored model %s', hist, cont[:n + 1], u.reshape(-1)[:8], v.reshape(-1)[:8])
              ctx.state((ctx.cur, bfs.arr(snap(o.vars()))))
            ctx.trace()
          restore(o.vars(), st); restore(r.vars(), st)
          if last:
            x = o.x[0]
            o.m.predict_on_batch(x); r.m.predict_on_batch(x)
            so, sr = strip(o.m), strip(r.m)
            for u, v in zip(so.weights, sr.weights):
              require(np.allclose(u.numpy(), v.numpy(), atol=1e-6), 'stripped models differ in %s', u.name)
            require(equal(so.predict_on_batch(x), sr.predict_on_batch(x)), 'stripped models compute differently')
        ctx.sample({'model': cname, 'format': fname, 'restore points': len(points)})
