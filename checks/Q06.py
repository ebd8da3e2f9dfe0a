"""Q06: save + restore at every point of quantization-aware training histories."""
import contextlib, itertools, os, re, tempfile
LEVEL = 'model_checking'
RULE = ('state = all variables of the quantized model; transition = one training, inference or weight-assignment event or a save+restore in one of the formats, after which original and '
        'restored model are driven through the same continuations; distinct = distinct (format, model, state) restored')
ASSUME = ['SGD without momentum; restored models are compiled like the original', 'single threaded']
BOUND = {'quick': '35 quantized models x 4 of 9 save formats (rotating); restore points: every state reachable within 2 of 4 events (file formats: 1); continuations of up to 3 events',
         'thorough': '34 models x 9 formats; restore points within 3 events; continuations of 3 events'}


def run(ctx):
  import numpy as np
  from env import tf, keras, tfmot, snap, restore
  from mc import require
  import bfs
  from qz import L, Qz, qw, ql, _q
  from clus import fill
  from tensorflow_model_optimization.python.core.quantization.keras import quantize, quantize_config as qc
  from tensorflow_model_optimization.python.core.quantization.keras.default_8bit import default_8bit_quantize_scheme as s8, default_8bit_quantize_registry as r8, default_8bit_quantize_configs as c8
  from tensorflow_model_optimization.python.core.quantization.keras.experimental.default_n_bit import default_n_bit_quantize_scheme as sn
  from tensorflow_model_optimization.python.core.quantization.keras.collab_opts.prune_preserve import default_8bit_prune_preserve_quantize_scheme as sp
  from tensorflow_model_optimization.python.core.quantization.keras.collab_opts.cluster_preserve import default_8bit_cluster_preserve_quantize_scheme as sc
  ann, apply = tfmot.quantization.keras.quantize_annotate_layer, tfmot.quantization.keras.quantize_apply

  class Custom(qc.QuantizeConfig):
    """Quantizes named attributes with configurable quantizers."""

    def __init__(self, weights=(), activations=(), outputs=()):
      self.w, self.a, self.o = [list(map(lambda p: list(p) if isinstance(p, (list, tuple)) else p, x)) for x in (weights, activations, outputs)]

    @staticmethod
    def make(p):
      return getattr(_q, p[0])(**p[1])

    def get_weights_and_quantizers(self, layer):
      return [(getattr(layer, n), self.make(p)) for n, p in self.w]

    def get_activations_and_quantizers(self, layer):
      return [(getattr(layer, n), self.make(p)) for n, p in self.a]

    def set_quantize_weights(self, layer, ws):
      for (n, _), w in zip(self.w, ws):
        setattr(layer, n, w)

    def set_quantize_activations(self, layer, acts):
      for (n, _), a in zip(self.a, acts):
        setattr(layer, n, a)

    def get_output_quantizers(self, layer):
      return [self.make(p) for p in self.o]

    def get_config(self):
      return {'weights': self.w, 'activations': self.a, 'outputs': self.o}

  objs = {'Custom': Custom}
  from tf_keras.src.saving.serialization_lib import SafeModeScope

  @contextlib.contextmanager
  def scope():
    with SafeModeScope(False), quantize.quantize_scope(objs):  # separable convolutions are rewritten with Lambda layers
      yield

  def load(m, variant=0, sparse=False, clustered=False):
    k = 0
    for l in m.layers:
      new = []
      for w in l.get_weights():
        k += 1
        v = fill(k + 2 * variant, w.shape) + np.float32(0.01 * k)
        if clustered and w.ndim > 1:
          v = np.float32([0, -0.5, 0.75])[np.arange(v.size) % 3].reshape(v.shape)
        elif sparse and w.ndim > 1:
          v.reshape(-1)[::3] = 0
        new.append(np.abs(v) + 0.1 if isinstance(l, L.BatchNormalization) else v)
      l.set_weights(new)
    return m

  S = keras.Sequential

  def seq(*ls, shape=(4,)):
    return lambda: S([keras.Input(shape)] + [f() for f in ls])
  D = lambda n=2, **k: lambda: L.Dense(n, **k)
  C = lambda n=2, **k: lambda: L.Conv2D(n, 2, **k)

  def branches():
    i = keras.Input((4,)); a, b = L.Dense(3)(i), L.Dense(3, activation='tanh')(i)
    return keras.Model(i, [L.Add()([b, a]), L.Concatenate()([L.ReLU()(a), b])])

  def two_inputs():
    i, j = keras.Input((4,)), keras.Input((4,))
    return keras.Model([j, i], L.Concatenate()([L.Dense(2)(i), L.Dense(2, activation='relu')(j)]))

  def dict_inputs():
    i, j = keras.Input((4,), name='i'), keras.Input((4,), name='j')
    return keras.Model({'i': i, 'j': j}, L.Add()([L.Dense(2)(i), L.Dense(2)(j)]))
  img = (3, 3, 2)
  bases = {
      'dense': seq(D(3, activation='relu'), D()), 'dense without bias': seq(D(3, use_bias=False), D(activation='softmax')), 'dense, batch norm, relu': seq(D(3), L.BatchNormalization, L.ReLU),
      'conv': seq(C(activation='relu'), L.Flatten, D(), shape=img), 'conv, batch norm': seq(C(), L.BatchNormalization, L.ReLU, shape=img), 'conv, relu, pool': seq(C(), L.ReLU, lambda: L.AveragePooling2D(2), shape=img),
      'depthwise': seq(lambda: L.DepthwiseConv2D(2), L.BatchNormalization, shape=img), 'transposed': seq(lambda: L.Conv2DTranspose(3, 2), shape=img), 'separable': seq(lambda: L.SeparableConv2D(3, 2), L.ReLU, shape=img),
      'separable 1d': seq(lambda: L.SeparableConv1D(2, 2), shape=(4, 2)), 'activations': seq(D(activation='tanh'), lambda: L.Activation('relu'), L.Softmax, lambda: L.LeakyReLU()), 'shapes': seq(C(), lambda: L.ZeroPadding2D(1), L.MaxPooling2D, L.Flatten, lambda: L.Reshape((2, -1)), shape=img),
      'branches': branches, 'two inputs': two_inputs, 'dictionary of inputs': dict_inputs,
  }

  def default(base, variant=0):
    return quantize.quantize_model(load(bases[base](), variant))

  def scheme(base, sch, variant=0, **kw):
    m = load(bases[base](), variant, **kw)
    return apply(tfmot.quantization.keras.quantize_annotate_model(m), sch())

  def frozen(variant=0):
    m = load(bases['conv'](), variant)
    m.layers[0].trainable = False
    return quantize.quantize_model(m)

  def partial(variant=0):
    m = S([keras.Input((4,)), L.Dense(3, activation='relu'), ann(L.Dense(2, activation='tanh')), L.Dense(2)])
    return apply(load(m, variant))

  def partial_conv(variant=0):
    m = S([keras.Input(img), L.Conv2D(2, 2), L.ReLU(), ann(L.Flatten()), L.Dense(2)])
    return apply(load(m, variant))

  def custom(w, a, o, layer=lambda: L.Dense(3, activation='relu'), shape=(4,)):
    def f(variant=0):
      m = S([keras.Input(shape), ann(layer(), Custom(w, a, o)), L.Dense(2)])
      return apply(load(m, variant))
    return f
  q = lambda c, b=8, **k: (c + 'Quantizer', dict({'num_bits': b, 'per_axis': False, 'symmetric': False, 'narrow_range': False} if c != 'Fixed' else {'num_bits': b, 'init_min': -1.0, 'init_max': 2.0, 'narrow_range': False}, **k))

  def fixed(variant=0):
    return quantize.fix_input_output_range(default('dense', variant), num_bits=4, input_min=-1.0, input_max=1.0, output_min=-2.0, output_max=2.0)

  def removed(variant=0):
    return quantize.remove_input_range(default('dense', variant))

  def inner(variant=0):
    cfg = qc.FixedQuantizeConfig(r8.Default8BitQuantizeConfig(['kernel'], ['activation'], False), 5, -1.0, 1.5, True)
    return apply(load(S([keras.Input((4,)), ann(L.Dense(3), cfg), ann(L.ReLU(), qc.OutputOnlyConfig(r8.Default8BitQuantizeConfig([], [], True)))]), variant))

  def shipped(variant=0):
    m = S([keras.Input((4, 2)), ann(L.LSTM(2), r8.Default8BitQuantizeConfigRNN([['kernel', 'recurrent_kernel']], [['activation', 'recurrent_activation']], False)), ann(L.Dense(2), c8.Default8BitOutputQuantizeConfig())])
    return apply(load(m, variant))

  def into_concat(variant=0):
    i = keras.Input((4,))
    a = ann(L.Dense(3), qc.OutputOnlyConfig(r8.Default8BitQuantizeConfig([], [], True)))(i)
    b = ann(L.Dense(2))(i)
    return apply(load(keras.Model(i, ann(L.Concatenate())([a, b])), variant))

  configs = {b: (lambda variant=0, b=b: default(b, variant)) for b in bases}
  nb = lambda w, a: lambda: sn.DefaultNBitQuantizeScheme(num_bits_weight=w, num_bits_activation=a)
  for b, w, a in (('dense', 4, 4), ('conv', 4, 8), ('conv, batch norm', 8, 4), ('transposed', 4, 5), ('branches', 2, 3), ('activations', 3, 2), ('separable', 4, 8)):
    configs['%s, %d and %d bits' % (b, w, a)] = lambda variant=0, b=b, w=w, a=a: scheme(b, nb(w, a), variant)
  for b in ('conv', 'depthwise'):
    configs[b + ', per tensor'] = lambda variant=0, b=b: scheme(b, lambda: s8.Default8BitQuantizeScheme(disable_per_axis=True), variant)
  configs.update({
      'frozen': frozen, 'partly annotated': partial, 'partly annotated conv': partial_conv, 'fixed ranges': fixed, 'without input range': removed, 'fixed and output only': inner, 'rnn and output config': shipped, 'output only before a concatenation': into_concat,
      'custom last, all, fixed': custom([('kernel', q('LastValue', 4, symmetric=True))], [('activation', q('AllValues', 6))], [q('Fixed', 5)]),
      'custom moving, fixed, moving': custom([('kernel', q('MovingAverage', 8, narrow_range=True)), ('bias', q('LastValue', 6))], [('activation', q('Fixed', 4, narrow_range=True))], [q('MovingAverage', 3)]),
      'custom all, last, all per axis': custom([('kernel', q('AllValues', 5, per_axis=True))], [('activation', q('LastValue', 7))], [q('AllValues', 4)], lambda: L.Conv2D(2, 2, activation='tanh'), img),
      'custom outputs only': custom([], [], [q('LastValue', 4)]), 'custom nothing': custom([], [], []),
      'NoQuantizer': custom([('kernel', ('NoQuantizer', {}))], [('activation', ('NoQuantizer', {}))], []),
  })
  preserving = {
      'dense, sparsity preserving': lambda variant=0: scheme('dense', sp.Default8BitPrunePreserveQuantizeScheme, variant, sparse=True),
      'conv, sparsity preserving': lambda variant=0: scheme('conv', sp.Default8BitPrunePreserveQuantizeScheme, variant, sparse=True),
      'dense, cluster preserving': lambda variant=0: scheme('dense', lambda: sc.Default8BitClusterPreserveQuantizeScheme(False), variant, clustered=True),
      'dense, sparsity and cluster preserving': lambda variant=0: scheme('dense', lambda: sc.Default8BitClusterPreserveQuantizeScheme(True), variant, clustered=True),
  }
  configs.update(preserving)
  deep_ones = ('dense', 'conv, batch norm', 'branches', 'custom moving, fixed, moving', 'dense, 4 and 4 bits')

  class M:
    def __init__(self, m):
      self.m = m
      m.compile(keras.optimizers.SGD(0.25, clipvalue=0.5), loss='mse', run_eagerly=True)
      self.x, self.y = [], []
      for j in range(2):
        xs = [np.array([((k * (3 + j) + k * k + j + n) % 7 - 3) / (2 - j) for k in range(2 * int(np.prod(t.shape[1:])))], np.float32).reshape((2,) + tuple(t.shape[1:])) for n, t in enumerate(m.inputs)]
        self.x.append({t.name: x for t, x in zip(m.inputs, xs)} if isinstance(m.input, dict) else xs if len(xs) > 1 else xs[0])
        ys = [np.array([((k * 5 + j) % 3) - 1 for k in range(2 * int(np.prod(o.shape[1:])))], np.float32).reshape((2,) + tuple(o.shape[1:])) for o in m.outputs]
        self.y.append(ys if len(ys) > 1 else ys[0])

    def ev(self, e):
      if e == 'assign':
        for n, v in enumerate(self.m.trainable_variables):
          if 'centroids' not in v.name and 'ori_weights' not in v.name:
            v.assign(v * np.float32(-0.75) + np.float32(0.1) * fill(n, v.shape))
      elif e == 'predict':
        return [np.array(a).tolist() for a in tf.nest.flatten(self.m.predict_on_batch(self.x[1]))]
      else:
        return self.m.train_on_batch(self.x[int(e[-1])], self.y[int(e[-1])])

    def vars(self):
      return list(self.m.weights)

    def settings(self):
      out = []
      for l in self.m.layers:
        if isinstance(l, qw.QuantizeWrapper):
          c = l.quantize_config
          ws, acts, outs = [x for _, x, _ in l._weight_vars], [x.quantizer for x in l._quantize_activations], list(l._output_quantizers or [])
          out.append((re.sub(r'_\d+$', '', l.name), type(l.layer).__name__, type(c).__name__) + tuple(tuple((type(x).__name__, sorted(x.get_config().items())) for x in xs) for xs in (ws, acts, outs)))
        elif isinstance(l, ql.QuantizeLayer):
          out.append((re.sub(r'_\d+$', '', l.name), l.quantizer and (type(l.quantizer).__name__, sorted(l.quantizer.get_config().items()))))
        else:
          out.append((re.sub(r'_\d+$', '', l.name), type(l).__name__))
      return out, [v.name.split('/')[-1] for v in self.m.trainable_variables]

  def files(tag):
    return os.path.join(tempfile.mkdtemp(prefix='q06_', dir=os.environ.get('MC_TMP')), tag)

  def build(mk, variant=0):
    keras.backend.reset_uids()
    with scope():
      return mk(variant)

  def fresh(mk):
    return M(build(mk, 1))

  def by_config(mk, o, r=None):
    if r is None:
      with scope():
        r = M(type(o.m).from_config(o.m.get_config()))
    r.m.set_weights(o.m.get_weights())
    return r

  def by_json(mk, o, r=None):
    if r is None:
      with scope():
        r = M(keras.models.model_from_json(o.m.to_json()))
    r.m.set_weights(o.m.get_weights())
    return r

  def by_clone(mk, o, r=None):
    with scope():
      m = keras.models.clone_model(o.m)
    m.set_weights(o.m.get_weights())
    return M(m)

  def file_format(ext, **kw):
    def f(mk, o, r=None):
      path = files('m' + ext)
      keras.models.save_model(o.m, path, **dict(kw, **({'include_optimizer': False} if ext == '.h5' else {})))
      with scope():
        return M(keras.models.load_model(path))
    return f

  def weights_format(ext, **kw):
    def f(mk, o, r=None):
      path = files('w' + ext)
      o.m.save_weights(path, **kw)
      r = r or fresh(mk)
      r.m.load_weights(path)
      return r
    return f

  def by_checkpoint(mk, o, r=None):
    path = tf.train.Checkpoint(model=o.m, optimizer=o.m.optimizer).save(files('ckpt'))
    r = r or fresh(mk)
    tf.train.Checkpoint(model=r.m, optimizer=r.m.optimizer).restore(path).expect_partial()
    return r

  formats = {
      'configuration': by_config, 'h5 file': file_format('.h5'), 'h5 weights': weights_format('.h5'),
      'json': by_json, 'tf weights': weights_format('', save_format='tf'), 'keras file': file_format('.keras'),
      'clone': by_clone, 'checkpoint': by_checkpoint, 'SavedModel': file_format('', save_format='tf'),
  }
  cheap = ('configuration', 'json', 'h5 weights', 'tf weights', 'checkpoint')
  EV = ['train0', 'train1', 'assign', 'predict']

  def same(a, b, what):
    va, vb = a.vars(), b.vars()
    require(len(va) == len(vb), '%s: %d variables against %d', what, len(va), len(vb))
    for v, w in zip(va, vb):
      x, y = v.numpy(), w.numpy()
      require(x.shape == y.shape and np.array_equal(x, y), '%s: %s is %s, in the restored model %s', what, v.name, x.reshape(-1)[:8].tolist(), y.reshape(-1)[:8].tolist())
    return bfs.arr(snap(va))

  def equal(a, b):
    fa, fb = tf.nest.flatten(a), tf.nest.flatten(b)
    return len(fa) == len(fb) and all(u is v or np.allclose(u, v, rtol=1e-5, atol=1e-6) for u, v in zip(fa, fb))

  for ci, (cname, mk) in enumerate(configs.items()):
    for fi, (fname, fmt) in enumerate(formats.items()):
      if cname in preserving:
        if fname not in ('configuration', 'h5 file', 'h5 weights', 'checkpoint'):
          continue
      elif not ctx.thorough and (fi + ci) % 3 and not os.environ.get('Q06ALL') and not (cname in deep_ones and fname in cheap[:1]):
        continue
      if not ctx.mine() or ctx.over():
        continue
      with ctx.cell('%s via %s' % (cname, fname), timeout=600):
        o = M(build(mk))
        deep = cname in deep_ones or ctx.thorough
        points = [[]] + [list(h) for d in range(1, ctx.pick(2, 3) + (1 if cname == 'dense' else 0) if deep else 2) for h in itertools.product(EV, repeat=d)]
        if fname not in cheap:
          points = [['train0', 'assign', 'train1']] + ([[], ['assign', 'train1']] if ctx.thorough else [])
        elif not deep:
          points.append(['train0', 'assign', 'train1'])
        init, r = snap(o.vars()), None
        for hist in points:
          restore(o.vars(), init)
          for e in hist:
            o.ev(e); ctx.trans()
          r = fmt(mk, o, r if fname in cheap else None)
          require(r.m is not o.m, 'not a copy')
          k = same(o, r, 'history %s' % hist)
          ctx.state((ctx.cur, k)); ctx.evald((ctx.cur, k))
          require(o.settings() == r.settings(), 'settings %s, in the restored model %s', o.settings(), r.settings())
          st = snap(o.vars())
          last = hist in points[-1:]
          conts = list(itertools.product(EV, repeat=ctx.pick(2, 3))) if deep and last else [('predict', 'train1', 'train0')[:2 if len(hist) > 1 and not last else 3]]
          if last:
            conts += [('train0', 'predict')]
          for cont in conts:
            restore(o.vars(), st); restore(r.vars(), st)
            for n, e in enumerate(cont):
              a, b = o.ev(e), r.ev(e)
              ctx.trans()
              require(equal(a, b), 'history %s then %s: %s returns %r, in the restored model %r', hist, cont[:n], e, a, b)
              for u, v in zip(o.vars(), r.vars()):
                require(np.allclose(u.numpy(), v.numpy(), rtol=1e-4, atol=1e-6), 'history %s then %s: %s becomes %s, in the restored model %s', hist, cont[:n + 1], u.name, u.numpy().ravel()[:6], v.numpy().ravel()[:6])
              restore(r.vars(), snap(o.vars()))  # rounding does not add up
              ctx.state((ctx.cur, bfs.arr(snap(o.vars()))))
            ctx.trace()
        ctx.sample({'model': cname, 'format': fname, 'restore points': len(points)})
