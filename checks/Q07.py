"""Q07: quantization aware training that preserves sparsity."""
import itertools
LEVEL = 'model_checking'
RULE = ('state = values of all variables; transition = one training batch, inference or assignment of arbitrary values, executed on the '
        'sparsity preserving model and on a plain quantized model whose kernels are masked before the step (the reference); distinct = '
        'distinct (model, state)')
ASSUME = ['SGD for the step by step comparison; further optimizers, regularizers and momentum only for the zero entries', 'single threaded']
BOUND = {'quick': 'dense and 1x1 convolution kernels with every zero pattern of four weights, and some with weights down to 1e-20; every sequence of up to 2 (and some of 3) layers over 6 kinds of layer; 14 further '
                  'graphs; histories of up to 3 of 4 events (2 for larger models); 5 optimizers',
         'thorough': 'histories of up to 4 events (3 for larger models), every sequence of up to 3 layers'}


def run(ctx):
  import numpy as np
  from env import tf, keras, tfmot, snap, restore
  from mc import require
  import bfs
  from qz import L, qw
  from tensorflow_model_optimization.python.core.quantization.keras import quantize as Q
  from tensorflow_model_optimization.python.core.quantization.keras.collab_opts.prune_preserve.default_8bit_prune_preserve_quantize_scheme import Default8BitPrunePreserveQuantizeScheme as Scheme
  qk = tfmot.quantization.keras

  def fill(n, shape, zeros=None):
    size = int(np.prod(shape))
    v = np.array([((7 * i + 5 * n) % 11 - 5.25) / (4 + n % 3) for i in range(size)], np.float32)
    if zeros is not None:
      v[[i for i in range(size) if zeros(i)]] = 0
    return v.reshape(shape)

  third, odd, most, none, every = (lambda i: i % 3 == 0), (lambda i: i % 2 == 1), (lambda i: i % 5 != 2), (lambda i: False), (lambda i: True)

  small = [1.0]  # factor of every second weight

  def load(m, zeros):
    """Gives every kernel its zero pattern: zeros is a list with one entry per layer with weights."""
    zs = list(zeros)
    for n, l in enumerate([l for l in m.layers if l.weights]):
      z = zs[n % len(zs)]
      new = []
      for w in l.weights:
        if 'variance' in w.name:
          new.append(np.abs(fill(n, w.shape)) + 0.5)
        else:
          v = fill(n, w.shape, z if 'kernel' in w.name else None)
          if 'kernel' in w.name:
            v.reshape(-1)[1::2] *= np.float32(small[0])
          new.append(v)
      l.set_weights(new)
    return m

  EV = ('train0', 'train1', 'assign', 'predict')

  class M:
    """A quantized model that is driven step by step."""

    def __init__(self, m, opt=None):
      self.m = m
      m.compile(opt or keras.optimizers.SGD(0.125), loss='mse', run_eagerly=True)
      self.vs = list(m.weights)
      self.x, self.y = [], []
      for j in range(2):
        self.x.append([np.array([((5 * i + 3 * j + k) % 9 - 4.25) / 3 for i in range(2 * int(np.prod(t.shape[1:])))], np.float32).reshape((2,) + tuple(t.shape[1:])) for k, t in enumerate(m.inputs)])
        self.y.append([np.array([((3 * i + j) % 5 - 2) / 2 for i in range(2 * int(np.prod(t.shape[1:])))], np.float32).reshape((2,) + tuple(t.shape[1:])) for t in m.outputs])

    def kernels(self):
      """Indices of the kernels that are to be preserved."""
      out = []
      for l in self.m.layers:
        if isinstance(l, qw.QuantizeWrapper) and type(l.layer) in (L.Dense, L.Conv2D):
          for v in l.weights:
            if v.name.split('/')[-1].startswith('kernel:'):
              out.append([k for k, u in enumerate(self.vs) if u is v][0])
      return out

    def do(self, e):
      if e == 'predict':
        return [np.array(a) for a in tf.nest.flatten(self.m(self.x[1] if len(self.x[1]) > 1 else self.x[1][0], training=False))]
      if e == 'forward':  # training phase without an update
        return [np.array(a) for a in tf.nest.flatten(self.m(self.x[0] if len(self.x[0]) > 1 else self.x[0][0], training=True))]
      j = int(e[-1])
      return self.m.train_on_batch(self.x[j], self.y[j])

  def assign(vs):
    for n, v in enumerate(vs):
      if v.dtype == tf.float32 and v.trainable:
        v.assign(v * np.float32(-0.5) + fill(n + 1, v.shape) * np.float32(0.3) + np.float32(0.05))

  def pair(make, zeros, opt=None):
    keras.backend.clear_session()
    m = load(make(), zeros)
    before = snap(m.weights)
    a = Q.quantize_apply(qk.quantize_annotate_model(m), Scheme())
    b = qk.quantize_model(m)
    for u, v in zip(m.weights, before):
      require(np.array_equal(u.numpy(), v), 'quantizing changes the original weights')
    return M(a, opt), M(b)

  def history(make, zeros, depth, events=EV):
    o, r = pair(make, zeros)
    require(len(o.vs) == len(r.vs) and all(u.shape == v.shape and np.array_equal(u.numpy(), v.numpy()) for u, v in zip(o.vs, r.vs)), 'other variables than plain quantization')
    ks = r.kernels()
    require(ks == o.kernels(), 'kernels %s, %s', o.kernels(), ks)
    masks = {k: (r.vs[k].numpy() != 0).astype(np.float32) for k in ks}
    frozen = [k for k in ks if not r.vs[k].trainable]

    def step(st, e, hist):
      restore(o.vs, st)
      if e == 'assign':
        assign(o.vs)
        return snap(o.vs)
      ref = [s * masks[k] if k in masks else s for k, s in enumerate(st)]
      restore(r.vs, ref)
      a, b = o.do(e), r.do(e)
      require(all(np.allclose(x, y, rtol=1e-4, atol=1e-5) for x, y in zip(np.atleast_1d(a) if np.isscalar(a) else a, np.atleast_1d(b) if np.isscalar(b) else b)),
              'history %s: result %s, of the masked plain model %s', hist, a, b)
      for k, (u, v) in enumerate(zip(o.vs, r.vs)):
        x, y = u.numpy(), v.numpy()
        if k in masks:
          y = np.where(masks[k] != 0, y, st[k])  # where masked no update
        require(np.allclose(x, y, rtol=1e-4, atol=1e-5), 'history %s: %s is %s, expected %s', hist, u.name, x.reshape(-1)[:8].tolist(), y.reshape(-1)[:8].tolist())
        if k in masks and 'assign' not in hist:
          require(not x[masks[k] == 0].any(), 'history %s: zero weights of %s become %s', hist, u.name, x[masks[k] == 0][:8].tolist())
      if e == 'predict':
        return None if False else snap(o.vs)
      return snap(o.vs)
    n, t, full = bfs.explore(ctx, snap(o.vs), list(events), step, depth, key=bfs.arr)
    ctx.evald((ctx.cur, n, t))
    # the weights in use where the model runs: zero where they were zero
    if not frozen:
      return o, r, masks

  # ---- every zero pattern of four weights
  one = {
      'dense': lambda: keras.Sequential([keras.Input((2,)), L.Dense(2)]),
      'dense tanh without bias': lambda: keras.Sequential([keras.Input((2,)), L.Dense(2, activation='tanh', use_bias=False)]),
      'conv': lambda: keras.Sequential([keras.Input((2, 1, 2)), L.Conv2D(2, 1)]),
      'conv, one channel': lambda: keras.Sequential([keras.Input((3, 3, 1)), L.Conv2D(1, 2, activation='relu')]),
      'conv, batch normalization': lambda: keras.Sequential([keras.Input((2, 1, 2)), L.Conv2D(2, 1, use_bias=False), L.BatchNormalization()]),
  }
  for name, make in one.items():
    for bits in range(16):
      if not ctx.mine() or ctx.over():
        continue
      with ctx.cell('%s, zeros %s' % (name, format(bits, '04b'))):
        history(make, [lambda i: bits >> i & 1], ctx.pick(3 if 'conv' not in name else 2, 4 if 'conv' not in name else 3))
    for bits, f in itertools.product((1, 4, 6, 11), (1e-3, 1e-5, 1e-20) if not ctx.thorough else (1e-2, 1e-3, 1e-4, 1e-5, 1e-6, 1e-8, 1e-12, 1e-20, 1e-30)):
      if not ctx.mine() or ctx.over():
        continue
      with ctx.cell('%s, zeros %s, every second weight times %s' % (name, format(bits, '04b'), f)):
        small[0] = f
        try:
          history(make, [lambda i: bits >> i & 1], 2)
        finally:
          small[0] = 1.0
        ctx.sample({'model': name, 'zeros': format(bits, '04b')})

  # ---- sequences of layers, sparse and not
  flat = {
      'sparse dense': (lambda: L.Dense(3), third), 'dense': (lambda: L.Dense(3), none), 'sparse tanh dense': (lambda: L.Dense(2, activation='tanh'), odd),
      'zero dense': (lambda: L.Dense(2), every), 'softmax dense': (lambda: L.Dense(3, activation='softmax'), most), 'sparse relu dense': (lambda: L.Dense(3, activation='relu'), third),
  }
  image = {
      'sparse conv': (lambda: L.Conv2D(2, 2, padding='same'), third), 'conv': (lambda: L.Conv2D(2, 1, activation='relu'), none), 'sparse relu conv': (lambda: L.Conv2D(3, 1, activation='relu', use_bias=False), odd),
      'sparse depthwise': (lambda: L.DepthwiseConv2D(2, padding='same'), third), 'sparse separable': (lambda: L.SeparableConv2D(2, 2, padding='same'), odd), 'almost zero conv': (lambda: L.Conv2D(2, 2), most),
  }
  seqs = []
  for al, shape in ((flat, (3,)), (image, (3, 3, 2))):
    names = list(al)
    for n in (2, 3):
      for c in itertools.product(range(6), repeat=n):
        if n == 3 and not ctx.thorough and sum(k * 7 ** p for p, k in enumerate(c)) % 12:
          continue
        if n == 2 and not ctx.thorough and al is image and (c[0] * 3 + c[1]) % 2:
          continue
        seqs.append((al, shape, [names[k] for k in c]))
  for al, shape, names in seqs:
    if not ctx.mine() or ctx.over():
      continue
    with ctx.cell('%s' % ' - '.join(names)):
      zs = []
      for k in names:
        zs.append(al[k][1])
      history(lambda: keras.Sequential([keras.Input(shape)] + [al[k][0]() for k in names]), zs, ctx.pick(2, 3) if len(names) == 2 else 2, EV if len(names) == 2 else ('train0', 'assign', 'predict'))

  # ---- graphs
  def seq(shape, *ls):
    return lambda: keras.Sequential([keras.Input(shape)] + [l() for l in ls])

  def branches():
    i = keras.Input((3,)); a, b = L.Dense(2)(i), L.Dense(2, activation='tanh')(i)
    return keras.Model(i, [L.Add()([b, a]), L.Dense(2)(a)])

  def diamond():
    i = keras.Input((3, 3, 2)); a, b = L.Conv2D(2, 1)(i), L.Conv2D(2, 2, padding='same', activation='relu')(i)
    return keras.Model(i, L.Dense(2)(L.Flatten()(L.Add()([a, b]))))

  def shared():
    i = keras.Input((3,)); d = L.Dense(3); return keras.Model(i, L.Dense(2)(d(d(i))))

  def twoin():
    i, j = keras.Input((3,)), keras.Input((3,)); d = L.Dense(2); return keras.Model([i, j], L.Add()([d(i), L.Dense(2)(j)]))

  def cat():
    i = keras.Input((3,)); return keras.Model(i, L.Concatenate()([L.Dense(2)(i), L.Dense(3)(i)]))

  def catconv():
    i = keras.Input((2, 2, 2)); return keras.Model(i, L.Concatenate()([L.Conv2D(2, 1)(i), L.Conv2D(1, 1)(i)]))
  conv, bn, relu = (lambda: L.Conv2D(2, 2)), (lambda: L.BatchNormalization()), (lambda: L.ReLU())
  graphs = {
      'branches': branches, 'addition of convolutions': diamond, 'shared': shared, 'two inputs': twoin,
      'conv, batch normalization, relu, dense': seq((3, 3, 2), conv, bn, relu, lambda: L.Flatten(), lambda: L.Dense(2)),
      'conv, batch normalization, relu activation': seq((3, 3, 2), conv, bn, lambda: L.Activation('relu')),
      'depthwise, batch normalization, conv, pooling': seq((3, 3, 2), lambda: L.DepthwiseConv2D(2), bn, conv, lambda: L.MaxPooling2D(1)),
      'dense, dropout, softmax': seq((3,), lambda: L.Dense(3), lambda: L.Dropout(0.0), lambda: L.Dense(2), lambda: L.Softmax()),
      'separable conv, batch normalization, relu': seq((3, 3, 2), lambda: L.SeparableConv2D(2, 2), bn, relu),
      'separable 1d': seq((4, 2), lambda: L.SeparableConv1D(2, 2), lambda: L.Dense(2)),
      'strides and dilation': seq((4, 4, 2), lambda: L.Conv2D(2, 2, strides=2), lambda: L.Conv2D(1, 2, dilation_rate=1, padding='same')),
      'dense, batch normalization': seq((3,), lambda: L.Dense(3), bn, lambda: L.Dense(2)),
      'frozen dense, dense': seq((3,), lambda: L.Dense(3, trainable=False), lambda: L.Dense(2)),
      'conv before relu': seq((3, 3, 2), conv, relu), 'dense before relu': seq((3,), lambda: L.Dense(3), relu), 'conv before relu activation': seq((3, 3, 2), conv, lambda: L.Activation('relu')),
      'dense into concatenation': cat, 'conv into concatenation': catconv,
  }
  for name, make in graphs.items():
    if not ctx.mine() or ctx.over():
      continue
    with ctx.cell(name):
      ev = EV if name not in ('frozen dense, dense', 'shared') else ('train0', 'train1', 'predict')
      history(make, [third, odd, most], ctx.pick(2, 3), ev)
      ctx.sample({'graph': name})

  # ---- a layer that is frozen when quantization is applied and trained afterwards
  if ctx.mine() and not ctx.over():
    with ctx.cell('frozen dense, trained later'):
      o, r = pair(seq((3,), lambda: L.Dense(3, trainable=False), lambda: L.Dense(2)), [third, odd])
      for m in (o, r):
        m.m.layers[1].trainable = True
        m.m.layers[1].layer.trainable = True
        m.m.compile(keras.optimizers.SGD(0.125), loss='mse', run_eagerly=True)
      for k in o.kernels():
        z = o.vs[k].numpy() == 0
        for e in ('train0', 'train1'):
          o.do(e); ctx.trans()
        require(not o.vs[k].numpy()[z].any(), 'zero weights become %s', o.vs[k].numpy()[z])

  # ---- other optimizers, regularization, constraints
  opts = {
      'momentum': lambda: keras.optimizers.SGD(0.125, momentum=0.9, nesterov=True), 'Adam': lambda: keras.optimizers.Adam(0.1), 'RMSprop': lambda: keras.optimizers.RMSprop(0.05),
      'Adagrad': lambda: keras.optimizers.Adagrad(0.1), 'legacy Adam': lambda: keras.optimizers.legacy.Adam(0.1, amsgrad=True),
  }
  regs = {'none': {}, 'l1 and l2': dict(kernel_regularizer=keras.regularizers.l1_l2(0.01, 0.02)), 'constraint': dict(kernel_constraint=keras.constraints.MaxNorm(0.5))}
  for (on, opt), (rn, kw) in itertools.product(opts.items(), regs.items()):
    if not ctx.mine() or ctx.over():
      continue
    with ctx.cell('%s, %s' % (on, rn)):
      o, r = pair(seq((3, 3, 2), lambda: L.Conv2D(2, 2, **kw), lambda: L.Flatten(), lambda: L.Dense(3, **kw)), [third, odd], opt())
      zs = {k: o.vs[k].numpy() == 0 for k in o.kernels()}
      vs = o.vs
      for hist in itertools.product(('train0', 'train1', 'predict'), repeat=ctx.pick(3, 5)):
        for e in hist:
          st = snap(vs)
          o.do(e); ctx.trans()
          for k, z in zs.items():
            require(not vs[k].numpy()[z].any(), '%s of %s: zero weights of %s become %s', e, hist, vs[k].name, vs[k].numpy()[z][:8])
            require(e == 'predict' or not np.array_equal(st[k], vs[k].numpy()), '%s of %s: %s is not trained', e, hist, vs[k].name)
        ctx.trace()
        ctx.state((ctx.cur, bfs.arr(snap(vs))))
