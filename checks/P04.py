"""P04: pruning histories, explicit-state search over the real training loop."""
import itertools
LEVEL = 'model_checking'
RULE = ('state = every variable of the real compiled model (weights, masks, thresholds, steps, optimizer step) plus '
        'whether fit has begun; transition = one real train/evaluate/predict/callback call, compared with the '
        'reference model; distinct = distinct (event, mask, step) observations')
ASSUME = ['SGD and dense chains; each step is compared from the real state before it, up to float32 rounding',
          'no two magnitudes are closer than float32 can tell apart']
BOUND = {'quick': '18 model/schedule configurations, all histories of up to 7 events over {fit begin, 2 training batches, evaluate, predict, direct call, epoch end}, up to 350 states each',
         'thorough': 'same with more schedules, histories of up to 10 events, up to 3000 states each'}


def run(ctx):
  import numpy as np
  from env import tf, keras, tfmot
  from mc import require
  import bfs, refs
  prune = tfmot.sparsity.keras.prune_low_magnitude
  L = keras.layers
  C, P = tfmot.sparsity.keras.ConstantSparsity, tfmot.sparsity.keras.PolynomialDecay

  # The gradient must depend on the output: with a linear loss TensorFlow itself
  # (also without this library) may run an optimizer step before the forward read.
  def loss_fn(y, out):
    return tf.reduce_sum(tf.square(out - y), axis=[1])

  def close(a, b):
    a, b = np.asarray(a, np.float64), np.asarray(b, np.float64)
    return a.shape == b.shape and bool(np.all(np.abs(a - b) <= 1e-5 * max(1.0, np.abs(b).max())))

  class Spec:
    """Reference of one pruned weight matrix."""

    def __init__(self, sched, block=(1, 1), pool='AVG', mn=None):
      self.sched, self.block, self.pool, self.mn = sched, block, pool, mn

    def tf(self):
      k = self.sched
      s = C(k[1], *k[2:]) if k[0] == 'c' else P(k[1], k[2], k[3], k[4], k[5], k[6])
      d = dict(pruning_schedule=s, block_size=self.block, block_pooling_type=self.pool)
      if self.mn:
        d['sparsity_m_by_n'] = self.mn
      return d

    def update(self, step, w):
      """Mask to install at this step, or None."""
      if self.mn:
        return refs.mn_mask(w, *self.mn) if step == 1 else None
      k = self.sched
      if k[0] == 'c':
        if not refs.due(step, *k[2:]):
          return None
        s = k[1]
      else:
        _, i, f, b, e, pw, fr = k
        if not refs.due(step, b, e, fr):
          return None
        s = refs.poly(step, i, f, b, e, pw)
      if self.block != (1, 1):
        return refs.block_mask(w, s, self.block, self.pool)[0]
      return refs.elem_mask(np.abs(w), s)[0]

  # ---- models.  Each entry: (layers in order, builder).  A layer is
  # ('dense', kernel, bias, Spec or None); chains of dense layers are linear.
  K22 = np.array([[1., -2.], [3., 0.5]], np.float32)
  K32 = np.array([[1., -2.], [3., 0.5], [-0.25, 4.]], np.float32)
  K42 = np.array([[1., -8.], [3., 0.5], [-0.25, 4.], [2., -6.]], np.float32)
  K21 = np.array([[2.], [-1.]], np.float32)

  class Model:
    def __init__(self, layers, batches, lr=1 / 32, nested=False, shared=False):
      self.layers, self.batches, self.lr, self.nested, self.shared = layers, batches, lr, nested, shared
      uses = 2 if shared else 1
      n_in = layers[0][0].shape[0]
      inp = keras.Input((n_in,))
      self.dense = []
      x = inp
      for i, (k, b, spec) in enumerate(layers):
        d = L.Dense(k.shape[1], name='d%d' % i)
        self.dense.append(d)
        lay = prune(d, **spec.tf()) if spec else d
        if nested and i == 1:
          ii = keras.Input((k.shape[0],))
          lay = keras.Model(ii, lay(ii), name='inner')
        x = lay(x)
        if shared and i == 0:
          x = lay(x)
      self.m = keras.Model(inp, x)
      self.m.compile(keras.optimizers.SGD(lr), loss=loss_fn)
      self.uses = [2 if (shared and i == 0) else 1 for i in range(len(layers))]
      for d, (k, b, _) in zip(self.dense, layers):
        d.set_weights([k, b])
      self.cb = tfmot.sparsity.keras.UpdatePruningStep()
      self.cb.set_model(self.m)
      self.wr = [None] * len(layers)
      for w in self.wrappers(self.m):
        self.wr[self.dense.index(w.layer)] = w
      self.vars = []
      for d, w in zip(self.dense, self.wr):
        v = {'kernel': d.kernel, 'bias': d.bias}
        if w is not None:
          for x in w.non_trainable_weights:
            for n in ('mask', 'threshold', 'pruning_step'):
              if x.name.split('/')[-1].startswith(n):
                v[n] = x
          require(set(v) == {'kernel', 'bias', 'mask', 'threshold', 'pruning_step'}, 'wrapper variables %s', sorted(v))
        self.vars.append(v)
      self.infer = tf.function(lambda x: self.m(x, training=False))
      self.eager = lambda x: self.m(x, training=False)

    def wrappers(self, m):
      out = []
      for l in m.layers:
        if isinstance(l, keras.Model):
          out += self.wrappers(l)
        elif hasattr(l, 'layer') and type(l).__name__ == 'PruneLowMagnitude':
          out.append(l)
      return out

    def get(self):
      return tuple(tuple((n, np.array(v[n].numpy(), copy=True)) for n in sorted(v)) for v in self.vars)

    def put(self, st):
      for v, s in zip(self.vars, st):
        for n, a in s:
          v[n].assign(np.array(a, copy=True))  # TensorFlow may alias an array and update it in place

  def key(state):
    st, begun = state
    return begun, tuple((n, a.tobytes()) for s in st for n, a in s)

  def explore(sig, mk, depth, maxst, events):
    with ctx.cell(sig, timeout=600):
      M = mk()
      pruned = [i for i, l in enumerate(M.layers) if l[2]]
      st0 = M.get()
      for i in pruned:
        d = dict(st0[i])
        require(d['pruning_step'] == -1 and np.all(d['mask'] == 1), 'initial step %s, mask %s', d['pruning_step'], d['mask'].tolist())
        require(np.array_equal(d['kernel'], M.layers[i][0]), 'wrapping changed the weights')

      def forward(st, x, y=None):
        """Output, and gradients of the squared error if y is given."""
        acts, seq = [x], []
        for i in range(len(st)):
          for _ in range(M.uses[i]):
            seq.append(i)
        for i in seq:
          acts.append(acts[-1] @ st[i]['kernel'] + st[i]['bias'])
        out = acts[-1]
        g = None if y is None else 2 * (out - y)
        grads = [dict(kernel=np.zeros_like(s['kernel']), bias=np.zeros_like(s['bias'])) for s in st]
        if y is not None:
          for n in range(len(seq) - 1, -1, -1):
            i = seq[n]
            grads[i]['kernel'] = grads[i]['kernel'] + acts[n].T @ g
            grads[i]['bias'] = grads[i]['bias'] + g.sum(0)
            g = g @ st[i]['kernel'].T
        return out, grads

      def step(state, ev, hist):
        st, begun = state
        M.put(st)
        if not begun and M.cb.__dict__.get('prunable_layers'):
          M.cb.prunable_layers = []
        s = [dict((n, a.copy()) for n, a in x) for x in st]  # the reference state

        def mask_all():
          for i in pruned:
            s[i]['kernel'] = s[i]['kernel'] * s[i]['mask']
        if ev == 'begin':
          M.cb.on_train_begin()
          if int(s[pruned[0]]['pruning_step']) == -1:
            for i in pruned:
              s[i]['pruning_step'] = np.int64(0)
          begun = True
        elif ev == 'epoch-end':
          M.cb.on_epoch_end(0)
          mask_all()
        elif ev.startswith('train'):
          x, y = M.batches[int(ev[-1])]
          if int(s[pruned[0]]['pruning_step']) < 0:
            try:
              M.m.train_on_batch(x, y)
              refused = False
            except tf.errors.InvalidArgumentError:
              refused = True
            require(refused, 'history %s: training without the callback was not refused', hist)
            after = M.get()
            for i in pruned:
              require(np.array_equal(dict(after[i])['mask'], s[i]['mask']), 'refused training changed the mask')
            ctx.evald(('refused',))
            return None
          for i in pruned:
            for _ in range(M.uses[i]):
              s[i]['pruning_step'] = s[i]['pruning_step'] + 1
              nm = M.layers[i][2].update(int(s[i]['pruning_step']), s[i]['kernel'])
              if nm is not None:
                s[i]['mask'] = nm.astype(np.float32)
                s[i]['threshold'] = None
              s[i]['kernel'] = s[i]['kernel'] * s[i]['mask']
          out, grads = forward(s, x, y)
          got = M.m.train_on_batch(x, y)
          want = float(np.square(out - y).sum(1).mean())
          require(close(got, want), 'history %s: training loss %r, reference %r: the forward pass did not use the masked weights', hist, got, want)
          n = x.shape[0]
          for i in range(len(s)):
            for w in ('kernel', 'bias'):
              s[i][w] = (s[i][w] - np.float32(M.lr) * grads[i][w] / n).astype(np.float32)
        elif ev in ('evaluate', 'predict', 'call'):
          x, y = M.batches[0]
          mask_all()
          out, _ = forward(s, x)
          if ev == 'evaluate':
            got, want = M.m.test_on_batch(x, y), float(np.square(out - y).sum(1).mean())
          else:
            got, want = (M.m.predict_on_batch(x) if ev == 'predict' else M.eager(tf.constant(x)).numpy()), out
          require(close(got, want), 'history %s: output %s, reference %s', hist, np.asarray(got).tolist(), np.asarray(want).tolist())
        after = M.get()
        for i, (a, b) in enumerate(zip(after, s)):
          a = dict(a)
          for n in sorted(b):
            if b[n] is None:
              continue
            require(close(a[n], b[n]) if n in ('kernel', 'bias') else np.array_equal(a[n], b[n]), 'history %s: layer %d %s is %s, reference says %s', hist, i, n, a[n].tolist(), np.asarray(b[n]).tolist())
          if 'mask' in a:
            ctx.evald((ctx.cur, ev, i, a['mask'].tobytes(), int(a['pruning_step'])))
        if ev == 'epoch-end' and begun:
          for i in pruned:
            a = dict(after[i])
            require(np.all(a['kernel'][a['mask'] == 0] == 0), 'history %s: stored weights are not masked', hist)
        if max(np.abs(a).max() for x in after for n, a in x if n in ('kernel', 'bias')) > 1e4:
          return None  # diverged: rounding errors would no longer be small
        return (after, begun)

      def enabled(state, hist):
        if not state[1]:
          return ['begin', 'train0', 'evaluate', 'predict', 'call'] if len(hist) < 3 else ['begin']
        return events
      n, t, done = bfs.explore(ctx, (st0, False), enabled, step, depth, key, maxst)
      ctx.sample({'config': sig, 'states': n, 'transitions': t})

  x1 = np.array([[1., 0.]], np.float32); y1 = np.array([[1., -1.]], np.float32)
  x2 = np.array([[1., 2.], [0., -1.]], np.float32); y2 = np.array([[0., 4.], [-2., 0.]], np.float32)
  b2 = [(x1, y1), (x2, y2)]
  b3 = [(np.array([[1., 0., 2.]], np.float32), y1), (np.array([[0., -1., 1.], [1., 1., 0.]], np.float32), y2)]
  b4 = [(np.array([[1., 0., 2., -1.]], np.float32), y1), (np.array([[0., -1., 1., 2.], [1., 1., 0., 4.]], np.float32), y2)]
  b21 = [(x1, np.array([[1.]], np.float32)), (x2, np.array([[2.], [-4.]], np.float32))]
  z2 = np.zeros(2, np.float32); z1 = np.ones(1, np.float32); o2 = np.array([1., -1.], np.float32)
  S = Spec
  scheds = [('c', 0.5, 0, -1, 1), ('c', 0.5, 2, 4, 2), ('c', 0.25, 1, -1, 3), ('c', 0.75, 3, 3, 5), ('c', 0.0, 0, -1, 1),
            ('p', 0.25, 0.75, 1, 3, 1, 1), ('p', 0.0, 0.75, 0, 4, 3, 2), ('p', 0.75, 0.25, 2, 5, 1, 1)]
  if ctx.thorough:
    scheds += [('c', 0.5, b, e, f) for b in (0, 1, 2) for e in (-1, 3, 6) for f in (1, 2, 3)]
  ALL = ['train0', 'train1', 'evaluate', 'predict', 'epoch-end', 'begin', 'call']
  cfgs = []
  for sc in scheds:
    cfgs.append(('dense 2x2 %s' % (sc,), lambda sc=sc: Model([(K22, z2, S(sc))], b2)))
  cfgs += [
      ('dense 3x2 block 2x1 MAX', lambda: Model([(K32, o2, S(('c', 0.5, 1, -1, 2), (2, 1), 'MAX'))], b3)),
      ('dense 4x2 block 2x2 AVG', lambda: Model([(K42, o2, S(('p', 0.0, 0.5, 0, 4, 1, 1), (2, 2), 'AVG'))], b4)),
      ('dense 4x2 2:4', lambda: Model([(K42, o2, S(('c', 0.5, 0, -1, 1), mn=(2, 4)))], b4, lr=1 / 64)),
      ('two layers, different schedules', lambda: Model([(K22, z2, S(('c', 0.5, 1, -1, 2))), (K21, z1, S(('c', 0.5, 2, 3, 1)))], b21, lr=1 / 64)),
      ('first layer plain, second pruned', lambda: Model([(K22, z2, None), (K21, z1, S(('c', 0.5, 1, -1, 2)))], b21, lr=1 / 64)),
      ('first layer pruned, second plain', lambda: Model([(K22, z2, S(('p', 0.25, 0.75, 1, 4, 1, 1))), (K21, z1, None)], b21, lr=1 / 64)),
      ('pruned layer inside a nested model', lambda: Model([(K22, z2, S(('c', 0.5, 0, -1, 1))), (K21, z1, S(('c', 0.5, 2, -1, 2)))], b21, lr=1 / 64, nested=True)),
      ('only the nested layer is pruned', lambda: Model([(K22, z2, None), (K21, z1, S(('c', 0.5, 2, -1, 2)))], b21, lr=1 / 64, nested=True)),
      ('layer used twice', lambda: Model([(K22, z2, S(('c', 0.5, 3, 7, 2))), (K21, z1, None)], b21, lr=1 / 1024, shared=True)),
      ('three layers', lambda: Model([(K22, z2, S(('c', 0.5, 1, 2, 1))), (K22, o2, None), (K21, z1, S(('p', 0., 0.5, 0, 3, 1, 3)))], b21, lr=1 / 1024)),
  ]
  for sig, mk in cfgs:
    if ctx.mine() and not ctx.over():
      explore(sig, mk, ctx.pick(7, 10), ctx.pick(350, 3000), ALL)

  # ---- every kind of prunable layer, with learning rate 0 and weights that
  # the environment replaces between batches (an arbitrary optimizer).
  class OwnPrunable(L.Layer, tfmot.sparsity.keras.PrunableLayer):
    def build(self, s):
      self.a = self.add_weight('a', (s[-1], 2)); self.b = self.add_weight('b', (s[-1], 2)); self.c = self.add_weight('c', (3,))
      super().build(s)

    def call(self, x):
      return x @ self.a + x @ self.b + tf.reduce_sum(self.c)

    def get_prunable_weights(self):
      return [self.a, self.c]

  def rnn(cells):
    return L.RNN(cells)
  kinds = [
      ('Conv1D', lambda: L.Conv1D(2, 2), (4, 2), lambda l: [l.kernel]),
      ('Conv2D', lambda: L.Conv2D(2, 2), (3, 3, 1), lambda l: [l.kernel]),
      ('Conv2DTranspose', lambda: L.Conv2DTranspose(2, 2), (2, 2, 1), lambda l: [l.kernel]),
      ('Conv3D', lambda: L.Conv3D(1, 2), (2, 2, 2, 1), lambda l: [l.kernel]),
      ('SeparableConv1D', lambda: L.SeparableConv1D(3, 2), (4, 2), lambda l: [l.pointwise_kernel]),
      ('SeparableConv2D', lambda: L.SeparableConv2D(3, 2), (3, 3, 2), lambda l: [l.pointwise_kernel]),
      ('DepthwiseConv2D', lambda: L.DepthwiseConv2D(2), (3, 3, 2), lambda l: []),
      ('LocallyConnected1D', lambda: L.LocallyConnected1D(2, 2), (4, 2), lambda l: [l.kernel]),
      ('Embedding', lambda: L.Embedding(5, 2), (3,), lambda l: [l.embeddings]),
      ('SimpleRNN', lambda: L.SimpleRNN(2), (3, 2), lambda l: [l.cell.kernel, l.cell.recurrent_kernel]),
      ('GRU', lambda: L.GRU(2), (3, 2), lambda l: [l.cell.kernel, l.cell.recurrent_kernel]),
      ('LSTM', lambda: L.LSTM(2), (3, 2), lambda l: [l.cell.kernel, l.cell.recurrent_kernel]),
      ('stacked RNN cells', lambda: rnn([L.GRUCell(2), L.LSTMCell(1)]), (3, 2), lambda l: [w for c in l.cell.cells for w in (c.kernel, c.recurrent_kernel)]),
      ('BatchNormalization', lambda: L.BatchNormalization(), (3,), lambda l: []),
      ('own layer', lambda: OwnPrunable(), (3,), lambda l: [l.a, l.c]),
      ('MultiHeadAttention', lambda: L.MultiHeadAttention(1, 2), (3, 2), lambda l: [l._query_dense.kernel, l._key_dense.kernel, l._value_dense.kernel, l._output_dense.kernel]),
      ('Dense mixed_float16', lambda: L.Dense(3), (3,), lambda l: [l.kernel]),
  ]
  for name, mk, shape, prunable in kinds:
    if not ctx.mine() or ctx.over():
      continue
    with ctx.cell('layer kind ' + name, timeout=600):
      keras.mixed_precision.set_global_policy('mixed_float16' if 'float16' in name else 'float32')
      lay = mk()
      inp = keras.Input(shape)
      if name == 'MultiHeadAttention':
        lay(inp, inp)  # is pruned after it was built
      w = prune(lay, pruning_schedule=C(0.5, 1, -1, 2))
      x = w(inp, value=inp) if name == 'MultiHeadAttention' else w(inp)
      m = keras.Model(inp, L.Flatten()(x))
      m.compile(keras.optimizers.SGD(0.0), loss='mse')
      cb = tfmot.sparsity.keras.UpdatePruningStep(); cb.set_model(m)
      pw = prunable(lay)
      masks = [v for v in w.non_trainable_weights if v.name.split('/')[-1].startswith('mask')]
      stepv = [v for v in w.non_trainable_weights if v.name.split('/')[-1].startswith('pruning_step')][0]
      require([tuple(v.shape) for v in masks] == [tuple(v.shape) for v in pw], '%d masks of shapes %s for prunable weights of shapes %s', len(masks), [v.shape for v in masks], [v.shape for v in pw])
      own = {id(v) for v in pw + masks + [stepv]}
      others = [v for v in m.trainable_variables if id(v) not in own and not any(v is q for q in pw)]
      raw = lambda v: v._variable if hasattr(v, '_variable') else v
      contents = []
      for k in (3, 5):
        contents.append([np.array([((i * k + 2 * j + 1) % 61 - 30.5) / 8 for i in range(int(np.prod(v.shape)))], np.float32).reshape(v.shape) for j, v in enumerate(pw)])
      rng = np.arange(int(np.prod((2,) + shape)))
      xb = ((rng % 4).reshape((2,) + shape)).astype(np.float32)
      yb = np.zeros(m.predict_on_batch(xb).shape, np.float32)
      cb.on_train_begin()
      require(int(stepv.numpy()) == 0, 'step is %d after train begin', int(stepv.numpy()))
      rd = lambda vs: [np.array(raw(v).numpy(), np.float32, copy=True) for v in vs]
      oth0 = rd(others)
      st0 = (rd(pw), rd(masks), int(stepv.numpy()))

      def step(st, ev, hist):
        for v, a in zip(pw, st[0]):
          raw(v).assign(tf.constant(a, raw(v).dtype))
        for v, a in zip(masks, st[1]):
          raw(v).assign(tf.constant(a, raw(v).dtype))
        stepv.assign(st[2])
        ws, ms, sp = [a.copy() for a in st[0]], [a.copy() for a in st[1]], st[2]
        if ev.startswith('set'):
          ws = [a.copy() for a in contents[int(ev[-1])]]
          return (ws, ms, sp)
        if ev == 'train':
          m.train_on_batch(xb, yb)
          sp += 1
          if refs.due(sp, 1, -1, 2):
            ms = [refs.elem_mask(np.abs(a), 0.5)[0].astype(np.float32) for a in ws]
        elif ev == 'evaluate':
          m.test_on_batch(xb, yb)
        else:
          cb.on_epoch_end(0)
        ws = [a * b for a, b in zip(ws, ms)]
        got = (rd(pw), rd(masks), int(stepv.numpy()))
        require(got[2] == sp, 'history %s: step %d, should be %d', hist, got[2], sp)
        for i in range(len(pw)):
          require(np.array_equal(got[1][i], ms[i]), 'history %s: mask %d is %s, should be %s', hist, i, got[1][i].tolist(), ms[i].tolist())
          require(np.array_equal(got[0][i], ws[i]), 'history %s: weight %d is %s, should be %s', hist, i, got[0][i].tolist(), ws[i].tolist())
        ctx.evald((name, ev, got[2], bfs.arr(got[1])))
        return got
      bfs.explore(ctx, st0, ['train', 'set0', 'set1', 'evaluate', 'epoch-end'], step, ctx.pick(5, 7),
                  lambda s: (bfs.arr(s[0]), bfs.arr(s[1]), s[2]))
      require(all(np.array_equal(a, b) for a, b in zip(oth0, rd(others))), 'weights that are not prunable changed')
    keras.mixed_precision.set_global_policy('float32')

  # ---- the public training loop: fit with the callback, in several calls.
  for plan in itertools.product((1, 2), (1, 2), (1, 3)):
    if not ctx.mine() or ctx.over():
      continue
    with ctx.cell('fit with epochs,batches per epoch,second fit epochs %s' % (plan,)):
      sp = S(('c', 0.5, 2, -1, 3))
      d = L.Dense(2)
      m = keras.Sequential([prune(d, input_shape=(2,), **sp.tf())])
      m.compile(keras.optimizers.SGD(1 / 32), loss=loss_fn)
      d.set_weights([K22.copy(), z2.copy()])
      k, b, mask, stp = K22.copy(), z2.copy(), np.ones((2, 2), np.float32), 0
      e1, nb, e2 = plan
      X = np.concatenate([x2] * nb); Y = np.concatenate([y2] * nb)
      for ep in (e1, e2):
        m.fit(X, Y, batch_size=2, epochs=ep, shuffle=False, verbose=0, callbacks=[tfmot.sparsity.keras.UpdatePruningStep()])
        for _ in range(ep):
          for _ in range(nb):
            stp += 1
            nm = sp.update(stp, k)
            mask = mask if nm is None else nm.astype(np.float32)
            k = k * mask
            g = 2 * (x2 @ k + b - y2) / 2
            k, b = (k - x2.T @ g / 32).astype(np.float32), (b - g.sum(0) / 32).astype(np.float32)
            ctx.trans()
          k = k * mask
        require(close(d.kernel.numpy(), k) and close(d.bias.numpy(), b), 'after fit kernel %s bias %s, reference %s %s', d.kernel.numpy().tolist(), d.bias.numpy().tolist(), k.tolist(), b.tolist())
        require(np.all(d.kernel.numpy()[mask == 0] == 0), 'fit left pruned entries non-zero')
        ctx.evald((plan, ep, mask.tobytes()))
      ctx.trace()
