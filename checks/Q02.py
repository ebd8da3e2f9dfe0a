"""Q02: ranges of quantizers over all histories of training and inference batches."""
import itertools
LEVEL = 'model_checking'
RULE = 'state = all range variables; transition = one training or inference batch passed through the real quantizer, layer or model'
ASSUME = ['ranges are compared up to float32 rounding, each transition starts from the state of the implementation']
BOUND = {'quick': '3 tracked quantizers x symmetric x narrow x per axis, alone (depth 4, 9 events) and inside QuantizeLayer, a quantized Dense, Conv2D, activation layers and models (depth 3), eager, in graphs and with the training flag given in 4 ways',
         'thorough': 'depth 5 and 4'}


def run(ctx):
  import numpy as np
  from env import tf, keras, tfmot, snap, restore
  from mc import require
  import bfs, qz
  from qz import Last, Moving, All, L
  B = [[0.0, 0.0, 0.0, 0.0], [-2.0, 1.0, 0.5, -0.25], [3.0, 0.5, 1.0, 7.0], [-0.5, -9.0, -0.125, -1.0], [0.25, -0.5, 20.0, 0.0]]
  B = [np.array(b, np.float32) for b in B]
  EV = ['T%d' % i for i in range(5)] + ['I%d' % i for i in range(1, 5)]

  def close(a, b):
    return np.allclose(a, b, rtol=3e-6, atol=1e-6)

  # ---- a quantizer alone
  for kind, sym, narrow, per, bits in itertools.product((Last, Moving, All), (False, True), (False, True), (False, True), (8, 4)):
    for graph in (False, True):
      if not ctx.mine() or ctx.over():
        continue
      with ctx.cell('%s%s%s%s %d bits%s' % (kind.__name__, ' symmetric' * sym, ' narrow' * narrow, ' per axis' * per, bits, ' in a graph' * graph)):
        q, vs = qz.make(kind(num_bits=bits, per_axis=per, symmetric=sym, narrow_range=narrow), (2, 2))
        m = qz.mode(q)
        V = [vs['min_var'], vs['max_var']]
        init = (0.0, 0.0) if kind is All else (-6.0, 6.0)
        for v, i in zip(V, init):
          require((v.numpy() == i).all(), 'the initial range is %s', v.numpy())
        fs = {t: (tf.function(lambda x, t=t: q(x, t, vs)) if graph else (lambda x, t=t: q(x, t, vs))) for t in (True, False)}

        def step(s, ev, hist):
          restore(V, s)
          x = B[int(ev[1])].reshape(2, 2)
          y = fs[ev[0] == 'T'](tf.constant(x)).numpy()
          now = snap(V)
          if ev[0] == 'T':
            lo, hi = qz.next_range(kind, s, x, m)
            require(close(now[0], lo) and close(now[1], hi), '%s: the range is %s..%s and should be %s..%s', hist, now[0], now[1], lo, hi)
          else:
            require(np.array_equal(now[0], s[0]) and np.array_equal(now[1], s[1]), '%s: inference moved the range from %s to %s', hist, s, now)
          require((now[0] <= 0).all() and (now[1] >= 0).all(), '%s: zero is outside the range', hist)
          e = qz.fake_quant(x, now[0], now[1], bits, narrow, per).numpy()
          require(np.array_equal(y, e), '%s: the output is %s and should be %s', hist, y, e)
          ctx.evald((ctx.cur, y.tobytes(), now[0].tobytes()))
          return now
        r = bfs.explore(ctx, snap(V), EV, step, ctx.pick(4 if not graph else 3, 5), key=bfs.arr)
        ctx.sample({'case': ctx.cur, 'states': r[0], 'transitions': r[1]})

  # ---- inside layers and models
  flags = ['argument', 'tensor', 'learning phase', 'fit']

  def qlayer(q):
    i = keras.Input((4,)); return keras.Model(i, qz.ql.QuantizeLayer(q)(i))

  from tensorflow_model_optimization.python.core.quantization.keras.default_8bit import default_8bit_quantize_registry as reg
  from tensorflow_model_optimization.python.core.quantization.keras import quantize_config

  class Full(quantize_config.QuantizeConfig):
    """Quantizes weights, activation and output of Dense with given quantizers."""

    def __init__(self, w, a, o):
      self.w, self.a, self.o = w, a, o

    def get_weights_and_quantizers(self, l): return [(l.kernel, self.w)] if self.w else []
    def get_activations_and_quantizers(self, l): return [(l.activation, self.a)] if self.a else []
    def set_quantize_weights(self, l, ws):
      if ws: l.kernel = ws[0]
    def set_quantize_activations(self, l, a):
      if a: l.activation = a[0]
    def get_output_quantizers(self, l): return [self.o] if self.o else []
    def get_config(self): return {}
  M = lambda b=8, sym=False: Moving(num_bits=b, per_axis=False, symmetric=sym, narrow_range=False)
  A = lambda b=8, sym=False: All(num_bits=b, per_axis=False, symmetric=sym, narrow_range=False)
  W = lambda b=8, per=False: Last(num_bits=b, per_axis=per, symmetric=True, narrow_range=True)
  K = np.array([[1, -2], [0.5, 0.75], [-1.5, 3], [2, 0.1]], np.float32)
  act = {'linear': lambda v: v, 'relu': lambda v: np.maximum(v, 0), 'softmax': lambda v: np.exp(v - v.max(-1, keepdims=True)) / np.exp(v - v.max(-1, keepdims=True)).sum(-1, keepdims=True),
         'tanh': np.tanh, 'sigmoid': lambda v: 1 / (1 + np.exp(-v)), 'swish': lambda v: v / (1 + np.exp(-v))}

  # model = sequence of sites; each site: (range variables, quantizer, value as function of the state of the computation)
  def site(vs, q, get, put):
    return (vs, q, get, put)

  def find(l, part):
    a = [v for v in l.weights if v.name.split('/')[-1].split(':')[0] == part + '_min']
    b = [v for v in l.weights if v.name.split('/')[-1].split(':')[0] == part + '_max']
    require(len(a) == 1 and len(b) == 1, 'range variables of %s: %s', part, [v.name for v in l.weights])
    return [a[0], b[0]]

  def dense(w, a, o, activation):
    i = keras.Input((4,))
    l = qz.qw.QuantizeWrapperV2(L.Dense(2, activation=activation), Full(w, a, o))
    m = keras.Model(i, l(i))
    kernel = [v for v in l.weights if 'kernel:' in v.name][0]
    kernel.assign(tf.constant(K))
    sites = []
    pre, post = activation in ('softmax', 'tanh', 'sigmoid'), activation in ('linear', 'relu', 'swish')
    if w: sites.append((find(l, 'kernel'), w, 'kernel'))
    if a and pre: sites.append((find(l, 'pre_activation'), a, 'pre'))
    if a and post: sites.append((find(l, 'post_activation'), a, 'post'))
    if o: sites.append((find(l, 'output'), o, 'out'))

    def compute(x, visit):
      k = visit('kernel', kernel.numpy())
      v = visit('pre', np.array(tf.matmul(x, tf.constant(k))))
      v = visit('post', np.array(keras.activations.get(activation)(tf.constant(v))))
      return visit('out', v)
    return m, sites, compute, [kernel]

  def layer(q):
    m = qlayer(q)
    l = m.layers[-1]
    a = [v for v in l.weights if v.name.split(':')[0].endswith('_min')]
    b = [v for v in l.weights if v.name.split(':')[0].endswith('_max')]
    return m, [(a + b, q, 'x')], (lambda x, visit: visit('x', x)), []

  def pair(q1, q2):
    i = keras.Input((4,))
    l1, l2 = qz.ql.QuantizeLayer(q1), qz.ql.QuantizeLayer(q2)
    m = keras.Model(i, l2(L.Lambda(lambda v: v * -2.0)(l1(i))))
    f = lambda l: [v for v in l.weights if v.name.split(':')[0].endswith('_min')] + [v for v in l.weights if v.name.split(':')[0].endswith('_max')]
    return m, [(f(l1), q1, 'a'), (f(l2), q2, 'b')], (lambda x, visit: visit('b', visit('a', x) * np.float32(-2))), []
  models = {
      'QuantizeLayer moving': lambda: layer(M()), 'QuantizeLayer all': lambda: layer(A(4)), 'QuantizeLayer last symmetric': lambda: layer(W(8)),
      'two quantizers in a row': lambda: pair(A(8), M(6, True)),
      'Dense weights': lambda: dense(W(), None, None, 'linear'), 'Dense weights per axis': lambda: dense(W(4, True), None, None, 'relu'),
      'Dense weights moving': lambda: dense(M(8, True), A(), None, 'linear'),
      'Dense linear': lambda: dense(W(), M(), None, 'linear'), 'Dense relu': lambda: dense(W(), M(4), None, 'relu'), 'Dense softmax': lambda: dense(W(), A(), None, 'softmax'),
      'Dense tanh': lambda: dense(None, M(), A(), 'tanh'), 'Dense sigmoid, output': lambda: dense(W(3), A(), M(), 'sigmoid'), 'Dense swish': lambda: dense(W(), A(5), None, 'swish'), 'Dense output': lambda: dense(None, None, A(), 'linear'),
  }
  for name, flag in itertools.product(models, flags):
    if not ctx.mine() or ctx.over():
      continue
    with ctx.cell('%s, training flag by %s' % (name, flag), timeout=300):
      m, sites, compute, extra = models[name]()
      V = [v for vs, _, _ in sites for v in vs] + extra
      if flag == 'fit':
        m.compile(keras.optimizers.SGD(0.0), loss='mse')
      f_tensor = tf.function(lambda x, t: m(x, training=t))

      def forward(x, t):
        if flag == 'argument':
          return m(tf.constant(x), training=t).numpy()
        if flag == 'tensor':
          return f_tensor(tf.constant(x), tf.constant(t)).numpy()
        if flag == 'learning phase':
          keras.backend.set_learning_phase(int(t))
          try:
            return m(tf.constant(x)).numpy()
          finally:
            keras.backend.clear_session() if False else keras.backend.set_learning_phase(0)
        if t:
          m.train_on_batch(x, np.zeros((2, m.output_shape[-1]), np.float32))
          return None
        return m.predict_on_batch(x)

      def step(s, ev, hist):
        restore(V, s)
        t = ev[0] == 'T'
        x = np.stack([B[int(ev[1])], B[int(ev[1])][::-1] * np.float32(0.5)])
        y = forward(x, t)
        now = snap(V)
        n = {nm: (q, 2 * i) for i, (_, q, nm) in enumerate(sites)}

        def visit(nm, v):
          if nm not in n:
            return v
          q, i = n[nm]
          md = qz.mode(q)
          if t:
            lo, hi = qz.next_range(type(q), (s[i], s[i + 1]), v, md)
            require(close(now[i], lo) and close(now[i + 1], hi), '%s: the range of %s is %s..%s and should be %s..%s', hist, nm, now[i], now[i + 1], lo, hi)
          return qz.fake_quant(v, now[i], now[i + 1], q.num_bits, q.narrow_range, md['per']).numpy()
        e = compute(x, visit)
        if not t:
          require(all(np.array_equal(a, b) for a, b in zip(s, now)), '%s: inference moved the ranges from %s to %s', hist, s, now)
        if y is not None:
          last = sites[-1]
          tol = (now[2 * len(sites) - 1] - now[2 * len(sites) - 2]).max() / (2 ** last[1].num_bits - 2) * 1.01 + 1e-5
          # a value between two levels may be rounded either way
          require(y.shape == e.shape and (np.abs(y - e) <= tol).all() and (np.abs(y - e) > 1e-4).mean() <= 0.25, '%s: the output is %s and should be %s', hist, y, e)
          ctx.evald((ctx.cur, y.tobytes()))
        return now
      r = bfs.explore(ctx, snap(V), ['T0', 'T1', 'T2', 'T3', 'I1', 'I2'], step, ctx.pick(3, 4), key=bfs.arr)
      ctx.sample({'case': ctx.cur, 'states': r[0], 'transitions': r[1]})
