"""P07: the latency pruning policy on enumerated model graphs."""
import itertools
LEVEL = 'exploration'
RULE = ('one case = one model graph over an alphabet of layer variants whose eligibility is known by construction; '
        'evaluations = accept/reject decisions (and sets of pruned layers) compared with a path-based reference; '
        'distinct = distinct (graph, decision)')
ASSUME = ['functional and sequential models']
BOUND = {'quick': '9 stems x 46 middle layers x 4 endings; all pairs of middle layers from 16; branching graphs with 2 inputs, 2 outputs, merges of 8 kinds and skip connections',
         'thorough': 'additionally all pairs over all 46 middle layers and all triples from 16'}


def run(ctx):
  from env import tf, keras, tfmot
  from mc import require
  L = keras.layers
  prune = tfmot.sparsity.keras.prune_low_magnitude
  Policy = tfmot.sparsity.keras.PruneForLatencyOnXNNPack
  sched = tfmot.sparsity.keras.ConstantSparsity(0.5, 0)

  # ---- alphabet: name -> (list of (supported, pointwise, layer builder))
  one = lambda sup, f, pw=False: [(sup, pw, f)]
  mids = {
      'conv1x1': one(True, lambda: L.Conv2D(4, 1), True),
      'conv1x1 relu': one(True, lambda: L.Conv2D(4, (1, 1), activation='relu'), True),
      'conv1x1 same': one(True, lambda: L.Conv2D(4, 1, padding='same'), True),
      'conv1x1 stride2': one(False, lambda: L.Conv2D(4, 1, strides=2), True),
      'conv1x1 groups2': one(False, lambda: L.Conv2D(4, 1, groups=2), True),
      'conv1x1 dilated': one(False, lambda: L.Conv2D(4, 1, dilation_rate=2), True),
      'conv3x3': one(False, lambda: L.Conv2D(4, 3, padding='same')),
      'conv1x3': one(False, lambda: L.Conv2D(4, (1, 3), padding='same')),
      'conv3x1': one(False, lambda: L.Conv2D(4, (3, 1), padding='same')),
      'dw3 same': one(True, lambda: L.DepthwiseConv2D(3, padding='same')),
      'dw3 same stride2': one(False, lambda: L.DepthwiseConv2D(3, strides=2, padding='same')),
      'dw3 valid': one(False, lambda: L.DepthwiseConv2D(3)),
      'pad1 dw3 valid': one(True, lambda: L.ZeroPadding2D(1)) + one(True, lambda: L.DepthwiseConv2D(3)),
      'pad1 dw3 valid stride2': one(True, lambda: L.ZeroPadding2D(1)) + one(True, lambda: L.DepthwiseConv2D(3, strides=2)),
      'pad1 dw3 valid stride3': one(True, lambda: L.ZeroPadding2D(1)) + one(False, lambda: L.DepthwiseConv2D(3, strides=3)),
      'pad2 dw3 valid': one(True, lambda: L.ZeroPadding2D(2)) + one(False, lambda: L.DepthwiseConv2D(3)),
      'asym pad dw3 valid stride2': one(True, lambda: L.ZeroPadding2D(((0, 1), (0, 1)))) + one(False, lambda: L.DepthwiseConv2D(3, strides=2)),
      'dw5 same': one(True, lambda: L.DepthwiseConv2D(5, padding='same')),
      'dw5 same stride2': one(False, lambda: L.DepthwiseConv2D(5, strides=2, padding='same')),
      'pad2 dw5 valid': one(True, lambda: L.ZeroPadding2D(2)) + one(True, lambda: L.DepthwiseConv2D(5)),
      'pad2 dw5 valid stride2': one(True, lambda: L.ZeroPadding2D(2)) + one(True, lambda: L.DepthwiseConv2D(5, strides=2)),
      'pad1 dw5 valid': one(True, lambda: L.ZeroPadding2D(1)) + one(False, lambda: L.DepthwiseConv2D(3 + 2, padding='valid')),
      'dw7 same': one(False, lambda: L.DepthwiseConv2D(7, padding='same')),
      'dw3 multiplier2': one(False, lambda: L.DepthwiseConv2D(3, padding='same', depth_multiplier=2)),
      'dw3 dilated': one(False, lambda: L.DepthwiseConv2D(3, padding='same', dilation_rate=2)),
      'bn': one(True, lambda: L.BatchNormalization()),
      'bn axis1': one(False, lambda: L.BatchNormalization(axis=1)),
      'bn axis3': one(True, lambda: L.BatchNormalization(axis=3)),
      'relu': one(True, lambda: L.ReLU()),
      'relu6': one(True, lambda: L.ReLU(6.)),
      'leaky': one(True, lambda: L.LeakyReLU()),
      'elu': one(True, lambda: L.ELU()),
      'prelu': one(False, lambda: L.PReLU()),
      'softmax': one(False, lambda: L.Softmax()),
      'act relu': one(True, lambda: L.Activation('relu')),
      'act relu6': one(True, lambda: L.Activation(tf.nn.relu6)),
      'act sigmoid': one(True, lambda: L.Activation('sigmoid')),
      'act elu': one(True, lambda: L.Activation('elu')),
      'act tanh': one(False, lambda: L.Activation('tanh')),
      'act linear': one(False, lambda: L.Activation('linear')),
      'dropout': one(True, lambda: L.Dropout(0.5)),
      'pad': one(True, lambda: L.ZeroPadding2D(1)),
      'up bilinear': one(True, lambda: L.UpSampling2D(2, interpolation='bilinear')),
      'up nearest': one(False, lambda: L.UpSampling2D(2)),
      'maxpool': one(False, lambda: L.MaxPooling2D(2)),
      'lambda': one(False, lambda: L.Lambda(lambda x: x)),
      'avgpool': one(False, lambda: L.AveragePooling2D(2)),
      'op identity': one(True, lambda: (lambda x: tf.identity(x))),
      'op add const': one(True, lambda: (lambda x: x + 1.0)),
      'op mul const': one(True, lambda: (lambda x: tf.multiply(x, 2.0))),
      'op relu': one(False, lambda: (lambda x: tf.nn.relu(x))),
      'gap keepdims': one(True, lambda: L.GlobalAveragePooling2D(keepdims=True)),
      'pruned conv1x1': one(True, lambda: prune(L.Conv2D(4, 1), sched), True),
      'pruned conv3x3': one(False, lambda: prune(L.Conv2D(4, 3, padding='same'), sched)),
  }
  stems = {
      'good': (True, 3, [lambda: L.ZeroPadding2D(1), lambda: L.Conv2D(4, 3, strides=2)]),
      'good after relu': (True, 3, [lambda: L.ReLU(), lambda: L.ZeroPadding2D(1), lambda: L.Conv2D(4, 3, strides=2)]),
      'stride 1': (False, 3, [lambda: L.ZeroPadding2D(1), lambda: L.Conv2D(4, 3)]),
      'stride (2,1)': (False, 3, [lambda: L.ZeroPadding2D(1), lambda: L.Conv2D(4, 3, strides=(2, 1))]),
      'same padding': (False, 3, [lambda: L.ZeroPadding2D(1), lambda: L.Conv2D(4, 3, strides=2, padding='same')]),
      '4 channels': (False, 4, [lambda: L.ZeroPadding2D(1), lambda: L.Conv2D(4, 3, strides=2)]),
      'pad 2': (False, 3, [lambda: L.ZeroPadding2D(2), lambda: L.Conv2D(4, 3, strides=2)]),
      'pad one side': (False, 3, [lambda: L.ZeroPadding2D(((0, 1), (0, 1))), lambda: L.Conv2D(4, 3, strides=2)]),
      'no pad': (False, 3, [lambda: L.Conv2D(4, 3, strides=2)]),
      '5x5': (False, 3, [lambda: L.ZeroPadding2D(1), lambda: L.Conv2D(4, 5, strides=2)]),
      '3x5': (False, 3, [lambda: L.ZeroPadding2D(1), lambda: L.Conv2D(4, (3, 5), strides=2)]),
      'relu between': (False, 3, [lambda: L.ZeroPadding2D(1), lambda: L.ReLU(), lambda: L.Conv2D(4, 3, strides=2)]),
  }
  GAP = lambda: L.GlobalAveragePooling2D()
  GAPK = lambda: L.GlobalAveragePooling2D(keepdims=True)
  ends = {
      'gap': (True, [(False, GAP)]),
      'gap keepdims, conv1x1 head': (True, [(False, GAPK), (True, lambda: L.Conv2D(2, 1))]),
      'gap, dense': (True, [(False, GAP), (False, lambda: L.Dense(2))]),
      'gap keepdims, conv3x3, softmax': (True, [(False, GAPK), (False, lambda: L.Conv2D(2, 3, padding='same')), (False, lambda: L.Softmax())]),
      'flatten, dense': (False, [(False, lambda: L.Flatten()), (False, lambda: L.Dense(2))]),
      'maxpool': (False, [(False, lambda: L.GlobalMaxPooling2D())]),
  }

  class G:
    """Builds a model and remembers the pointwise convolutions in it."""

    def __init__(self):
      self.pw = 0
      self.ok = True

    def chain(self, x, items):
      for sup, pw, f in items:
        x = f()(x)
        self.pw += pw
        self.ok = self.ok and sup
      return x

    def stem(self, x, name):
      ok, _, fs = stems[name]
      for f in fs:
        x = f()(x)
      self.ok = self.ok and ok
      return x

    def end(self, x, name):
      ok, fs = ends[name]
      for pw, f in fs:
        x = f()(x)
        self.pw += pw
      self.ok = self.ok and ok
      return x

  def wrapped(m):
    n = 0
    for l in m.layers:
      if isinstance(l, keras.Model):
        n += wrapped(l)
      n += type(l).__name__ == 'PruneLowMagnitude'
    return n

  def decide(m, ok, pw, sig):
    before = [l.name for l in m.layers]
    try:
      Policy().ensure_model_supports_pruning(m)
      got = True
    except ValueError:
      got = False
    require(got == ok, 'policy %s the model, reference %s it', 'accepts' if got else 'rejects', 'accepts' if ok else 'rejects')
    nw0 = wrapped(m)
    try:
      p = prune(m, pruning_schedule=sched, pruning_policy=Policy())
      got = True
    except ValueError:
      got = False
    require(got == ok, 'pruning the model %s', 'succeeds but must be refused' if got else 'is refused')
    require([l.name for l in m.layers] == before and wrapped(m) == nw0, 'the original model was changed')
    if ok:
      for l in p.layers:
        if type(l).__name__ == 'PruneLowMagnitude':
          require(tuple(l.layer.kernel_size) == (1, 1), 'layer %s with kernel size %s is pruned', l.layer.name, l.layer.kernel_size)
      require(wrapped(p) == pw, '%d layers are pruned, the model has %d pointwise convolutions', wrapped(p), pw)
    ctx.evald((sig, got))

  n = [0]

  def case(sig, build):
    if not ctx.mine() or ctx.over():
      return
    with ctx.cell(sig):
      g = G()
      m = build(g)
      decide(m, g.ok, g.pw, sig)
      ctx.sample({'graph': sig, 'accepted': g.ok, 'pointwise': g.pw})
      n[0] += 1
      if n[0] % 60 == 0:
        keras.backend.clear_session()

  def chain(stem, ms, end, **kw):
    def build(g):
      i = keras.Input((32, 32, stems[stem][1]))
      x = g.stem(i, stem)
      for m in ms:
        x = g.chain(x, mids[m])
      return keras.Model(i, g.end(x, end))
    return build

  for st, e in itertools.product(stems, ends):
    case('chain %s | %s' % (st, e), chain(st, ['conv1x1'], e))
  for m, e in itertools.product(mids, ('gap', 'gap keepdims, conv1x1 head', 'flatten, dense')):
    if m != 'gap keepdims' or e == 'gap':  # else that pooling itself is the end of the region
      case('chain good | %s | %s' % (m, e), chain('good', [m, 'conv1x1'], e))
  case('chain good | (nothing) | gap', chain('good', [], 'gap'))
  few = ['conv1x1', 'conv3x3', 'dw3 same', 'pad1 dw3 valid stride2', 'pad', 'dw3 valid', 'bn', 'relu', 'act tanh', 'act sigmoid', 'dropout', 'up bilinear', 'up nearest', 'op add const', 'op relu', 'conv1x1 stride2']
  for a, b in itertools.product(few if not ctx.thorough else list(mids), repeat=2):
    if (a, b) == ('pad', 'dw3 valid'):
      def build(g):
        i = keras.Input((32, 32, 3)); x = g.stem(i, 'good')
        return keras.Model(i, g.end(L.DepthwiseConv2D(3)(L.ZeroPadding2D(1)(x)), 'gap'))
      case('chain good | pad, dw3 valid', build)
      continue
    if a == 'pad' and 'dw' in b and 'same' not in b and not b.startswith('pad') and b not in ('dw3 multiplier2', 'dw3 dilated'):
      continue
    case('chain good | %s, %s | gap' % (a, b), chain('good', [a, b], 'gap'))
  if ctx.thorough:
    for abc in itertools.product([f for f in few if f != 'pad'], repeat=3):
      case('chain good | %s, %s, %s | gap' % abc, chain('good', list(abc), 'gap'))

  # ---- branching graphs.
  merges = {'add': (True, lambda a, b: L.Add()([a, b])), 'multiply': (True, lambda a, b: L.Multiply()([a, b])),
            'subtract layer': (False, lambda a, b: L.Subtract()([a, b])), 'concat': (False, lambda a, b: L.Concatenate()([a, b])),
            'op +': (True, lambda a, b: a + b), 'op tf.add': (True, lambda a, b: tf.add(a, b)), 'op tf.subtract': (True, lambda a, b: tf.subtract(a, b)),
            'op -': (True, lambda a, b: tf.math.subtract(a, b)), 'op tf.maximum': (False, lambda a, b: tf.maximum(a, b)), 'average': (False, lambda a, b: L.Average()([a, b]))}
  bm = ['conv1x1', 'dw3 same', 'relu', 'conv3x3', 'act tanh', 'bn']
  for mg, a, b in itertools.product(merges, bm, bm):
    def build(g, mg=mg, a=a, b=b):
      i = keras.Input((16, 16, 3))
      x = g.chain(g.stem(i, 'good'), mids['conv1x1'])
      y = merges[mg][1](g.chain(x, mids[a]), g.chain(x, mids[b]))
      g.ok = g.ok and merges[mg][0]
      return keras.Model(i, g.end(y, 'gap'))
    if ctx.thorough or bm.index(a) <= bm.index(b):
      case('branch %s(%s, %s)' % (mg, a, b), build)
  for mg in merges:
    def build(g, mg=mg):  # skip connection around a layer
      i = keras.Input((16, 16, 3))
      x = g.chain(g.stem(i, 'good'), mids['relu'])
      y = merges[mg][1](x, g.chain(x, mids['conv1x1']))
      g.ok = g.ok and merges[mg][0]
      return keras.Model(i, g.end(y, 'gap keepdims, conv1x1 head'))
    case('skip %s' % mg, build)
  # two inputs, each with its own stem
  for s1, s2, m2 in itertools.product(('good', 'stride 1', 'no pad'), ('good', 'good after relu', 'pad 2'), ('conv1x1', 'conv3x3')):
    def build(g, s1=s1, s2=s2, m2=m2):
      i, j = keras.Input((16, 16, 3)), keras.Input((16, 16, 3))
      a, b = g.chain(g.stem(i, s1), mids['conv1x1']), g.chain(g.stem(j, s2), mids[m2])
      if s1 in ('no pad', 'stride 1') or s2 == 'pad 2':
        a, b = L.GlobalAveragePooling2D()(a), L.GlobalAveragePooling2D()(b)
        return keras.Model([i, j], L.Add()([a, b]))
      return keras.Model([i, j], g.end(L.Add()([a, b]), 'gap'))
    case('two inputs %s / %s, %s' % (s1, s2, m2), build)
  # second input that joins without a stem
  for where in ('inside', 'after gap'):
    def build(g, where=where):
      i, j = keras.Input((16, 16, 3)), keras.Input((8, 8, 4) if where == 'inside' else (4,))
      x = g.chain(g.stem(i, 'good'), mids['conv1x1'])
      g.ok = False  # this input branch has no first convolution
      return keras.Model([i, j], g.end(L.Add()([x, j]), 'gap') if where == 'inside' else L.Add()([g.end(x, 'gap'), j]))
    case('plain second input %s' % where, build)
  # two outputs
  for e1, e2, m2 in itertools.product(('gap', 'flatten, dense', 'gap, dense'), ('gap', 'maxpool', 'gap keepdims, conv1x1 head'), ('conv1x1', 'maxpool', 'relu')):
    def build(g, e1=e1, e2=e2, m2=m2):
      i = keras.Input((16, 16, 3))
      x = g.chain(g.stem(i, 'good'), mids['conv1x1'])
      return keras.Model(i, [g.end(x, e1), g.end(g.chain(x, mids[m2]), e2)])
    case('two outputs %s / %s, %s' % (e1, m2, e2), build)
  # layers used twice
  for mname in ('conv1x1', 'relu', 'conv3x3'):
    def build(g, mname=mname):
      i = keras.Input((16, 16, 3))
      x = g.stem(i, 'good')
      sup, pw, f = mids[mname][0]
      l = f()
      g.ok, g.pw = g.ok and sup, g.pw + pw
      return keras.Model(i, g.end(l(l(x)), 'gap'))
    case('layer used twice %s' % mname, build)
  # a pointwise convolution before the first convolution is pruned as well
  def build(g):
    i = keras.Input((16, 16, 4))
    g.pw += 1
    return keras.Model(i, g.end(g.chain(g.stem(L.Conv2D(3, 1)(i), 'good'), mids['conv1x1']), 'gap'))
  case('conv1x1 before the stem', build)
  def build(g):
    i = keras.Input((16, 16, 3))
    x = g.stem(i, 'good')
    g.ok = False
    return keras.Model(i, x)
  case('nothing after the stem', build)
  def build(g):
    i = keras.Input((16, 16, 3))
    g.ok = False
    return keras.Model(i, L.GlobalAveragePooling2D()(L.Conv2D(4, 1)(i)))
  case('no stem', build)
  # models built in other ways
  def build(g):
    g.ok, g.pw = True, 1
    return keras.Sequential([L.ZeroPadding2D(1, input_shape=(16, 16, 3)), L.Conv2D(4, 3, strides=2), L.Conv2D(4, 1), L.GlobalAveragePooling2D()])
  case('sequential', build)
  def build(g):
    g.ok, g.pw = False, 1
    return keras.Sequential([L.ZeroPadding2D(1, input_shape=(16, 16, 3)), L.Conv2D(4, 3, strides=2), L.Conv2D(4, 1), L.MaxPooling2D(2), L.GlobalAveragePooling2D()])
  case('sequential with max pooling', build)
  def build(g):
    g.ok = False
    return keras.Sequential([L.ZeroPadding2D(1), L.Conv2D(4, 3, strides=2), L.Conv2D(4, 1), L.GlobalAveragePooling2D()])
  case('sequential, not built', build)

  class Sub(keras.Model):
    def call(self, x):
      return x
  def build(g):
    g.ok = False
    return Sub()
  if ctx.mine():
    with ctx.cell('subclassed model'):
      try:
        Policy().ensure_model_supports_pruning(Sub()); ok = True
      except ValueError:
        ok = False
      require(not ok, 'a subclassed model is accepted')
      ctx.evald('subclassed')
  # nested sequential models
  for inner, after in itertools.product((('conv1x1',), ('conv1x1', 'relu'), ('conv1x1', 'maxpool')), ('relu', 'conv1x1', 'maxpool')):
    def build(g, inner=inner, after=after):
      i = keras.Input((16, 16, 3))
      x = g.stem(i, 'good')
      ls = []
      for nm in inner:
        sup, pw, f = mids[nm][0]
        ls.append(f()); g.ok, g.pw = g.ok and sup, g.pw + pw
      x = keras.Sequential(ls)(x)
      return keras.Model(i, g.end(g.chain(x, mids[after]), 'gap'))
    case('nested sequential (%s) then %s' % (', '.join(inner), after), build)
  # another model over the same layers must not influence the decision
  for aux in ('relu', 'maxpool'):
    def build(g, aux=aux):
      i = keras.Input((16, 16, 3))
      x = g.chain(g.stem(i, 'good'), mids['conv1x1'])
      keras.Model(i, mids[aux][0][2]()(x))
      return keras.Model(i, g.end(x, 'gap'))
    case('layers shared with another model, which has %s' % aux, build)
