"""Q03: a quantized model is the original model plus quantization."""
import itertools
LEVEL = 'exploration'
RULE = ('case = (model graph, way of building it, frozen layers, annotated layers, scheme); the real code quantizes it and the dataflow of the result with all fake '
        'quantization removed is compared with that of the original; distinct = distinct dataflow terms')
ASSUME = ['terms of TensorFlow operations are compared first; where they differ, the computed values on fixed inputs decide']
BOUND = {'quick': 'chains of 1 to 2 layers over 12/7/6 kinds, and 3 over 5 fusion kinds with every set of frozen layers; 13 layers with activations of their own before 7 normalizations and activations; joins of 8 x 8 branches; 25 hand made arrangements of shared layers, several inputs and outputs, nested structures, operator and unannotated layers, each with several kinds',
         'thorough': 'larger alphabets, chains of 4, joins of 3 branches, training mode'}


def run(ctx):
  import numpy as np
  from env import tf, keras, tfmot, snap
  from mc import require
  import qg
  qg.named_build()
  L = keras.layers
  tq = tfmot.quantization.keras
  from tensorflow_model_optimization.python.core.quantization.keras.experimental.default_n_bit.default_n_bit_quantize_scheme import DefaultNBitQuantizeScheme as QN
  A = tq.quantize_annotate_layer
  WAYS = {'': lambda m: tq.quantize_model(m), 'annotated ': lambda m: tq.quantize_apply(tq.quantize_annotate_model(m)), 'apply ': tq.quantize_apply,
          '4 bits ': lambda m: tq.quantize_apply(tq.quantize_annotate_model(m), QN(num_bits_weight=4, num_bits_activation=4))}

  def wkey(vs):
    return sorted((int(np.prod(v.shape)), qg.digest(v.numpy().ravel())) for v in vs if v.dtype.is_floating and not any(s in v.name for s in ('_min', '_max', 'min_var', 'max_var')))

  def structure(x):
    return tf.nest.map_structure(lambda t: 0, x)

  def config(m):
    def norm(o):
      if isinstance(o, dict):
        return {k: norm(v) for k, v in o.items() if k not in ('build_config', 'function')}
      return [norm(v) for v in o] if isinstance(o, (list, tuple)) else o
    return repr(norm(m.get_config()))

  def compare(m, way, train=False):
    """m is the (annotated) original; returns the quantized model."""
    before = snap(m.weights), config(m), [(l.name, l.trainable, getattr(l, 'activation', None)) for l in m.layers]
    c1 = qg.concrete(m)
    t1 = qg.try_terms(c1, False)
    q = WAYS[way](m)
    c2 = qg.concrete(q)
    shapes = [tuple(t.shape[1:]) for t in tf.nest.flatten(m.input)]
    require([(t.name, tuple(t.shape), t.dtype) for t in tf.nest.flatten(m.input)] == [(t.name, tuple(t.shape), t.dtype) for t in tf.nest.flatten(q.input)],
            'inputs are %s instead of %s', q.input, m.input)
    require(structure(c1.structured_outputs) == structure(c2.structured_outputs), 'outputs have the structure %s instead of %s', structure(c2.structured_outputs), structure(c1.structured_outputs))
    require([tuple(t.shape) for t in tf.nest.flatten(m.output)] == [tuple(t.shape) for t in tf.nest.flatten(q.output)], 'output shapes are %s instead of %s', q.output_shape, m.output_shape)
    t2 = qg.try_terms(c2, False)
    if t1 != t2 or t1 is None:
      why = qg.same_function(c2, c1, shapes)
      require(not why, 'without quantization %s\noriginal:  %s\nquantized: %s', why, t1, t2)
      ctx.counts['by value'] += 1
    if train:
      a, b = qg.try_terms(qg.concrete(m, True), False), qg.try_terms(qg.concrete(q, True), False)
      require(a == b, 'in training mode\noriginal:  %s\nquantized: %s', a, b)
    # the weights: carried over, not shared, trainable as before
    require(not {id(v) for v in m.weights} & {id(v) for v in q.weights}, 'quantized and original model share variables')
    a, b = wkey(m.trainable_weights), wkey(q.trainable_weights)
    require(a == b, 'trainable weights (size, digest) are %s, in the quantized model %s', a, b)
    a, b = wkey(m.non_trainable_weights), [w for w in wkey(q.non_trainable_weights)]
    miss = [w for w in a if w not in b]
    require(not miss, 'non-trainable weights %s are missing in the quantized model', miss)
    require(len({l.name for l in q.layers}) == len(q.layers), 'layer names are not unique')
    # the original is as it was, and stays so when the quantized model trains
    for v in q.weights:
      v.assign(tf.ones_like(v) if v.dtype != tf.bool else v)
    after = snap(m.weights), config(m), [(l.name, l.trainable, getattr(l, 'activation', None)) for l in m.layers]
    require(all(np.array_equal(x, y) for x, y in zip(before[0], after[0])) and len(before[0]) == len(after[0]), 'weights of the original model changed')
    require(before[1] == after[1] and before[2] == after[2], 'the original model changed')
    require(t1 == qg.try_terms(qg.concrete(m), False), 'the original model computes something else')
    ctx.evald((tuple(t1) if t1 else ctx.cur, way))
    ctx.sample({'case': ctx.cur, 'terms': t1})
    return q

  # ---- plain graphs
  def graphs():
    M = (4, 4, 2)
    K4 = 'conv dw seprelu tconv bn relu aswish avgpool dropout dense flatten up'.split()
    K2, K1 = 'dense densesoftmax denseswish bn relu dropout reshape'.split(), 'sep1d bn relu dense gap1d crop1d'.split()
    F = 'conv sep bn relu'.split()
    if ctx.thorough:
      K4 += 'conv3 convrelu convsoftmax dwrelu dwm sep relu6 arelu arelu6 atanh leaky maxpool gap pad crop'.split()
      K2 += 'denserelu densetanh densegelu arelu relu6 asoftmax leaky'.split()
      K1 += 'sep1drelu arelu avg1d'.split()
      F += 'dw dense arelu'.split()
    for sh, ks in ((M, K4), ((4,), K2), ((4, 2), K1)):
      for n in (1, 2):
        yield from ((qg.chain(sh, k), ()) for k in itertools.product(ks, repeat=n))
    for sh, own in ((M, 'convrelu convsoftmax dwrelu seprelu convsw'), ((4,), 'denserelu densetanh densesig densegelu denseswish densesoftmax'), ((4, 2), 'sep1drelu denserelu')):
      for a, b in itertools.product(own.split(), (('bn',), ('relu',), ('relu6',), ('arelu',), ('bn', 'relu'), ('dropout', 'bn'), ('bn', 'arelu'))):
        yield qg.chain(sh, (a,) + b), ()
    for k in itertools.product(F, repeat=3):
      yield qg.chain((2, 2, 2), k), ()
      if sum(x in ('relu', 'arelu') for x in k) <= 1:
        for fr in ((0,), (1,), (0, 1), (1, 2), (0, 2), (0, 1, 2)):
          yield qg.chain((2, 2, 2), k), fr
    for k in itertools.product(('sep1d', 'dense'), ('bn', 'relu'), ('relu', 'dense')):
      for fr in ((0,), (1,), (0, 1, 2)):
        yield qg.chain((4, 2), k), fr
    for k in itertools.product(('conv', 'dense', 'dw', 'sep'), ('bn',), ('relu', 'dropout')):
      for outs in ((1, 3), (2, 3), (3, 1, 2), (3, 3), (0, 3)):
        g = qg.chain((2, 2, 2), k)
        yield (g[0], g[1], outs), ()
    BR = [(), ('conv',), ('dw', 'relu'), ('arelu',), ('conv', 'bn'), ('sep',), ('dropout',), ('conv', 'bn', 'relu')]
    for a, b, m in itertools.product(BR, BR, ('add', 'concat')):
      yield qg.join([a, b], m, ('relu',) if m == 'add' else ()), ()
    for a, b, c in (itertools.product(BR, repeat=3) if ctx.thorough else itertools.permutations(BR[:4], 3)):
      yield qg.join([a, b, c], 'concat', ()), ()
    # input order
    ks = ('conv', 'relu', 'bnconv')
    for p in itertools.permutations(range(3)):
      for m in ('add', 'concat'):
        yield (((2, 2, 2), (2, 2, 2), (2, 2, 2)), (('conv', (0,)), ('relu', (1,)), ('dense', (2,)), (m, tuple(3 + i for i in p))), (6, 3)), ()
        yield (((2, 2, 2), (2, 2, 2), (2, 2, 2)), (('conv', (p[0],)), ('bn', (3,)), ('conv', (p[1],)), (m, (5, 4, p[2]))), (6,)), ()
        yield (((2, 2, 2), (2, 2, 2)), ((m, (1, 0)), ('conv', (2,)), (m, (3, 2) if m == 'concat' else (2, 3)), ('conv', (p[0],))), (4, 5) if p[1] else (5, 4)), ()

  for g, frozen in graphs():
    if not ctx.mine() or ctx.over():
      continue
    if not qg.valid(g):
      continue
    with ctx.cell('%s%s' % (qg.name(g), ' frozen %s' % (list(frozen),) if frozen else '')):
      m = qg.build(g)
      for i in frozen:
        m.get_layer('n%d' % i).trainable = False
      un = qg.unsupported(qg.reference(g, [m.get_layer('n%d' % i) for i in range(len(g[1]))])[0])
      if un:
        # may be refused, but not changed
        ctx.counts['unsupported'] += 1
        try:
          tq.quantize_model(m)
        except (RuntimeError, ValueError):
          ctx.evald(('refused', ctx.cur))
          continue
      compare(m, 'annotated ' if ctx.counter % 3 == 0 else '', train=ctx.thorough and 'dropout' not in str(g))
    if not frozen and len(g[1]) == 2 and len(g[0]) == 1 and len(g[2]) == 1 and all(len(s) == 1 for _, s in g[1]):
      for way in ('', '4 bits '):
        with ctx.cell('%ssequential %s' % (way, qg.name(g))):
          m = qg.build(g, sequential=True)
          if 'gelu' not in str(g):
            compare(m, way)
  # the whole model frozen
  for g in [qg.chain((2, 2, 2), k) for k in itertools.product(('conv', 'sep', 'dense'), ('bn', 'relu'))]:
    if ctx.mine():
      with ctx.cell('frozen model %s' % qg.name(g)):
        m = qg.build(g); m.trainable = False
        compare(m, '')

  # ---- arrangements with shared layers, structures, operators
  def I(*s, **kw):
    return keras.Input(s, **kw)

  D = lambda n=3, **kw: (lambda: L.Dense(n, **kw))
  unary = {'dense': D(3), 'denserelu': D(3, activation='relu'), 'relu': lambda: L.ReLU(), 'arelu': lambda: L.Activation('relu'), 'softmax': lambda: L.Softmax(), 'dropout': lambda: L.Dropout(0.5), 'flatten': lambda: L.Flatten()}
  merge = {'add': lambda: L.Add(), 'concat': lambda: L.Concatenate()}
  arrangements = {}

  def arr(f):
    arrangements[f.__name__] = f
    return f

  @arr
  def twins(a, u, m):
    x, y = I(3, name='x'), I(3, name='y'); l = u()
    return keras.Model([y, x], m()([l(x), l(y)]))

  @arr
  def twice(a, u, m):
    x = I(3); l = u()
    return keras.Model(x, l(l(x)))

  @arr
  def twice_with_between(a, u, m):
    x = I(3); l, r = u(), a(L.Dense(3)); y = l(x)
    return keras.Model(x, [l(r(y)), y])

  @arr
  def shared_merge(a, u, m):
    x, y = I(3), I(3); c = m(); l = u()
    return keras.Model([x, y], m()([c([l(x), y]), c([y, l(x)])]))

  @arr
  def same_twice(a, u, m):
    x = I(3); y = u()(x)
    return keras.Model(x, m()([y, y]))

  @arr
  def same_twice_and_another(a, u, m):
    x = I(3); y = u()(x)
    return keras.Model(x, m()([y, a(L.Dense(3))(x), y]))

  @arr
  def inputs_as_dict(a, u, m):
    x, y = I(3, name='zz'), I(3, name='aa')
    return keras.Model({'zz': x, 'aa': y}, m()([u()(x), y]))

  @arr
  def outputs_as_dict(a, u, m):
    x = I(3)
    return keras.Model(x, {'b': u()(x), 'a': m()([x, u()(x)])})

  @arr
  def nested(a, u, m):
    x, y = I(3), I(3)
    return keras.Model([x, (y,)], [u()(y), (m()([y, x]),)])

  @arr
  def single_in_list(a, u, m):
    x = I(3)
    return keras.Model([x], [u()(x)])

  @arr
  def input_is_output(a, u, m):
    x, y = I(3), I(3)
    return keras.Model([x, y], [y, u()(x), x, m()([y, x])])

  @arr
  def output_twice(a, u, m):
    x = I(3); y = u()(x)
    return keras.Model(x, [y, m()([x, y]), y])

  @arr
  def unused_order(a, u, m):
    x, y, z = I(3), I(3), I(3)
    return keras.Model([z, x, y], [u()(y), u()(x), m()([z, y, x])])

  @arr
  def diamond(a, u, m):
    x = I(3); y = u()(x); p = a(L.Dense(3))(y); q = a(L.ReLU())(y)
    return keras.Model(x, m()([q, p, y]))

  def plain(l):
    return l
  for (nm, f), (un, u), (mn, m_) in itertools.product(arrangements.items(), unary.items(), merge.items()):
    if mn == 'concat' and nm in ('twice', 'twice_with_between', 'single_in_list') or un == 'flatten' and nm.startswith('twice') and False:
      continue
    for way in ('', '4 bits ') if un in ('dense', 'relu') else ('',):
      if not ctx.mine() or ctx.over():
        continue
      with ctx.cell('%s%s of %s and %s' % (way, nm, un, mn)):
        keras.backend.clear_session()
        m = f(plain, u, m_)
        qg.distinct(m)
        compare(m, way)

  # ---- layers that are not annotated, operators
  ops = {}

  def op(f):
    ops[f.__name__] = f
    return f

  @op
  def split_middle(x, l):
    p, q = tf.split(A(L.Dense(4))(x), 2, axis=1)
    return A(L.Concatenate())([q, p])

  @op
  def split_first(x, l):
    p, q = tf.split(x, 2, axis=1)
    return A(L.Concatenate())([A(L.Dense(2))(q), A(l)(p)])

  @op
  def split_then_chain(x, l):
    p, q = tf.split(x, 2, axis=1)
    return A(L.ReLU())(A(l)(q))

  @op
  def split_add(x, l):
    p, q = tf.split(x, 2, axis=1)
    return A(L.ReLU())(A(L.Add())([q, A(l)(p)]))

  @op
  def times(x, l):
    return A(L.Dense(2))(A(l)(x) * 2.0)

  @op
  def plus(x, l):
    y = A(l)(x)
    return A(L.Dense(2))(y + A(L.Dense(y.shape[-1]))(x))

  @op
  def minus_reversed(x, l):
    return A(L.Dense(2))(1.0 - A(l)(x))

  @op
  def sliced(x, l):
    return A(L.ReLU())(A(l)(x)[:, 1:3])

  @op
  def inner_model(x, l):
    inner = keras.Sequential([keras.Input((4,)), l, L.Dense(3)])
    return A(L.Dense(2))(inner(x))

  @op
  def unannotated_between(x, l):
    return A(L.Dense(2))(l(A(L.Dense(4))(x)))

  @op
  def unannotated_first(x, l):
    y = l(x)
    return A(L.Add())([A(L.Dense(y.shape[-1]))(y), y])

  @op
  def unannotated_last(x, l):
    return l(A(L.BatchNormalization())(A(L.Dense(4))(x)))

  @op
  def lambda_between(x, l):
    return A(L.Dense(2))(L.Lambda(lambda v: v * 0.5 + 1.0)(A(l)(x)))

  @op
  def attention(x, l):
    y = L.Reshape((2, 2))(A(l)(x))
    y = L.MultiHeadAttention(1, 2)(y, value=y)
    return A(L.Dense(2))(y)

  @op
  def stateful_kwargs(x, l):
    y = L.Reshape((2, 2))(x)
    z, s, c = L.LSTM(2, return_sequences=True, return_state=True)(y)
    z = L.LSTM(2)(A(L.Dense(2))(z), initial_state=[c, s])
    return [A(L.Dense(2))(z), s]

  @op
  def two_outputs_swapped(x, l):
    p, q = tf.unstack(tf.reshape(x, (-1, 2, 2)), axis=1)
    return [A(l)(q), A(L.Dense(2))(p)]

  kinds = {'dense': lambda: L.Dense(4), 'dense2': lambda: L.Dense(2), 'relu': lambda: L.ReLU(), 'tanh': lambda: L.Activation('tanh'), 'dropout': lambda: L.Dropout(0.25), 'bn': lambda: L.BatchNormalization(), 'ln': lambda: L.LayerNormalization(), 'prelu': lambda: L.PReLU()}
  for (nm, f), (kn, k) in itertools.product(ops.items(), kinds.items()):
    if not ctx.mine() or ctx.over():
      continue
    if kn in ('bn', 'ln', 'prelu') and not (nm.startswith('unannotated') or nm == 'inner_model'):
      continue
    keras.backend.clear_session()
    x = keras.Input((4,))
    try:
      m = keras.Model(x, f(x, k()))
    except ValueError:
      continue  # shapes do not fit
    with ctx.cell('%s with %s' % (nm, kn), timeout=120):
      qg.distinct(m)
      compare(m, 'apply ')
