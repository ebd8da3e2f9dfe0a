"""Q10: fixing and removing the ranges of the model boundary."""
import itertools
LEVEL = 'model_checking'
RULE = ('state = the model obtained by a sequence of the operations; transition = fixing the ranges, removing the input range, a training batch or '
        'saving and restoring, after which the model is compared with the frozen graph of its predecessor in which exactly the boundary quantizers were '
        'edited; distinct = distinct (model, sequence)')
ASSUME = ['the activation and output quantizers of the layers that produce the outputs are fixed; layers without such quantizers stay without']
BOUND = {'quick': '62 graphs x 2 of 8 settings of bits and ranges; on 8 of the graphs all sequences of up to 2 of 6 operations',
         'thorough': '62 graphs x 8 settings; all sequences of up to 3 operations on 8 graphs and of up to 2 on the others'}


def run(ctx):
  import re
  import numpy as np
  from env import tf, keras, tfmot, snap
  from mc import require
  import bfs, qg
  from qz import L, qw, ql
  from tensorflow_model_optimization.python.core.quantization.keras import quantize as Q
  qk = tfmot.quantization.keras
  SETTINGS = [
      dict(num_bits=8, input_min=0.0, input_max=1.0, output_min=0.0, output_max=1.0, narrow_range=False), dict(num_bits=4, input_min=-1.0, input_max=3.0, output_min=-2.0, output_max=0.5, narrow_range=True),
      dict(num_bits=8, input_min=-2.5, input_max=1.5, output_min=-1.0, output_max=3.0, narrow_range=False), dict(num_bits=2, input_min=0, input_max=3, output_min=-1, output_max=2, narrow_range=False),
      dict(num_bits=16, input_min=-8.0, input_max=8.0, output_min=-16.0, output_max=0.0, narrow_range=True), dict(num_bits=8, input_min=-127, input_max=127, output_min=-127, output_max=127, narrow_range=True),
      dict(num_bits=5, input_min=-0.125, input_max=0.25, output_min=-1e3, output_max=1e3, narrow_range=False), dict(num_bits=3, input_min=-6.0, input_max=0.0, output_min=0.0, output_max=6.0, narrow_range=True),
  ]

  FQ = tuple(qg.FQ) + ('FakeQuantWithMinMaxArgs',)

  def flow(f):
    """Names of the nodes of a frozen graph that depend on the inputs, and per node its node definition."""
    nodes = {n.name: n for n in f.graph.as_graph_def().node}
    dep = {}

    def d(name):
      name = name.split(':')[0].lstrip('^')
      if name not in dep:
        n = nodes[name]
        dep[name] = n.op == 'Placeholder' or any([d(i) for i in n.input])
      return dep[name]
    for n in nodes:
      d(n)
    return nodes, dep

  def concrete(m):
    specs = [tf.TensorSpec([2] + list(t.shape[1:]), t.dtype) for t in tf.nest.flatten(m.inputs)]

    def fn(*xs):
      return tf.nest.flatten(m(tf.nest.pack_sequence_as(m.input, list(xs)), training=False))
    return qg.freeze(qg.trace(fn, specs))

  def source(nodes, name):
    name = name.split(':')[0]
    while nodes[name].op in qg.SKIP:
      name = nodes[name].input[0].split(':')[0]
    return name

  def boundary(f, outs):
    """Fake quantization nodes of the inputs and of the output layers."""
    nodes, dep = flow(f)
    ins, out = [], []
    for name, n in nodes.items():
      if n.op not in FQ:
        continue
      s = source(nodes, n.input[0])
      if nodes[s].op == 'Placeholder':
        ins.append((name, s))
      elif dep[s] and any(o in name.split('/')[:-1] for o in outs):
        out.append(name)
    return nodes, ins, out

  def evaluate(f, xs, edit=None, args=True):
    gd = f.graph.as_graph_def()
    if edit:
      for n in list(gd.node):
        if n.name in edit:
          how = edit[n.name]
          if how is None:
            n.op = 'Identity'
            del n.input[1:]
            for a in list(n.attr):
              del n.attr[a]
            n.attr['T'].type = 1
          else:
            bits, narrow, lo, hi = how
            if args:
              n.op = 'FakeQuantWithMinMaxArgs'
              del n.input[1:]
              n.attr['min'].f, n.attr['max'].f = lo, hi
            else:
              for k, v in (('min', lo), ('max', hi)):
                c = gd.node.add()
                c.name, c.op = n.name + '_fixed_' + k, 'Const'
                c.attr['dtype'].type = 1
                c.attr['value'].tensor.CopyFrom(tf.make_tensor_proto(np.float32(v)))
              n.op = 'FakeQuantWithMinMaxVars'
              for a in ('min', 'max'):
                if a in n.attr:
                  del n.attr[a]
              del n.input[1:]
              n.input.extend([n.name + '_fixed_min', n.name + '_fixed_max'])
            n.attr['num_bits'].i, n.attr['narrow_range'].b = bits, narrow
    g = tf.Graph()
    with g.as_default():
      tf.import_graph_def(gd, name='')
    conf = tf.compat.v1.ConfigProto()  # graphs are run as they are, which makes the results exactly comparable
    conf.graph_options.rewrite_options.disable_meta_optimizer = True
    with tf.compat.v1.Session(graph=g, config=conf) as s:
      return s.run([t.name for t in f.outputs], {t.name: x for t, x in zip(f.inputs, xs)})

  def quantized_inputs(m):
    """For every input whether it has a quantize layer."""
    out = []
    for t in tf.nest.flatten(m.inputs):
      l = t._keras_history.layer
      out.append(any(isinstance(n.layer, ql.QuantizeLayer) for n in l._outbound_nodes))
    if isinstance(m, keras.Sequential):
      out = [isinstance(m.layers[0], ql.QuantizeLayer)]
    return out

  def outlayers(m):
    if isinstance(m, keras.Sequential):
      return [m.layers[-1].name]
    return sorted({t._keras_history.layer.name for t in tf.nest.flatten(m.outputs)})

  def ranges(layer):
    return [k for k, v in enumerate(layer.weights) if re.search(r'((pre|post)_activation|output)\w*_(min|max):', v.name)]

  def inputs_for(m, lo=None, hi=None):
    shapes = [t.shape[1:] for t in tf.nest.flatten(m.inputs)]
    return qg.samples([tuple(s) for s in shapes])

  def op(m, o):
    """Applies an operation and checks the result against its predecessor."""
    if o == 'train':
      x = inputs_for(m)[0]
      y = [np.zeros([2] + list(t.shape[1:]), np.float32) + 0.25 for t in tf.nest.flatten(m.outputs)]
      keep = boundary_values(m)
      m.compile(keras.optimizers.SGD(0.03, clipvalue=0.5), loss='mse', run_eagerly=True)
      xs = tf.nest.pack_sequence_as(m.input, x)
      ys = tf.nest.pack_sequence_as(m.output, y)
      for _ in range(2):
        m.train_on_batch(xs, ys)
        ctx.trans()
      require(boundary_values(m, True) == [k for k in keep], 'training changes fixed ranges %s to %s', keep, boundary_values(m, True))
      return m
    if o == 'restore':
      with qk.quantize_scope():
        r = type(m).from_config(m.get_config())
      r.set_weights(m.get_weights())
      for n in range(2):
        xs = inputs_for(m)[n]
        require(all(np.allclose(a, b, atol=1e-6) for a, b in zip(evaluate(concrete(m), xs), evaluate(concrete(r), xs))), 'restored model computes differently')
      fixed[id(r)] = fixed.get(id(m), ((), ()))
      alive.append(r)
      return r
    f0 = concrete(m)
    before, names = snap(m.weights), [l.name for l in m.layers]
    nodes, ins, outs = boundary(f0, outlayers(m))
    qin = quantized_inputs(m)
    place = [t.name.split(':')[0] for t in f0.inputs]
    with qk.quantize_scope():
      r = Q.remove_input_range(m) if o == 'remove' else Q.fix_input_output_range(m, **SETTINGS[o])
    require(r is not m and not set(map(id, r.weights)) & set(map(id, m.weights)), 'the result shares variables with the model')
    require(all(np.array_equal(a, b.numpy()) for a, b in zip(before, m.weights)), 'the model was changed')
    require(type(r) is type(m) and sorted(l.name for l in r.layers) == sorted(names), 'layers %s instead of %s', [l.name for l in r.layers], names)
    s = None if o == 'remove' else SETTINGS[o]
    edit = {n: None for n, _ in ins}
    if s:
      for n in outs:
        edit[n] = (s['num_bits'], s['narrow_range'], s['output_min'], s['output_max'])
    f1 = concrete(r)
    for xs in inputs_for(m):
      fed = []
      for k, x in enumerate(xs):
        if qin[k] and s:
          x = tf.quantization.fake_quant_with_min_max_args(x, s['input_min'], s['input_max'], s['num_bits'], s['narrow_range']).numpy()
        fed.append(x)
        if not qin[k]:  # not quantized: nothing to edit
          for n, p in ins:
            require(p != place[k], 'unexpected quantization of input %d', k)
      wants = [evaluate(f0, [x * np.float32(k) for x in fed], edit, a) for k, a in ((1, True), (1, False), (1 + 3e-6, True), (1 - 3e-6, True))]
      got = evaluate(f1, xs)
      require(len(wants[0]) == len(got), 'outputs')
      for a, a1, a2, a3, b in zip(*wants, got):
        # where a value is halfway between two grid points either is right
        require(a.shape == b.shape and np.min([np.abs(b - w) - 1e-4 * np.abs(w) for w in (a, a1, a2, a3)], 0).max() < 1e-5, '%s: the model computes %s instead of %s', o, b.reshape(-1)[:6], a.reshape(-1)[:6])
      ctx.evald((ctx.cur, o, [np.round(b, 4).tobytes() for b in got]))
    # ---- the quantizers that are there
    n1, ins1, outs1 = boundary(f1, outlayers(r))
    require(len(outs1) == len(outs), 'output quantizers %s instead of %s', outs1, outs)
    require(sorted(p for _, p in ins1) == (sorted(p for k, p in enumerate([t.name.split(':')[0] for t in f1.inputs]) if qin[k]) if s else []), 'input quantizers %s', ins1)
    inner = lambda nodes, skip: sorted((n.op.replace('Args', 'Vars'), n.attr['num_bits'].i, n.attr['narrow_range'].b) for n in nodes.values() if n.op in FQ and n.name not in skip)
    require(inner(nodes, [n for n, _ in ins] + outs) == inner(n1, [n for n, _ in ins1] + outs1), 'inner quantizers changed')
    # ---- weights
    for l in m.layers:
      t = r.get_layer(l.name)
      require(type(t) is type(l) and t.trainable == l.trainable, 'layer %s', l.name)
      skip = set()
      if isinstance(l, ql.QuantizeLayer):
        skip = {k for k, v in enumerate(l.weights) if v.name.split(':')[0].endswith(('_min', '_max'))}
      elif l.name in outlayers(m) and s:
        skip = set(ranges(l))
      a = [v.numpy() for k, v in enumerate(l.weights) if k not in skip]
      skip1 = {k for k, v in enumerate(t.weights) if isinstance(t, ql.QuantizeLayer) and v.name.split(':')[0].endswith(('_min', '_max'))} | (set(ranges(t)) if skip and not isinstance(t, ql.QuantizeLayer) else set())
      b = [v.numpy() for k, v in enumerate(t.weights) if k not in skip1]
      require(len(a) == len(b) and all(np.array_equal(u, v) for u, v in zip(a, b)), 'the weights of %s are not carried over', l.name)
    fixed[id(r)] = ((SETTINGS[o]['input_min'], SETTINGS[o]['input_max']) if s else (), (SETTINGS[o]['output_min'], SETTINGS[o]['output_max']) if s else fixed.get(id(m), ((), ()))[1])
    alive.append(r)
    return r
  fixed, alive = {}, []

  def boundary_values(m, after=False):
    """The ranges of the fixed boundary quantizers."""
    f = concrete(m)
    nodes, ins, outs = boundary(f, outlayers(m))
    want = fixed.get(id(m), ((), ()))
    res = []
    for names, w in (([n for n, _ in ins], want[0]), (outs, want[1])):
      if w:
        for n in names:
          if nodes[n].op.endswith('Args'):
            v = (round(nodes[n].attr['min'].f, 5), round(nodes[n].attr['max'].f, 5))
            res.append(v)
            require(np.allclose(v, w, rtol=1e-5), 'range %s instead of %s', v, w)
            continue
          v = tuple(round(float(tf.make_ndarray(nodes[source(nodes, i)].attr['value'].tensor)), 5) if nodes[source(nodes, i)].op == 'Const' else None for i in nodes[n].input[1:])
          if None in v:
            continue
          res.append(v)
          require(np.allclose(v, w, rtol=1e-5), 'range %s instead of %s', v, w)
    return res

  def seq(shape, *ls):
    def mk():
      m = keras.Sequential([keras.Input(shape)] + [l() for l in ls])
      return m
    return mk

  def functional(graph, **kw):
    return lambda: qg.build(graph, **kw)
  D = lambda *a, **k: (lambda: L.Dense(*a, **k))
  X, Im = ((3,),), ((3, 3, 2),)
  graphs = {}
  flat = ('dense', 'denserelu', 'densesoftmax', 'densetanh', 'relu', 'arelu', 'leaky', 'softmax', 'dropout', 'asigmoid')
  for a in flat:
    graphs['sequential dense, %s' % a] = functional(qg.chain((3,), ('densetanh', a)), sequential=True)
    graphs['functional dense, %s' % a] = functional(qg.chain((3,), ('dense', a)))
  for a in ('conv', 'convrelu', 'dw', 'sep', 'tconv', 'bn', 'relu', 'maxpool', 'avgpool', 'gap', 'flatten', 'up'):
    graphs['sequential conv, %s' % a] = functional(qg.chain((3, 3, 2), ('conv', a)), sequential=True)
  for a in ('conv', 'dw', 'sep', 'bn', 'gap', 'pad', 'flatten'):
    graphs['functional %s, conv' % a] = functional(qg.chain((4, 4, 2), (a, 'conv') if a not in ('gap', 'flatten') else (a, 'dense'))) if a != 'bn' else functional(qg.chain((4, 4, 2), ('conv', 'bn', 'relu')))
  more = {
      'two inputs': (X * 2, (('dense', (0,)), ('dense', (1,)), ('add', (2, 3))), (4,)), 'two outputs': (X, (('dense', (0,)), ('densetanh', (0,))), (1, 2)),
      'inner output': (X, (('dense', (0,)), ('densetanh', (1,))), (1, 2)), 'inner output last': (X, (('dense', (0,)), ('densetanh', (1,))), (2, 1)), 'three outputs': (X, (('dense', (0,)), ('denserelu', (1,)), ('densetanh', (1,))), (3, 1, 2)),
      'concatenation': (X * 2, (('dense', (0,)), ('dense', (1,)), ('concat', (2, 3))), (4,)), 'concatenation of inputs': (X * 2, (('concat', (0, 1)), ('dense', (2,))), (3,)),
      'addition of input': (X, (('dense', (0,)), ('densetanh', (1,))), (2,)), 'input used twice': (X, (('dense', (0,)), ('denserelu', (0,)), ('concat', (1, 2))), (3,)),
      'three inputs': (X * 3, (('add', (0, 1)), ('concat', (3, 2)), ('dense', (4,))), (5,)), 'swapped inputs': (X * 2, (('dense', (1,)), ('denserelu', (0,)), ('concat', (2, 3)), ('dense', (4,))), (5,)),
      'residual': (Im, (('conv', (0,)), ('conv', (1,)), ('add', (1, 2)), ('relu', (3,))), (4,)), 'two outputs of convolutions': (Im, (('conv', (0,)), ('bn', (1,)), ('relu', (2,)), ('gap', (3,)), ('dense', (4,))), (3, 5)),
      'add of inputs': (X * 2, (('add', (0, 1)),), (2,)), 'same output twice': (X, (('dense', (0,)), ('densetanh', (0,))), (1, 2, 1)), 'dense of two inputs, outputs': (X * 2, (('dense', (0,)), ('densetanh', (1,))), (3, 2)),
  }
  for k, g in more.items():
    graphs[k] = functional(g)

  def dicts():
    a, b = keras.Input((3,), name='a'), keras.Input((3,), name='b')
    return keras.Model({'b': b, 'a': a}, {'z': L.Dense(2, name='one')(a), 'y': L.Dense(2, activation='tanh', name='two')(b)})

  def lists():
    a, b = keras.Input((3,), name='a'), keras.Input((3,), name='b')
    return keras.Model([b, a], [L.Dense(2, name='one')(a), [L.Dense(2, name='two')(b)]] if False else [L.Dense(2, name='one')(a), L.Dense(2, name='two')(b)])

  def partial():
    i = keras.Input((3,)); j = keras.Input((3,))
    return keras.Model([i, j], qk.quantize_annotate_layer(L.Dense(2, name='q'))(L.Add()([L.Dense(3, name='p')(i), j])))

  def partial2():
    i = keras.Input((3,))
    return keras.Model(i, L.Dense(2, name='p')(qk.quantize_annotate_layer(L.Dense(3, name='q'))(i)))

  def frozen():
    i = keras.Input((3,))
    return keras.Model(i, L.Dense(2, name='p')(L.Dense(3, name='q', trainable=False)(i)))
  graphs.update({'dictionaries': dicts, 'lists': lists, 'input not quantized': partial, 'output not quantized': partial2, 'frozen': frozen, 'three dense': seq((3,), D(3), D(3, activation='relu'), D(2)), 'one dense': seq((3,), D(2))})

  def make(mk):
    keras.backend.clear_session()
    m = mk()
    with keras.utils.custom_object_scope({}):
      if any(type(l).__name__ == 'QuantizeAnnotate' for l in m.layers):
        q = Q.quantize_apply(m)
      else:
        qg.distinct(m)
        q = qk.quantize_model(m)
    # ranges that are really in use, different for all quantizers
    k = 0
    for l in q.layers:
      vals = []
      for v in l.weights:
        k += 1
        b = v.name.split(':')[0]
        vals.append(np.full(v.shape, -1.0 - 0.125 * k, np.float32) if b.endswith('_min') else np.full(v.shape, 1.5 + 0.25 * k, np.float32) if b.endswith('_max') else v.numpy())
      l.set_weights(vals)
    return q

  full = ('two outputs', 'two inputs', 'inner output', 'sequential conv, relu', 'three dense', 'dictionaries', 'functional dense, densesoftmax', 'residual')
  OPS = [1, 2, 'remove', 'train', 'restore', 4]
  for gi, (name, mk) in enumerate(graphs.items()):
    hists = [(k,) for k in range(8)] if ctx.thorough else [(gi % 8,), ((gi + 3) % 8,)]
    hists.append(('remove',))
    if name in full or ctx.thorough:
      hists += [h for n in range(2, ctx.pick(2, 3 if name in full else 2) + 1) for h in itertools.product(OPS, repeat=n)]
    for h in hists:
      if not ctx.mine() or ctx.over():
        continue
      with ctx.cell('%s, %s' % (name, ' then '.join(str(o) if isinstance(o, str) else 'fixing %d' % o for o in h))):
        fixed.clear(); del alive[:]
        m = make(mk)
        for o in h:
          m = op(m, o)
          ctx.trans()
        ctx.trace()
        ctx.state((name, h))
        ctx.sample({'graph': name, 'operations': [str(o) for o in h]})
  # ---- models that are not quantized
  if ctx.mine() and not ctx.over():
    for f, fn in (('fixing', Q.fix_input_output_range), ('removing', Q.remove_input_range)):
      for nm, mk in (('dense', seq((3,), D(2))), ('two dense', seq((3,), D(2), D(2)))):
        with ctx.cell('%s of a plain model, %s' % (f, nm)):
          try:
            with qk.quantize_scope():
              fn(mk())
          except ValueError:
            continue
          require(False, 'accepted')
