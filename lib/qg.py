"""Canonical dataflow terms of Keras models and a reference quantizer for model graphs.

A term is the nested expression of TensorFlow operations that computes an
output from the inputs and the values of the weights: names, identities and
the ranges of fake quantization do not matter, operations, attributes,
operand order and weight values do.
"""
import hashlib
import numpy as np
from env import tf, keras, tfmot
from mc import require
L = keras.layers
if hasattr(keras.__internal__, 'enable_unsafe_deserialization'):
  keras.__internal__.enable_unsafe_deserialization()  # Lambda layers, as the library's tests do
SKIP = {'Identity', 'StopGradient', 'ReadVariableOp', 'EnsureShape', 'PreventGradient', 'Snapshot'}
NOATTR = {'T', 'dtype', 'Tidx', 'Tperm', 'N', 'out_type', 'Tshape', 'container', 'shared_name', 'DstT', 'SrcT', 'Truncate', 'Index', 'use_cudnn_on_gpu',
          'U', 'Tdim', 'grad_a', 'grad_b', 'Tpaddings', 'T_threshold', 'Taxis', 'Tparams', 'Tindices', 'output_types', 'output_shapes'}
FQ = ('FakeQuantWithMinMaxVars', 'FakeQuantWithMinMaxVarsPerChannel')


def digest(a):
  a = np.ascontiguousarray(a)
  return hashlib.md5(repr((a.shape, str(a.dtype))).encode() + a.tobytes()).hexdigest()[:10]


def trace(fn, specs):
  c = tf.function(fn, autograph=False).get_concrete_function(*specs)
  return c


class Terms:
  """Terms of the outputs of a traced function."""

  def __init__(self, concrete, keep_fq=True, names=None):
    self.concrete = concrete
    self.g = concrete.graph
    self.keep_fq = keep_fq
    self.memo = {}
    self.names = names or {}
    self.captures = {id(inner): outer for outer, inner in self.g.captures}
    self.inputs = {}
    n = 0
    for t in self.g.inputs:
      if id(t) not in self.captures:
        self.inputs[t.name] = n
        n += 1
    self.values = {}
    for v in self.g.variables:
      self.values[id(v.handle)] = v
    self.fq = []   # fake quantization operations met, as (op, printable operand)
    self.out = [self.term(t) for t in tf.nest.flatten(self.g.structured_outputs)]

  def term(self, t):
    if t.name in self.inputs:
      return 'input%d' % self.inputs[t.name]
    cap = [o for o, i in self.g.captures if i is t]
    if cap:
      for v in self.g.variables:
        if v.handle is cap[0]:
          return 'w%s[%s]' % (str(v.shape).replace(' ', ''), digest(v.numpy()))
      return 'c[%s]' % digest(cap[0].numpy())
    op = t.op
    key = (op.name, t.value_index)
    if key not in self.memo:
      self.memo[key] = self.make(op, t.value_index)
    return self.memo[key]

  def make(self, op, i):
    if op.type in SKIP:
      return self.term(op.inputs[0])
    if op.type == 'Const':
      v = tf.make_ndarray(op.get_attr('value'))
      return str(v.tolist()) if v.size <= 8 and v.dtype != object else 'k[%s]' % digest(v)
    if op.type in ('PartitionedCall', 'StatefulPartitionedCall'):
      return self.call(op, i)
    ins = list(op.inputs)
    if op.type in FQ:
      a = self.term(ins[0])
      self.fq.append((op, a))
      if not self.keep_fq:
        return a
      return self.short('q%d%s%s(%s)' % (op.get_attr('num_bits'), 'n' if op.get_attr('narrow_range') else '', 'c' if op.type.endswith('Channel') else '', a))
    if op.type == 'Transpose' and not self.keep_fq:
      # transposing twice (around a quantizer that is left out) is nothing
      p = tf.get_static_value(ins[1])
      s = ins[0]
      while s.op.type in SKIP or s.op.type in FQ:
        s = s.op.inputs[0]
      if p is not None and s.op.type == 'Transpose':
        p2 = tf.get_static_value(s.op.inputs[1])
        if p2 is not None and list(p2[p]) == list(range(len(p))):
          return self.term(s.op.inputs[0])
    attrs = []
    for k in sorted(op.node_def.attr):
      if k.startswith('_') or k in NOATTR:
        continue
      attrs.append('%s=%s' % (k, str(op.node_def.attr[k]).replace('\n', ' ')))
    return self.short('%s%s(%s)%s' % (op.type, '{%s}' % digest(np.frombuffer(';'.join(attrs).encode(), np.uint8)) if attrs else '', ','.join(self.term(x) for x in ins), ':%d' % i if i else ''))

  def call(self, op, i):
    raise NotImplementedError(op.type)

  def short(self, s):
    # Keeps terms of shared subgraphs small: long ones are replaced by a digest.
    return s if len(s) < 1500 else s[:40] + '..#' + hashlib.md5(s.encode()).hexdigest()


def specs_of(model):
  return [tf.TensorSpec([2] + list(t.shape[1:]), t.dtype) for t in model.inputs]


def terms(model, keep_fq=True, training=False):
  def fn(*xs):
    return model(xs[0] if len(xs) == 1 else list(xs), training=training)
  return Terms(trace(fn, specs_of(model)), keep_fq)


def distinct(model, salt=0):
  """Gives every weight of the model its own values (variances stay positive)."""
  for l, layer in enumerate(model.layers):
    ws = layer.weights
    vals = []
    for j, w in enumerate(ws):
      n = int(np.prod(w.shape))
      a = np.array([((7 * i + 13 * l + 5 * j + salt) % 31 - 14.5) / (9.0 + l + 0.5 * j) for i in range(n)], np.float32).reshape(w.shape)
      vals.append(np.abs(a) + 0.25 if 'variance' in w.name else a)
    if ws:
      layer.set_weights(vals)


# ------------------------------------------------------------------ graphs
# graph = (input shapes, ((kind, (source, ...)), ...), (output, ...)); the
# sources 0..n-1 are the inputs, n.. the layers in order.
KINDS = {
    'conv': lambda: L.Conv2D(2, 1), 'conv3': lambda: L.Conv2D(3, 2, padding='same', use_bias=False), 'convrelu': lambda: L.Conv2D(2, 1, activation='relu'),
    'convsoftmax': lambda: L.Conv2D(2, 1, activation='softmax'), 'convsw': lambda: L.Conv2D(2, 1, strides=2, activation='swish', padding='same'),
    'dw': lambda: L.DepthwiseConv2D(2, padding='same'), 'dwm': lambda: L.DepthwiseConv2D(1, depth_multiplier=2, use_bias=False), 'dwrelu': lambda: L.DepthwiseConv2D(2, padding='same', activation='relu'),
    'sep': lambda: L.SeparableConv2D(2, 2, padding='same'), 'seprelu': lambda: L.SeparableConv2D(3, 2, activation='relu', use_bias=False, depth_multiplier=2),
    'tconv': lambda: L.Conv2DTranspose(2, 2), 'bn': lambda: L.BatchNormalization(), 'relu': lambda: L.ReLU(), 'relu6': lambda: L.ReLU(6.0),
    'arelu': lambda: L.Activation('relu'), 'arelu6': lambda: L.Activation(tf.nn.relu6), 'asoftmax': lambda: L.Activation('softmax'), 'atanh': lambda: L.Activation('tanh'), 'asigmoid': lambda: L.Activation('sigmoid'),
    'aswish': lambda: L.Activation('swish'), 'agelu': lambda: L.Activation('gelu'), 'alinear': lambda: L.Activation('linear'), 'leaky': lambda: L.LeakyReLU(0.25), 'softmax': lambda: L.Softmax(),
    'avgpool': lambda: L.AveragePooling2D(2, 1), 'maxpool': lambda: L.MaxPooling2D(2, 1, padding='same'), 'gap': lambda: L.GlobalAveragePooling2D(), 'gmp': lambda: L.GlobalMaxPooling2D(),
    'up': lambda: L.UpSampling2D(2), 'pad': lambda: L.ZeroPadding2D(1), 'crop': lambda: L.Cropping2D(((0, 1), (1, 0))), 'dropout': lambda: L.Dropout(0.5), 'sdropout': lambda: L.SpatialDropout2D(0.5),
    'flatten': lambda: L.Flatten(), 'permute': lambda: L.Permute((2, 1, 3)), 'areg': lambda: L.ActivityRegularization(0.0),
    'dense': lambda: L.Dense(2), 'denserelu': lambda: L.Dense(3, activation='relu'), 'densesoftmax': lambda: L.Dense(2, activation='softmax'), 'densetanh': lambda: L.Dense(2, activation='tanh', use_bias=False),
    'densesig': lambda: L.Dense(2, activation='sigmoid'), 'densegelu': lambda: L.Dense(2, activation='gelu'), 'denseswish': lambda: L.Dense(2, activation='swish'),
    'reshape': lambda: L.Reshape((2, -1)), 'reshape4': lambda: L.Reshape((1, 2, -1)),
    'sep1d': lambda: L.SeparableConv1D(2, 2, padding='same'), 'sep1drelu': lambda: L.SeparableConv1D(3, 1, activation='relu', use_bias=False), 'avg1d': lambda: L.AveragePooling1D(1), 'gap1d': lambda: L.GlobalAveragePooling1D(),
    'gmp1d': lambda: L.GlobalMaxPooling1D(), 'pad1d': lambda: L.ZeroPadding1D(1), 'crop1d': lambda: L.Cropping1D((0, 1)), 'sdropout1d': lambda: L.SpatialDropout1D(0.5),
    'gap3d': lambda: L.GlobalAveragePooling3D(), 'gmp3d': lambda: L.GlobalMaxPooling3D(), 'crop3d': lambda: L.Cropping3D(((0, 1), (0, 0), (1, 0))), 'sdropout3d': lambda: L.SpatialDropout3D(0.5),
    'add': lambda: L.Add(), 'concat': lambda: L.Concatenate(),
    'lambda': lambda: L.Lambda(lambda v: v * 0.5), 'prelu': lambda: L.PReLU(), 'maxpool1d': lambda: L.MaxPooling1D(1), 'mul': lambda: L.Multiply(), 'ln': lambda: L.LayerNormalization(),
}


def chain(shape, kinds):
  return ((shape,), tuple((k, (i,)) for i, k in enumerate(kinds)), (len(kinds),))


def build(graph, wrap=None, sequential=False, frozen=()):
  """Keras model of a graph; wrap(index, layer) may annotate a layer."""
  shapes, nodes, outs = graph
  keras.backend.clear_session()
  wrap = wrap or (lambda i, l: l)
  if sequential:
    m = keras.Sequential([keras.Input(shapes[0])] + [wrap(i, KINDS[k]()) for i, (k, _) in enumerate(nodes)])
  else:
    ts = [keras.Input(s, name='in%d' % i) for i, s in enumerate(shapes)]
    ins = list(ts)
    for i, (k, src) in enumerate(nodes):
      l = wrap(i, KINDS[k]())
      ts.append(l([ts[s] for s in src] if len(src) > 1 or k in ('add', 'concat', 'mul') else ts[src[0]]))
    m = keras.Model(ins if len(ins) > 1 else ins[0], [ts[o] for o in outs] if len(outs) > 1 else ts[outs[0]])
  distinct(m)
  return m


# --------------------------------------------------------------- reference
class Node:

  def __init__(self, layer, src, name=None):
    self.layer, self.src = layer, src
    self.kind = type(layer).__name__ if layer is not None else name
    self.w = self.act = None   # weight quantization: 't' or 'c'; activation: 'own' or None
    self.out = False           # output quantized
    self.done = False          # decided by a fusion rule
    self.annotated = True
    self.custom = None         # ((weight attr, bits)..), ((activation attr, bits)..), output bits
    self.front = None          # kind of output quantization as the layer before an annotated one
    self.known = True

  def actname(self):
    a = self.layer.activation
    return getattr(a, '__name__', type(a).__name__)


OUTQ = ('ReLU', 'LeakyReLU', 'Concatenate', 'UpSampling2D', 'AveragePooling1D', 'AveragePooling2D', 'GlobalAveragePooling1D', 'GlobalAveragePooling2D', 'GlobalAveragePooling3D', 'Add')
NOQ = ('Softmax', 'Cropping1D', 'Cropping2D', 'Cropping3D', 'ZeroPadding1D', 'ZeroPadding2D', 'ActivityRegularization', 'Dropout', 'Flatten', 'Permute', 'Reshape', 'SpatialDropout1D', 'SpatialDropout2D', 'SpatialDropout3D',
       'GlobalMaxPooling1D', 'GlobalMaxPooling2D', 'GlobalMaxPooling3D', 'MaxPooling2D')
PRE, POST = ('softmax', 'sigmoid', 'tanh', 'gelu'), ('linear', 'relu', 'swish', 'gelu')


class Unsupported(Exception):
  pass


def default(n, per_axis, nbit):
  """What the registry of the scheme quantizes in a single layer."""
  if n.kind == 'Dense':
    n.w, n.act = 't', 'own'
  elif n.kind in ('Conv2D', 'DepthwiseConv2D'):
    n.w, n.act = ('c' if per_axis else 't'), 'own'
  elif n.kind == 'Conv2DTranspose':
    n.w, n.act = 't', 'own'
  elif n.kind == 'Activation':
    n.out = n.actname() in ('relu', 'swish', 'gelu', 'relu6')
    if n.actname() not in ('relu', 'swish', 'gelu', 'relu6', 'linear', 'softmax', 'sigmoid', 'tanh') or (nbit and n.actname() == 'gelu'):
      n.known = False
  elif n.kind in OUTQ:
    n.out = True
  elif n.kind not in NOQ:
    n.known = False
  if n.act and n.actname() not in PRE + POST:
    n.known = False


def reference(graph, layers, annotated=None, per_axis=True, nbit=False, custom=None):
  """Decides what the scheme quantizes: list of nodes (inputs first), outputs."""
  shapes, gnodes, outs = graph
  annotated = set(range(len(gnodes))) if annotated is None else set(annotated)
  nodes, where, custom = [], {}, custom or {}
  for i, s in enumerate(shapes):
    n = Node(None, [], 'input'); n.index = i
    where[i] = len(nodes); nodes.append(n)

  def put(layer, src, a, **kw):
    n = Node(layer, src); n.annotated = a
    for k, v in kw.items():
      setattr(n, k, v)
    nodes.append(n)
    return len(nodes) - 1
  def clone(cls, cfg, weights, shape):
    l = cls(**cfg)
    l.build(shape); l.set_weights(weights)
    return l
  for j, (k, src) in enumerate(gnodes):
    l, a = layers[j], j in annotated
    s = [where[x] for x in src]
    c = l.get_config()
    if l.weights:  # a private copy: quantizing replaces attributes
      orig, l = l, type(l).from_config(c)
      l.build(orig.ref_shape if hasattr(orig, 'ref_shape') else orig.input_shape)
      l.set_weights(orig.get_weights())
    if a and j not in custom and type(l).__name__ in ('SeparableConv2D', 'SeparableConv1D'):
      ws = l.get_weights()
      one = type(l).__name__ == 'SeparableConv1D'
      up = (lambda t: (1,) + tuple(t)) if one else tuple
      if one:
        ws = [w[None] for w in ws[:2]] + ws[2:]
        s = [put(L.Lambda(lambda v: tf.expand_dims(v, 1)), s, a, done=True, kind='expand')]
        c['strides'] = (c['strides'][0],)
      cin = ws[0].shape[2]
      d = clone(L.DepthwiseConv2D, dict(kernel_size=up(c['kernel_size']), strides=tuple(c['strides']) * 2 if one else c['strides'], padding=c['padding'], depth_multiplier=c['depth_multiplier'], use_bias=False), ws[:1], (None, None, None, cin))
      p = clone(L.Conv2D, dict(filters=c['filters'], kernel_size=1, activation=c['activation'], use_bias=c['use_bias']), ws[1:], (None, None, None, ws[0].shape[2] * ws[0].shape[3]))
      i = put(p, [put(d, s, a)], a)
      if one:
        i = put(L.Lambda(lambda v: tf.squeeze(v, [1])), [i], a, done=True, kind='squeeze')
    else:
      i = put(l, s, a, custom=custom.get(j) if a else None)
    where[len(shapes) + j] = i
  outs = [where[o] for o in outs]
  users = lambda i: sum(n.src.count(i) > 0 for n in nodes) + outs.count(i)
  # default decisions
  for n in nodes:
    if n.done or n.kind == 'input' or not n.annotated or n.custom:
      continue
    default(n, per_axis, nbit)
  # fusion
  isrelu = lambda n: n.kind == 'ReLU' or n.kind == 'Activation' and n.actname() == 'relu'
  for i, n in enumerate(nodes):
    if n.kind == 'BatchNormalization' and n.annotated and not n.custom:
      s = nodes[n.src[0]]
      if users(n.src[0]) == 1 and s.kind == 'squeeze':
        s = nodes[s.src[0]]
      elif users(n.src[0]) > 1:
        continue
      if s.kind in ('Conv2D', 'DepthwiseConv2D', 'Conv2DTranspose', 'Dense') and s.annotated and not s.custom and s.actname() == 'linear' and (s.kind != 'Dense' or nodes[n.src[0]].kind == 'Dense'):
        s.act, n.known, n.out = None, True, True
        head = [m for m in nodes if i in m.src]
        if users(i) == 1 and head and isrelu(head[0]) and head[0].annotated and not head[0].custom:
          n.out = False
    if isrelu(n) and n.annotated:
      s = nodes[n.src[0]]
      if s.annotated and not s.custom and users(n.src[0]) == 1 and s.kind in ('Add', 'Conv2D', 'DepthwiseConv2D', 'Conv2DTranspose', 'Dense'):
        s.act, s.out, s.beforerelu = None, False, True
  # inputs
  for i, n in enumerate(nodes):
    if n.kind == 'input':
      n.out = any(i in m.src and m.annotated for m in nodes)
  # concatenation
  for n in nodes:
    if n.kind == 'Concatenate' and n.annotated and 2 <= len(n.src) <= 6:
      f = [nodes[i] for i in n.src]
      if all(m.annotated and m.known and users(i) == 1 for i, m in zip(n.src, f)) and len(set(n.src)) == len(n.src):
        for m in f:
          m.out = False
          if m.custom:
            m.custom = m.custom[:2] + (0,)
  # layers in front of an annotated layer
  for n in nodes:
    if n.annotated and len(n.src) == 1:
      m = nodes[n.src[0]]
      if m.kind != 'input' and not m.annotated:
        default(m, per_axis, nbit)
        if not m.known:
          m.act, m.out, m.known = None, False, True
        m.w = None
  return nodes, outs


def unsupported(nodes):
  return [n.kind for n in nodes if n.annotated and not n.known]


def run_reference(nodes, outs, xs, bits_w=8, bits_a=8, kernel_before_relu=True):
  """Computes the reference with fake quantization where it was decided."""
  q = lambda x: tf.quantization.fake_quant_with_min_max_vars(x, -6.0, 6.0, num_bits=bits_a)

  def qw(w, how):
    if how == 'c':
      r = tf.ones([w.shape[-1]])
      return tf.quantization.fake_quant_with_min_max_vars_per_channel(w, -r, r, num_bits=bits_w, narrow_range=True)
    return tf.quantization.fake_quant_with_min_max_vars(w, -6.0, 6.0, num_bits=bits_w, narrow_range=True)
  ts = []
  for n in nodes:
    if n.kind == 'input':
      y = xs[n.index]
    else:
      a = [ts[s] for s in n.src]
      a = a if len(a) > 1 or n.kind in ('Add', 'Concatenate', 'Multiply') else a[0]
      l = n.layer
      if n.custom:
        ts.append(run_custom(n, a))
        continue
      attr = 'depthwise_kernel' if n.kind == 'DepthwiseConv2D' else 'kernel'
      if n.w:
        w = getattr(l, attr)
        if not getattr(n, 'beforerelu', False) or kernel_before_relu:
          v = qw(w, n.w) if n.kind != 'Conv2DTranspose' else tf.transpose(qw(tf.transpose(w, (0, 1, 3, 2)), n.w), (0, 1, 3, 2))
          setattr(l, attr, v)
      if n.act:
        f, nm = l.activation, n.actname()
        l.activation = lambda v, f=f, nm=nm: (q if nm in POST else (lambda z: z))(f((q if nm in PRE else (lambda z: z))(v)))
      try:
        kw = {'training': False} if 'training' in l._call_spec.arg_names else {}
        y = l.call(a, **kw) if not isinstance(l, keras.Model) else l(a)
      finally:
        if n.w:
          setattr(l, attr, w)
        if n.act:
          l.activation = f
    ts.append(q(y) if n.out else y)
  return [ts[o] for o in outs]


def run_custom(n, a):
  """The layer with exactly the quantizers of a custom configuration."""
  l, (ws, acts, o) = n.layer, n.custom
  q = lambda x, bits, narrow=False: tf.quantization.fake_quant_with_min_max_vars(x, -6.0, 6.0, num_bits=bits, narrow_range=narrow)
  old = {k: getattr(l, k) for k, _ in ws + acts}
  for k, bits in ws:
    setattr(l, k, q(old[k], bits, True))
  for k, bits in acts:
    nm = getattr(old[k], '__name__', type(old[k]).__name__)
    setattr(l, k, lambda v, f=old[k], bits=bits, nm=nm: (q if nm in POST else (lambda z, b: z))(f((q if nm in PRE else (lambda z, b: z))(v, bits)), bits))
  try:
    kw = {'training': False} if 'training' in l._call_spec.arg_names else {}
    y = l.call(a, **kw)
  finally:
    for k, v in old.items():
      setattr(l, k, v)
  return q(y, o) if o else y


def ref_terms(graph, layers, keep_fq=True, **kw):
  d = {k: kw.pop(k) for k in ('bits_w', 'bits_a', 'kernel_before_relu') if k in kw}
  nodes, outs = reference(graph, layers, **kw)
  shapes = graph[0]

  def fn(*xs):
    return run_reference(nodes, outs, xs, **d)
  return Terms(trace(fn, [tf.TensorSpec([2] + list(s), tf.float32) for s in shapes]), keep_fq), nodes


# ------------------------------------------- fallback: compare by values
def freeze(concrete):
  from tensorflow.python.framework.convert_to_constants import convert_variables_to_constants_v2
  return convert_variables_to_constants_v2(concrete)


def values(concrete, xs, keep_fq=False):
  """Outputs without fake quantization and, for every fake quantization, the
  kind and the (sorted) values it is applied to."""
  f = freeze(concrete)
  gd = f.graph.as_graph_def()
  fqs = []
  for n in gd.node:
    if n.op in FQ:
      fqs.append((n.op.endswith('Channel'), n.attr['num_bits'].i, n.attr['narrow_range'].b, n.input[0]))
      if not keep_fq:
        src, t = n.input[0], 1
        n.op = 'Identity'
        del n.input[1:]
        for a in list(n.attr):
          if not a.startswith('_'):
            del n.attr[a]
        n.attr['T'].type = 1
  g = tf.Graph()
  with g.as_default():
    tf.import_graph_def(gd, name='')
  with tf.compat.v1.Session(graph=g) as s:
    feed = {t.name: x for t, x in zip(f.inputs, xs)}
    full = lambda n: n if ':' in n else n + ':0'
    outs = s.run([t.name for t in f.outputs], feed)
    ops = s.run([full(n[3]) for n in fqs], feed) if fqs else []
  key = lambda a: np.sort(np.asarray(a, np.float64).ravel())
  return outs, [(n[:3], key(o)) for n, o in zip(fqs, ops)]


def samples(shapes, n=3):
  out = []
  for k in range(n):
    out.append([np.array([((11 * i + 5 * j + 3 * k) % 17 - 8.25) / (3.0 + k) for i in range(2 * int(np.prod(s)))], np.float32).reshape([2] + list(s)) for j, s in enumerate(shapes)])
  return out


def same_function(a, b, shapes, tol=1e-4):
  """Without fake quantization both functions compute the same values."""
  for xs in samples(shapes):
    oa, _ = values(a, xs)
    ob, _ = values(b, xs)
    if len(oa) != len(ob):
      return 'has %d outputs instead of %d' % (len(oa), len(ob))
    for i, (x, y) in enumerate(zip(oa, ob)):
      if x.shape != y.shape or not np.allclose(x, y, rtol=tol, atol=tol):
        return 'output %d differs: %s instead of %s' % (i, x.ravel()[:4], y.ravel()[:4])
  return None


def same_quantizers(a, b, shapes, tol=1e-4):
  """Both functions fake-quantize the same values in the same way."""
  for xs in samples(shapes):
    fa, fb = values(a, xs)[1], values(b, xs)[1]
    todo = list(fb)
    for kind, v in fa:
      for i, (k2, v2) in enumerate(todo):
        if kind == k2 and v.shape == v2.shape and np.allclose(v, v2, rtol=tol, atol=tol):
          del todo[i]
          break
      else:
        return 'quantizer (per channel, bits, narrow) %s of values %s.. is not expected' % (kind, v[:4])
    if todo:
      return 'quantizer (per channel, bits, narrow) %s of values %s.. is missing' % (todo[0][0], todo[0][1][:4])
  return None


def named_build():
  """From now on layers of graphs are named n0, n1, .. after their position."""
  global build, _plain_build
  if '_plain_build' in globals():
    return
  _plain_build = build

  def build(graph, wrap=None, sequential=False, frozen=()):
    def w(i, l):
      l._name = 'n%d' % i
      return wrap(i, l) if wrap else l
    return _plain_build(graph, w, sequential, frozen)


def valid(g):
  """Whether Keras itself accepts the graph."""
  try:
    build(g)
    return True
  except (ValueError, IndexError):
    return False


def name(g):
  return '%s %s -> %s' % (list(g[0]), ' '.join('%s%s' % (k, list(s)) for k, s in g[1]), list(g[2]))


def join(branches, merge, tail, shape=(2, 2, 2)):
  """Branches from the input, merged, then a tail."""
  nodes, ends, n = [], [], 1
  for br in branches:
    at = 0
    for k in br:
      nodes.append((k, (at,))); at = n; n += 1
    ends.append(at)
  nodes.append((merge, tuple(ends))); at = n; n += 1
  for k in tail:
    nodes.append((k, (at,))); at = n; n += 1
  return ((shape,), tuple(nodes), (at,))


KINDS['avgsame'] = lambda: L.AveragePooling2D(2, 1, padding='same')
KINDS['crop2'] = lambda: L.Cropping2D(1)


def concrete(model, training=False):
  """The model as a function of one argument, structured like its inputs."""
  xs = tf.nest.map_structure(lambda t: tf.TensorSpec([2] + list(t.shape[1:]), t.dtype), model.input)
  return tf.function(lambda x: model(x, training=training), autograph=False).get_concrete_function(xs)


def try_terms(c, keep_fq):
  try:
    return Terms(c, keep_fq).out
  except NotImplementedError:
    return None
