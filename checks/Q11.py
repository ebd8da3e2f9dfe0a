"""Q11: a converted quantized model computes in 8 bit integers what the Keras model computes."""
import itertools
LEVEL = 'exploration'
RULE = ('case = (model graph, ranges of the activations); the quantized model is converted by the TensorFlow Lite converter, run by the TensorFlow Lite '
        'interpreter on a set of inputs and compared with the Keras model; distinct = distinct integer outputs')
ASSUME = ['the installed converter and interpreter (reference kernels) are the oracle', 'weights are scaled so that every layer is contractive; then each integer operation adds at most one step of its output',
          'dense layers on images, layers with swish, dense layers and transposed convolutions with batch normalization are compared in value only (the converter keeps floating point operations there)']
BOUND = {'quick': 'chains of 1 layer over 46 kinds, of 2 and 3 over 5 to 10 kinds, 35 joins, 2 settings of ranges, 8 inputs each; 24 zero and cluster patterns of the preserving schemes',
         'thorough': 'all pairs over 15 kinds, triples over 7 kinds, joins of 6 x 6 branches, 4 settings of ranges'}


def run(ctx):
  import numpy as np
  from env import tf, keras, tfmot
  from mc import require
  import qg
  qk = tfmot.quantization.keras
  from tensorflow_model_optimization.python.core.quantization.keras import quantize as Q
  L = keras.layers
  qg.named_build()
  FLOATS = ('QUANTIZE', 'DEQUANTIZE')

  def contract(m):
    """Scales the weights of all layers such that no layer amplifies differences."""
    for l in m.layers:
      new = []
      for w in l.weights:
        n, a = w.name.split('/')[-1], w.numpy()
        if 'kernel' in n:
          if isinstance(l, L.Conv2DTranspose):
            s = np.abs(a).sum((0, 1, 3)).max()
          elif 'depthwise' in n or isinstance(l, L.DepthwiseConv2D):
            s = np.abs(a).sum(tuple(range(a.ndim - 2))).max()
          else:
            s = np.abs(a).sum(tuple(range(a.ndim - 1))).max()
          a = a / s
        elif 'gamma' in n:
          a = 0.4 + np.abs(a) / (4 * np.abs(a).max())
        elif 'variance' in n:
          a = a / a.max() * 0.3 + 0.7
        else:
          a = a / (1e-9 + np.abs(a).max()) * 0.3
        new.append(a.astype(np.float32))
      if new:
        l.set_weights(new)
    return m

  def set_ranges(q, r):
    k = 0
    for l in q.layers:
      vs = {v.name.split('/')[-1].split(':')[0]: v for v in l.weights}
      for n, v in vs.items():
        if not n.endswith('_min') or 'kernel' in n:
          continue
        hi = vs[n[:-4] + '_max']
        if v.shape.rank:
          continue
        lo_, hi_ = ((-1.25 - k / 16, 1.0 + k / 32), (-0.75, 1.5 + k / 16), (0.0, 1.5), (-2.0, 0.5 + k / 8))[r]
        act = getattr(getattr(l, 'layer', None), 'activation', None)
        if (isinstance(getattr(l, 'layer', None), L.ReLU) or getattr(act, '__name__', getattr(getattr(act, 'activation', None), '__name__', '')) in ('relu', 'relu6')):
          lo_ = 0.0
        v.assign(lo_); hi.assign(hi_)
        k += 1

  def lite(q):
    c = tf.lite.TFLiteConverter.from_keras_model(q)
    c.optimizations = [tf.lite.Optimize.DEFAULT]
    return tf.lite.Interpreter(model_content=c.convert(), experimental_op_resolver_type=tf.lite.experimental.OpResolverType.BUILTIN_REF, num_threads=1)

  def invoke(i, q, xs):
    ds = sorted(i.get_input_details(), key=lambda d: d['name'])
    names = [t.name.split(':')[0].split('/')[0] for t in q.inputs]
    for d in ds:
      k = [k for k, n in enumerate(names) if n in d['name']] if len(ds) > 1 else [0]
      i.resize_tensor_input(d['index'], xs[k[0]].shape)
    i.allocate_tensors()
    for d in ds:
      k = [k for k, n in enumerate(names) if n in d['name']] if len(ds) > 1 else [0]
      i.set_tensor(d['index'], xs[k[0]])
    i.invoke()
    return [i.get_tensor(d['index']) for d in i.get_output_details()]

  def ops(i):
    td = {d['index']: d for d in i.get_tensor_details()}
    out = []
    for o in i._get_ops_details():
      out.append((o['op_name'], [td[k] for k in o['inputs'] if k >= 0], [td[k] for k in o['outputs'] if k >= 0]))
    return out

  def levels(q):
    """Integer levels of the quantized kernels by number of entries, from the variables."""
    out = []
    for l in q.layers:
      if not hasattr(l, 'layer') or not l.weights:
        continue
      vs = {v.name.split('/')[-1].split(':')[0]: v.numpy() for v in l.weights}
      for n in vs:
        if n + '_max' in vs and 'kernel' in n:
          hi, a = vs[n + '_max'], vs[n]
          s = np.maximum(hi, 1e-12) / 127
          z = np.clip(a / s, -127, 127)
          if isinstance(l.layer, L.DepthwiseConv2D):
            z = z.reshape(z.shape[:2] + (-1,))[None]
          elif isinstance(l.layer, L.Conv2DTranspose):
            z = np.transpose(z, (2, 0, 1, 3))
          elif a.ndim == 4:
            z = np.transpose(z, (3, 0, 1, 2))
          else:
            z = z.T
          out.append(z)
    return out

  KERNEL = {'CONV_2D': 1, 'DEPTHWISE_CONV_2D': 1, 'FULLY_CONNECTED': 1, 'TRANSPOSE_CONV': 1}

  def compare(q, xs, integer, merges=0, what=''):
    x = xs if len(xs) > 1 else xs[0]
    p = [np.array(a) for a in tf.nest.flatten(q(x, training=False))]
    i = lite(q)
    o = invoke(i, q, xs)
    os_ = ops(i)
    if integer:
      bad = [n for n, a, b in os_ if n not in FLOATS and any(t['dtype'] == np.float32 for t in a + b)]
      require(not bad, '%soperations %s of %s run in floating point', what, bad, [n for n, _, _ in os_])
      # kernels are exactly the levels of the training
      want = levels(q)
      for n, a, b in os_:
        if n in KERNEL and a[KERNEL[n]]['dtype'] == np.int8:
          w = i.get_tensor(a[KERNEL[n]]['index'])
          fit = [k for k, z in enumerate(want) if z.shape == w.shape and np.abs(z - w).max() <= 0.51]
          require(fit, '%sthe kernel of %s is not on the levels of training: %s, expected one of %s', what, n, w.reshape(-1)[:8].tolist(), [z.reshape(-1)[:8].round(2).tolist() for z in want])
          want.pop(fit[0])
      require(not want, '%s%s quantized kernels are missing in the integer model', what, len(want))
    seen, tol = set(), 1e-5
    for n, a, b in os_:
      for t in b:
        if t['dtype'] == np.int8 and t['index'] not in seen:
          seen.add(t['index']); tol += t['quantization'][0]
    tol *= 1.1 * (1 + merges)
    require(len(p) == len(o), '%s%s outputs, expected %s', what, len(o), len(p))
    best = min(max(float(np.abs(a - o[j]).max()) if a.shape == o[j].shape else 1e9 for a, j in zip(p, perm)) for perm in itertools.permutations(range(len(o))))
    require(best <= tol, '%soutputs differ by %s, allowed %s; operations %s\n%s\n%s', what, best, tol, [n for n, _, _ in os_], [a.reshape(-1)[:8].tolist() for a in p], [a.reshape(-1)[:8].tolist() for a in o])
    ctx.evald(tuple(np.round(a, 5).tobytes() for a in o), n=len(xs[0]))
    return i

  def inputs(shapes):
    out = []
    for j, s in enumerate(shapes):
      n = 8 * int(np.prod(s))
      out.append(np.array([((11 * k + 5 * j + k * k % 7) % 23 - 11) / 9 for k in range(n)], np.float32).reshape([8] + list(s)))
    return out

  M = (4, 4, 2)
  NOINT = ('convsw', 'denserelu4', 'denseswish')

  def integer(g):
    kinds = [k for k, _ in g[1]]
    if any(k in NOINT for k in kinds):
      return False
    flat = len(g[0][0]) == 1
    for k in kinds:
      if k in ('flatten', 'gap', 'gmp', 'gap1d', 'gmp1d'):
        flat = True
      if k.startswith('dense') and not flat:
        return False
    return not any(a in ('tconv', 'dense') and b == 'bn' for a, b in zip(kinds, kinds[1:]))

  def graphs():
    one = 'conv conv3 convrelu convsoftmax dw dwm dwrelu sep seprelu tconv relu relu6 arelu arelu6 atanh aswish leaky avgpool maxpool gap pad crop dropout flatten up dense convsw gmp sdropout permute asigmoid agelu alinear softmax asoftmax'.split()
    yield from (qg.chain(M, (k,)) for k in one)
    yield from (qg.chain((4,), (k,)) for k in 'dense denserelu densesoftmax densetanh densegelu denseswish densesig reshape'.split())
    yield from (qg.chain((4, 2), (k,)) for k in 'sep1d sep1drelu gap1d avg1d crop1d pad1d'.split())
    K = ctx.pick('conv dw relu avgpool maxpool flatten'.split(), 'conv convrelu conv3 dw sep tconv relu leaky avgpool maxpool gap pad flatten up dropout'.split())
    yield from (qg.chain(M, k) for k in itertools.product(K, repeat=2))
    yield from (qg.chain((4,), k) for k in itertools.product('dense denserelu relu asoftmax leaky'.split(), repeat=2))
    yield from (qg.chain(M, (k, 'bn') + t) for k in ('conv', 'dw', 'sep', 'tconv') for t in ((), ('relu',), ('relu6',), ('arelu',), ('flatten', 'dense')))
    yield from (qg.chain((4,), k) for k in (('dense', 'bn'), ('dense', 'bn', 'relu'), ('dense', 'bn', 'arelu')))
    yield from (qg.chain((4, 2), ('sep1d', 'bn') + t) for t in ((), ('relu',)))
    yield from (qg.chain(M, k + ('flatten', 'dense')) for k in itertools.product(ctx.pick('conv dw relu'.split(), 'conv dw sep tconv relu avgpool maxpool'.split()), repeat=2))
    BR = [(), ('conv',), ('convrelu',), ('dw',), ('relu',), ('conv', 'bn')]
    for mg, a, b in itertools.product(('add', 'concat'), BR, BR):
      if BR.index(a) <= BR.index(b) if not ctx.thorough else True:
        if (a, b) not in (((), ()), (('relu',), ('relu',))):  # (the converter merges equal operations)
          yield qg.join([a, b], mg, ())
    yield from (qg.join([a, b], 'add', ('relu',)) for a, b in ((('conv',), ('relu',)), (('conv', 'bn'), ()), (('dw', 'bn'), ('convrelu',))))
    yield from ((((2, 2, 2), (2, 2, 2)), (('conv', (0,)), (m, (2, 1)), ('relu', (3,))), o) for m in ('add', 'concat') for o in ((4,), (4, 2)))
    # where a kernel directly before a ReLU is not quantized in training (known finding of Q04), only values are compared

  def relu_after_kernel(g):
    n = len(g[0])
    return any(k in ('relu', 'relu6', 'arelu', 'arelu6') and s[0] >= n and g[1][s[0] - n][0].startswith(('conv', 'dw', 'tconv', 'dense', 'sep')) for k, s in g[1])

  for g in graphs():
    for r in range(ctx.pick(2, 4)):
      if not ctx.mine() or ctx.over() or not qg.valid(g):
        continue
      if r and len(g[1]) > 1 and not ctx.thorough and (len(qg.name(g)) + r) % 2:
        continue
      with ctx.cell('%s, ranges %d' % (qg.name(g), r)):
        m = contract(qg.build(g))
        try:
          q = qk.quantize_model(m)
        except (RuntimeError, ValueError):
          ctx.counts['refused'] += 1  # decided by Q04
          continue
        xs = inputs(g[0])
        q(xs if len(xs) > 1 else xs[0], training=True)
        set_ranges(q, r)
        compare(q, xs, integer(g) and not relu_after_kernel(g), sum(k in ('add', 'concat') for k, _ in g[1]))
        ctx.sample({'graph': qg.name(g), 'ranges': r})

  # ---- preserving schemes: zeros and clusters are still there as integers
  from tensorflow_model_optimization.python.core.quantization.keras.collab_opts.prune_preserve.default_8bit_prune_preserve_quantize_scheme import Default8BitPrunePreserveQuantizeScheme as PS
  from tensorflow_model_optimization.python.core.quantization.keras.collab_opts.cluster_preserve.default_8bit_cluster_preserve_quantize_scheme import Default8BitClusterPreserveQuantizeScheme as CS
  models = {
      'dense': lambda: keras.Sequential([keras.Input((4,)), L.Dense(3), L.Dense(2)]),
      'conv': lambda: keras.Sequential([keras.Input((3, 3, 2)), L.Conv2D(2, 2), L.Flatten(), L.Dense(2)]),
      'conv, batch normalization, relu': lambda: keras.Sequential([keras.Input((3, 3, 2)), L.Conv2D(2, 2, use_bias=False), L.BatchNormalization(), L.ReLU()]),
  }
  schemes = {'sparsity': PS, 'clusters': lambda: CS(False), 'sparsity and clusters': lambda: CS(True)}
  for (mn, make), (sn, scheme), pat in itertools.product(models.items(), schemes.items(), range(ctx.pick(3, 6))):
    if not ctx.mine() or ctx.over():
      continue
    with ctx.cell('%s preserving %s, pattern %d' % (mn, sn, pat)):
      keras.backend.clear_session()
      m = make()
      for l in m.layers:
        if hasattr(l, 'kernel'):
          a = l.kernel.numpy()
          n = a.size
          z = np.array([(0.0, -0.5, 0.25, 0.0, 0.75)[(k * (pat + 1) + k // 3 + pat) % (3 if 'clusters' in sn else 5)] for k in range(n)], np.float32).reshape(a.shape)
          l.set_weights([z] + l.get_weights()[1:])
      q = Q.quantize_apply(qk.quantize_annotate_model(m), scheme())
      zeros = [l.kernel.numpy() == 0 for l in m.layers if hasattr(l, 'kernel')]
      q.compile(keras.optimizers.SGD(0.05), loss='mse', run_eagerly=True)
      x = inputs([m.input_shape[1:]])[0]
      y = np.ones((8,) + tuple(m.output_shape[1:]), np.float32) * 0.5
      for _ in range(2):
        q.train_on_batch(x, y); ctx.trans()
      strip = q
      if 'clusters' in sn:
        from tensorflow_model_optimization.python.core.quantization.keras.collab_opts.cluster_preserve import cluster_utils
        strip = cluster_utils.strip_clustering_cqat(q)
      set_ranges(strip, 0)
      i = lite(strip)
      o = invoke(i, strip, [x])
      ks = [i.get_tensor(a[KERNEL[n]]['index']) for n, a, b in ops(i) if n in KERNEL]
      require(len(ks) == len(zeros), '%s kernels', len(ks))
      for w in ks:
        z = [t for t in [np.transpose(z, (3, 0, 1, 2)) if z.ndim == 4 else z.T for z in zeros] if t.shape == w.shape][0]
        require(w.dtype == np.int8, 'kernel of type %s', w.dtype)
        if 'sparsity' in sn:
          require(not w[z].any(), 'zero weights are %s in the integer model', w[z].tolist())
        if 'clusters' in sn:
          for row in w if w.ndim == 4 else [w]:
            require(len(set(row.reshape(-1).tolist())) <= 3, 'more than 3 distinct weights: %s', row.reshape(-1).tolist())
      ctx.evald(tuple(w.tobytes() for w in ks), n=len(ks))
