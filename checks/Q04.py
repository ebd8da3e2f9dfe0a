"""Q04: which tensors are quantized, for every small model graph and scheme."""
import itertools
LEVEL = 'exploration'
RULE = ('case = (graph over the layer alphabet, scheme); the model is quantized by the real code, traced, and every fake quantization in it is compared '
        'with the reference that decides layer by layer what is quantized; distinct = distinct dataflow terms')
ASSUME = ['what an operator of the reference computes is defined by Keras itself', 'terms are compared first; where they differ, the values that are fake-quantized (by kind and bits) and the function without quantization decide',
          'the kernel of a convolution or dense layer directly before a ReLU is left out of the general cases (known finding, own cases)']
BOUND = {'quick': 'all chains of 1 layer over 50 kinds, of 2 layers over 12 (images), 14 (vectors) and 9 (sequences) kinds; chains of 3 over 6 and 4 fusion kinds; join graphs: 11 x 11 branches x add/concat x tails; chains with every set of taken outputs; n-bit scheme (3 bit settings), no per-axis',
         'thorough': 'larger alphabets, chains of 4 fusion kinds, joins of 3 branches, all n-bit settings of 4 x 4'}


def run(ctx):
  import numpy as np
  from env import tf, keras, tfmot
  from mc import require
  import qg
  Q8 = tfmot.quantization.keras.default_8bit.Default8BitQuantizeScheme
  from tensorflow_model_optimization.python.core.quantization.keras.experimental.default_n_bit.default_n_bit_quantize_scheme import DefaultNBitQuantizeScheme as QN
  from tensorflow_model_optimization.python.core.quantization.keras import quantize as qm

  def quantize(m, scheme):
    if scheme is None:
      return tfmot.quantization.keras.quantize_model(m)
    return tfmot.quantization.keras.quantize_apply(tfmot.quantization.keras.quantize_annotate_model(m), scheme[0]())

  def one(g, sig, scheme=None, sequential=False, kbr=False):
    with ctx.cell('%s%s' % (sig, qg.name(g))):
      m = qg.build(g, sequential=sequential)
      by = {id(l): l for l in m.layers}
      layers = [l for l in m.layers if not isinstance(l, keras.layers.InputLayer)] if len(g[0]) == 1 and all(s == (i,) for i, (_, s) in enumerate(g[1])) else order(m, g)
      kw = dict(scheme[1]) if scheme else {}
      T, nodes = qg.ref_terms(g, layers, kernel_before_relu=kbr, **kw)
      bad = qg.unsupported(nodes)
      try:
        q = quantize(m, scheme)
      except (RuntimeError, ValueError) as e:
        require(bad, 'supported model is rejected: %s', str(e)[:300])
        ctx.evald(('rejected', tuple(bad)))
        return
      require(not bad, 'model with unsupported %s is accepted', bad)
      Q = qg.terms(q)
      if Q.out != T.out:
        why = qg.same_function(Q.concrete, T.concrete, g[0]) or qg.same_quantizers(Q.concrete, T.concrete, g[0])
        require(not why, '%s\nquantized: %s\nexpected:  %s', why, Q.out, T.out)
        ctx.counts['by value'] += 1
      ctx.evald(tuple(Q.out))
      ctx.sample({'graph': qg.name(g), 'terms': Q.out})

  def order(m, g):
    return [m.get_layer('n%d' % i) for i in range(len(g[1]))]

  # layers carry their position as name, so that they are found again
  plain = dict(qg.KINDS)

  def cases():
    K4 = 'conv conv3 convrelu convsoftmax dw dwrelu sep seprelu tconv bn relu relu6 arelu arelu6 atanh aswish leaky avgpool maxpool gap pad crop dropout flatten up dense'.split()
    K2 = 'dense denserelu densesoftmax densetanh densegelu denseswish bn relu arelu relu6 asoftmax leaky dropout reshape'.split()
    K1 = 'sep1d sep1drelu bn relu arelu dense gap1d avg1d crop1d'.split()
    F, F1 = 'conv dw dense bn relu arelu'.split(), 'sep1d bn relu arelu'.split()
    M = (4, 4, 2)
    KQ = 'conv convsoftmax dw sep tconv bn relu arelu aswish avgpool dropout dense'.split()  # pairs in the quick tier
    if ctx.thorough:
      K4 += 'convsw dwm gmp sdropout permute areg asigmoid agelu alinear softmax asoftmax prelu lambda ln reshape4'.split()
      F, F1 = 'conv dw tconv dense sep bn relu arelu relu6'.split(), 'sep1d bn relu arelu dense dropout'.split()
    yield from (('', qg.chain(sh, (k,))) for sh, ks in ((M, K4 + ['convsw', 'dwm', 'gmp', 'sdropout', 'permute', 'areg', 'asigmoid', 'agelu', 'alinear', 'softmax', 'asoftmax', 'prelu', 'lambda', 'ln']),
                                                         ((4,), K2 + ['densesig', 'atanh', 'asigmoid', 'agelu', 'aswish', 'alinear', 'softmax', 'dropout']), ((4, 2), K1 + ['pad1d', 'gmp1d', 'sdropout1d', 'maxpool1d']),
                                                         ((2, 2, 2, 1), ['gap3d', 'gmp3d', 'crop3d', 'sdropout3d'])) for k in ks)
    for sh, ks in ((M, ctx.pick(KQ, K4)), ((4,), K2), ((4, 2), K1)):
      yield from (('', qg.chain(sh, k)) for k in itertools.product(ks, repeat=2))
    for sh, ks in ((M, F), ((4, 2), F1)):
      yield from (('', qg.chain(sh, k)) for k in itertools.product(ks, repeat=3))
    yield from (('', qg.chain(M, ('sep', 'bn') + k)) for k in (('relu',), ('arelu',), ('dense',)))
    if ctx.thorough:
      yield from (('', qg.chain(M, k)) for k in itertools.product('conv dense bn relu arelu sep'.split(), repeat=4))

  def joins():
    # two (three) branches of the input, a merge, a tail
    BR = [(), ('conv',), ('convrelu',), ('dw',), ('relu',), ('arelu',), ('conv', 'bn'), ('dense', 'relu'), ('bn',), ('dropout',), ('avgsame',)]
    TAIL = [(), ('relu',), ('conv', 'bn')]
    if ctx.thorough:
      BR += [('sep',), ('conv', 'bn', 'relu'), ('leaky',), ('pad', 'crop2'), ('lambda',)]
      TAIL += [('arelu',), ('bn',), ('dropout',), ('dense',)]
    for merge, a, b, t in itertools.product(('add', 'concat'), BR, BR, TAIL):
      if BR.index(a) > BR.index(b) and not (ctx.thorough or BR.index(b) <= 2):
        continue
      yield ('', qg.join([a, b], merge, t))
    for a, b, t in itertools.product(BR[:7], BR[:7], ('add', 'concat')):
      yield ('', qg.join([a, b, ('relu',)], t, ('relu',) if t == 'add' else ()))
    if ctx.thorough:
      for a, b, c in itertools.product(BR[:9], repeat=3):
        yield ('', qg.join([a, b, c], 'concat', ()))
        yield ('', qg.join([a, b, c], 'add', ('relu',)))
    # wider concatenations: 4 to 7 operands
    for n in (4, 5, 6, 7):
      for k in ('conv', 'relu', 'dropout', 'bn'):
        yield ('', qg.join([('relu',)] * (n - 1) + [(k,)], 'concat', ()))
    # concatenation of concatenations, results used elsewhere as well
    for k in ('conv', 'relu', 'arelu', 'bn'):
      yield ('', (((2, 2, 2),), ((k, (0,)), ('relu', (0,)), ('concat', (1, 2)), (k, (0,)), ('concat', (3, 4))), (5,)))
      yield ('', (((2, 2, 2),), ((k, (0,)), ('relu', (0,)), ('concat', (1, 2)), ('concat', (3, 1))), (4,)))
      yield ('', (((2, 2, 2),), ((k, (0,)), ('relu', (0,)), ('concat', (1, 2)), ('conv', (1,))), (3, 4)))
      yield ('', (((2, 2, 2),), ((k, (0,)), ('relu', (0,)), ('concat', (1, 2))), (3, 1)))
      yield ('', (((2, 2, 2),), ((k, (0,)), ('concat', (1, 0)), ('relu', (0,))), (2, 3)))
      yield ('', (((2, 2, 2), (2, 2, 1)), ((k, (0,)), ('concat', (0, 1)), ('concat', (3, 2))), (4,)))
      yield ('', (((2, 2, 2), (2, 2, 1)), (('concat', (0, 1)), (k, (0,)), (k, (1,))), (2, 3, 4)))
      yield ('', (((2, 2, 2), (2, 2, 2)), (('add', (0, 1)), (k, (2,)), ('add', (2, 3)), ('relu', (4,))), (5, 3)))

  def taps():
    F = 'conv dense bn relu'.split() + (['dw', 'sep', 'arelu', 'dropout'] if ctx.thorough else [])
    for k in itertools.product(F, repeat=3):
      if k.count('conv') + k.count('dense') + k.count('dw') + k.count('sep') == 0:
        continue
      for outs in ((1, 3), (2, 3), (1, 2, 3), (3, 1))[:None if ctx.thorough else 3]:
        g = qg.chain((2, 2, 2), k)
        yield ('', (g[0], g[1], outs))
    # an inner result is also used by another layer
    for k in itertools.product(F, repeat=2):
      for extra in ('conv', 'relu', 'bn', 'dropout'):
        g = qg.chain((2, 2, 2), k + ('relu',))
        for at in (1, 2):
          yield ('', (g[0], g[1] + ((extra, (at,)),), (3, 4)))

  qg.named_build()
  gen = [(s, g, None) for s, g in itertools.chain(cases(), joins(), taps())]
  # sequential models take the same way in, once per kind
  gen += [('sequential ', g, None) for _, g in cases() if len(g[1]) == 2 and g[1][0][0] in ('conv', 'dense', 'sep', 'dw') or len(g[1]) == 1]
  # n-bit scheme
  bits = [(4, 8), (8, 4), (3, 6)] if not ctx.thorough else list(itertools.product((2, 4, 8, 5), repeat=2))
  NB = 'conv convsoftmax dw dwrelu sep tconv bn relu arelu aswish agelu leaky avgpool gap dropout up dense maxpool'.split()
  FN = 'conv dense sep dw bn relu arelu'.split()
  nb = [qg.chain((4, 4, 2), (k,)) for k in NB] + [qg.chain((4, 4, 2), k) for k in itertools.product(FN, repeat=2)]
  nb += [qg.chain((4, 2), k) for k in itertools.product(('sep1d', 'dense', 'bn', 'relu'), repeat=2)]
  nb3 = [qg.chain((4, 4, 2), k) for k in itertools.product(('conv', 'dense', 'dw'), ('bn',), ('relu', 'arelu', 'dense'))]
  nbj = [g for _, g in joins() if len(g[1]) <= 4] if ctx.thorough else [qg.join([a, b], m, t) for a, b in itertools.product([(), ('conv',), ('relu',), ('arelu',), ('bn',), ('add1',)][:5], repeat=2) for m in ('add', 'concat') for t in ((), ('relu',))]
  nbj += [qg.join([('relu',)] * (n - 1) + [('conv',)], 'concat', ()) for n in (3, 4, 5, 6, 7)]
  nbj += [(((2, 2, 2),), (('conv', (0,)), ('relu', (0,)), ('concat', (1, 2)), ('conv', (0,)), ('concat', (3, 4))), (5,))]
  for i, (w, a) in enumerate(bits):
    for pa in (True, False) if i == 0 or ctx.thorough else (True,):
      sc = (lambda w=w, a=a, pa=pa: QN(num_bits_weight=w, num_bits_activation=a, disable_per_axis=not pa), dict(nbit=True, bits_w=w, bits_a=a, per_axis=pa))
      for g in (nb + nb3 + nbj if pa and (i == 0 or ctx.thorough) else nb[:len(NB)] + nb3):
        gen.append(('%d/%d bits%s ' % (w, a, '' if pa else ' per tensor'), g, sc))
  sc = (lambda: Q8(disable_per_axis=True), dict(per_axis=False))
  gen += [('per tensor ', g, sc) for g in nb[:len(NB)] + nb3 + [qg.chain((4, 4, 2), k) for k in itertools.product(FN[:4], FN[4:])]]
  for sig, g, sc in gen:
    if not ctx.mine() or ctx.over():
      continue
    if not qg.valid(g):
      ctx.counts['not a model'] += 1
      continue
    one(g, sig, sc, sequential=sig == 'sequential ')
  # schemes are independent: one scheme object does not change another
  for (w, a), (w2, a2) in itertools.permutations(((4, 8), (8, 4), (8, 8)), 2):
    if ctx.mine():
      with ctx.cell('scheme of %d/%d bits created before one of %d/%d bits' % (w, a, w2, a2)):
        g = qg.chain((4, 4, 2), ('dense', 'leaky', 'conv'))
        m = qg.build(g)
        T, _ = qg.ref_terms(g, order(m, g), nbit=True, bits_w=w, bits_a=a)
        s = QN(num_bits_weight=w, num_bits_activation=a)
        reg, lay = s.get_quantize_registry(), s.get_layout_transformer()
        s2 = QN(num_bits_weight=w2, num_bits_activation=a2)
        s2.get_quantize_registry(); s2.get_layout_transformer()
        s.get_quantize_registry, s.get_layout_transformer = (lambda: reg), (lambda: lay)
        q = tfmot.quantization.keras.quantize_apply(tfmot.quantization.keras.quantize_annotate_model(m), s)
        Q = qg.terms(q)
        why = Q.out != T.out and (qg.same_function(Q.concrete, T.concrete, g[0]) or qg.same_quantizers(Q.concrete, T.concrete, g[0]))
        require(not why, '%s', why)
        ctx.evald((w, a, w2, a2))
  # the same with a concatenation in a scheme with other defaults
  for k in ('conv', 'dw'):
    if ctx.mine():
      one((((2, 2, 2),), ((k, (0,)), ('relu', (0,)), ('concat', (1, 2))), (3,)), 'per tensor scheme before a concatenation: ', sc)
  # kernels directly before a ReLU are quantized as well
  for k, r, sch in itertools.product(('conv', 'dw', 'dense', 'tconv'), ('relu', 'arelu'), (None, (lambda: QN(num_bits_weight=4, num_bits_activation=4), dict(nbit=True, bits_w=4, bits_a=4)))):
    if ctx.mine():
      one(qg.chain((4, 4, 2), (k, r)), 'kernel before ReLU%s: ' % (' n-bit' if sch else ''), sch, kbr=True)

