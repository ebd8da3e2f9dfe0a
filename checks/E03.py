"""E03: any composition of encodings decodes correctly, also when partly summed first."""
import itertools
LEVEL = 'exploration'
RULE = ('one case = one tree of stages; it is run through the core, simple and gather interfaces on every input shape with 1 to 3 summands and compared '
        'with the composition of the stages in numpy; distinct = distinct (tree, shape, encoded tensors)')
ASSUME = ['the alphabet stages work on small integers, so all results are exact', 'the gather interface is used for stages whose output shapes depend on the input shape only',
          'library stages are compared up to rounding']
BOUND = {'quick': 'all trees of 2 levels over 13 kinds, of 3 levels over 6 kinds (<= 4 stages; of these a third through the gather and a twelfth through the simple interface), 3 shapes, 1-3 summands; 11 library compositions',
         'thorough': 'all trees of 3 levels over 13 kinds, chains of 4 over 6 kinds, 5 shapes'}


def run(ctx):
  import numpy as np
  from env import tf
  import mc
  from mc import require
  import te
  from tensorflow_model_optimization.python.core.internal.tensor_encoding.core import core_encoder, simple_encoder, gather_encoder
  from tensorflow_model_optimization.python.core.internal.tensor_encoding.encoders import common_encoders
  from tensorflow_model_optimization.python.core.internal.tensor_encoding.stages import stages_impl as st
  from tensorflow_model_optimization.python.core.internal.tensor_encoding.stages.research import kashin, clipping
  K = core_encoder.EncoderKeys

  def flat(e, pre=()):
    """Encoded tensors as {path: array}."""
    if isinstance(e, dict):
      r = {}
      for k, v in e.items():
        r.update(flat(v, pre + (k,)))
      return r
    return {pre: np.asarray(e)}

  def equal(a, b):
    return set(a) == set(b) and all(a[k].shape == b[k].shape and (a[k] == b[k]).all() for k in a)

  def total(parts):
    return tf.nest.map_structure(lambda *v: tf.add_n(v), *parts)

  def xs(shape):
    n = int(np.prod(shape))
    b = np.arange(n, dtype=np.float32)
    return [(b * 5 - 3).reshape(shape), (7 - b * b).reshape(shape), (b % 3 * 10 - 9).reshape(shape)]

  def interfaces(tree, enc, shape, simple=True, gather=True):
    x = xs(shape)
    state0 = te.ref_initial(tree)
    want = [te.ref_decode(tree, v, state0) for v in x]
    rnd = 'shift' in te.nodes(tree)
    # core
    state = enc.initial_state()
    ep, dp = enc.get_params(state)
    parts = []
    for v, w in zip(x, want):
      e, _, sh = enc.encode(tf.constant(v), ep)
      if not rnd:
        r = flat(te.ref_encode(tree, v, state0)[0])
        require(equal(flat(e), r), 'input %s: encoded to %s, expected %s', v.tolist(), flat(e), r)
      d = enc.decode(e, dp, sh)
      require(d.shape == w.shape and d.dtype == tf.float32 and (d.numpy() == w).all(), 'core: %s decoded to %s, expected %s', v.tolist(), d.numpy().tolist(), w.tolist())
      parts.append(enc.decode_before_sum(e, dp, sh))
      ctx.evald((te.text(tree), shape, tuple((k, v.tobytes()) for k, v in sorted(flat(e).items()))))
    fixed = all(te.KINDS[k].fixed_shape for k in te.nodes(tree))
    # the split parameters and shapes are enough for their half
    before_p, after_p = core_encoder.split_params_by_commuting_structure(dp, enc.commuting_structure)
    before_s, after_s = core_encoder.split_shapes_by_commuting_structure(sh, enc.commuting_structure)

    def known(p, com, which):
      """Parameters are given exactly on the right side of the sum."""
      for k, v in (p[K.PARAMS] or {}).items():
        require((v is not None) == (com[K.COMMUTE] == which), 'parameter %s on the wrong side of the sum', k)
      for k in p[K.CHILDREN]:
        known(p[K.CHILDREN][k], com[K.CHILDREN][k], which)
    known(before_p, enc.commuting_structure, False)
    known(after_p, enc.commuting_structure, True)
    for n in (1, 2, 3):
      w = np.sum(want[:n], axis=0)
      # the part that does not commute with sums must have been decoded before
      for num in (n, tf.constant(n)):
        d = enc.decode_after_sum(total(parts[:n]), dp, num, sh)
        require(d.shape == w.shape and (d.numpy() == w).all(), 'core: sum of %d inputs %s instead of %s', n, d.numpy().tolist(), w.tolist())
    spec = tf.TensorSpec(shape, tf.float32)
    if simple:
      s = simple_encoder.SimpleEncoder(enc, spec)
      for v, w in zip(x[:2], want):
        e, _ = s.encode(tf.constant(v))
        d = s.decode(e)
        require(d.shape == w.shape and (d.numpy() == w).all(), 'simple: %s decoded to %s, expected %s', v.tolist(), d.numpy().tolist(), w.tolist())
    if fixed and gather:
      g = gather_encoder.GatherEncoder.from_encoder(enc, spec)
      com = all(te.KINDS[k].commutes for k in te.nodes(tree))
      require(bool(g.fully_commutes_with_sum) == com, 'gather: fully commutes with sum = %s', g.fully_commutes_with_sum)
      ep, bp, ap = g.get_params()
      es = [g.encode(tf.constant(v), ep)[0] for v in x]
      ps = [g.decode_before_sum(e, bp) for e in es]
      for n in (1, 2, 3):
        w = np.sum(want[:n], axis=0)
        d = g.decode_after_sum(total(ps[:n]), ap, n)
        require(d.shape == w.shape and (d.numpy() == w).all(), 'gather: sum of %d inputs %s instead of %s', n, d.numpy().tolist(), w.tolist())
    elif not fixed:
      ctx.counts['no gather'] += 1

  kinds = ['plus', 'plusn', 'times', 'square', 'flat', 'pad', 'head', 'split', 'signabs', 'shift', 'big', 'sum', 'sum!']
  k3 = ['plus', 'plusn', 'flat', 'pad', 'split', 'signabs']
  shapes = ctx.pick([(3,), (2, 2), ()], [(3,), (2, 2), (), (1,), (2, 1, 3)])

  def all_trees():
    seen = set()
    for t in itertools.chain(te.trees(kinds, 2), (t for t in te.trees(k3 if not ctx.thorough else kinds, 3) if len(list(te.nodes(t))) <= 4)):
      if t not in seen:
        seen.add(t)
        yield t
    if ctx.thorough:
      for c in itertools.product(k3, repeat=4):
        t = ()
        for k in reversed(c):
          t = ((te.KINDS[k].keys[0], (k, t)),)
        yield t[0][1]

  for tree in all_trees():
    if not ctx.mine():
      continue
    if ctx.over():
      return
    h = int(mc._h(te.text(tree)), 16)  # which interfaces a deep tree goes through
    deep = len(list(te.nodes(tree))) > 2
    with ctx.cell(te.text(tree)):
      enc = te.build(tree)
      require(te.get(enc.commuting_structure, K.COMMUTE) == te.ref_commute(tree), 'commuting structure %s', enc.commuting_structure)
      require(bool(enc.fully_commutes_with_sum) == all(te.KINDS[k].commutes for k in te.nodes(tree)), 'fully commutes: %s', enc.fully_commutes_with_sum)
      for j, shape in enumerate(shapes if not deep or ctx.thorough else [shapes[h % 3]]):
        interfaces(tree, enc, shape, simple=not deep or h % 12 == 0 or ctx.thorough, gather=not deep or h % 3 == 0 or ctx.thorough)
      if all(len(te.KINDS[k].keys) == 1 for k in te.nodes(tree)):
        up = te.build_up(tree)
        require(te.get(up.commuting_structure, K.COMMUTE) == te.ref_commute(tree), 'built from the inside: commuting structure %s', up.commuting_structure)
        if not deep:
          interfaces(tree, up, shapes[0], simple=False)
    ctx.sample({'tree': te.text(tree)})

  # ---- composing rejects what cannot be composed
  if ctx.mine():
    with ctx.cell('composer rejects unknown and used keys'):
      for k in te.KINDS:
        c = core_encoder.EncoderComposer(te._make(k))
        for key in te.KINDS[k].keys:
          c.add_child(te._make('plus'), key)
        for key in list(te.KINDS[k].keys) + ['one', 'idx', 'nothing']:
          try:
            c.add_child(te._make('plus'), key)
          except KeyError:
            pass
          else:
            require(False, '%s: key %s accepted', k, key)
          if key in ('one', 'idx', 'nothing'):
            try:
              core_encoder.EncoderComposer(te._make('plus')).add_parent(te._make(k), key)
            except KeyError:
              continue
            require(False, '%s: parent key %s accepted', k, key)
        ctx.evald(k)

  # ---- library stages and ready-made encoders
  def composed(*chain):
    c = core_encoder.EncoderComposer(chain[-1])
    for s in chain[-2::-1]:
      c = c.add_parent(s, s.compressible_tensors_keys[0])
    return c.make()
  H, U, B, F, I = st.HadamardEncodingStage, st.UniformQuantizationEncodingStage, st.BitpackingEncodingStage, st.FlattenEncodingStage, st.IdentityEncodingStage
  # name -> (encoder, absolute error of one decoded input in units of the range, fully commutes)
  lib = {'identity': (lambda: common_encoders.identity(), 0, True),
         'uniform quantization': (lambda: common_encoders.uniform_quantization(4), 1 / 15, False),
         'hadamard quantization': (lambda: common_encoders.hadamard_quantization(8), None, False),
         'fixed range': (lambda: composed(U(5, min_max=[-32.0, 32.0])), 64 / 31, True),
         'flatten, fixed range, packed': (lambda: composed(F(), U(5, min_max=[-32.0, 32.0], stochastic=False), B(5)), 32 / 31, False),
         'flatten, range, packed': (lambda: composed(F(), U(12), B(12)), None, False),
         'flatten, hadamard': (lambda: composed(F(), H()), 0, True),
         'flatten, hadamard, fixed range': (lambda: composed(F(), H(), U(16, min_max=[-256.0, 256.0])), None, True),
         'flatten, kashin': (lambda: composed(F(), kashin.KashinHadamardEncodingStage()), 0, True),
         'identity, flatten, identity': (lambda: composed(I(), F(), I()), 0, True),
         'clip, fixed range': (lambda: composed(clipping.ClipByValueEncodingStage(-100.0, 100.0), U(6, min_max=[-64.0, 64.0], stochastic=False)), 64 / 63, True)}
  for (name, (make, err, com)), shape in itertools.product(lib.items(), [(3,), (2, 4), (17,), (2, 3, 2)]):
    if not ctx.mine():
      continue
    with ctx.cell('library: %s, shape %s' % (name, shape)):
      n = int(np.prod(shape))
      x = [((np.arange(n, dtype=np.float32) * k % 13 - 6) * (k + 0.5) / 2).reshape(shape) for k in (3, 5, 8)]
      rngs = [float(v.max() - v.min()) for v in x]

      def lim(v):
        r = float(v.max() - v.min())
        if err is None:
          return {'hadamard quantization': 8 * np.sqrt(2 * n) * np.abs(v).max() * 2 / 255, 'flatten, range, packed': r / 4095,
                  'flatten, hadamard, fixed range': 8 * np.sqrt(2 * n) * 512 / 65535}[name] + 1e-3
        return (err * r if name == 'uniform quantization' else err) + 1e-4
      enc = make()
      require(bool(enc.fully_commutes_with_sum) == com, 'fully commutes: %s', enc.fully_commutes_with_sum)
      ep, dp = enc.get_params(enc.initial_state())
      out, parts = [], []
      for v in x:
        e, _, sh = enc.encode(tf.constant(v), ep)
        out.append(enc.decode(e, dp, sh).numpy())
        require(out[-1].shape == v.shape and np.abs(out[-1] - v).max() <= lim(v), 'core: %s decoded to %s', v.tolist(), out[-1].tolist())
        parts.append(enc.decode_before_sum(e, dp, sh))
      for k in (1, 2, 3):
        d = enc.decode_after_sum(total(parts[:k]), dp, k, sh).numpy()
        w = np.sum(out[:k], axis=0)
        require(d.shape == w.shape and np.abs(d - w).max() <= 1e-3, 'core: sum of %d: %s, sum of decoded %s', k, d.tolist(), w.tolist())
      spec = tf.TensorSpec(shape, tf.float32)
      s = common_encoders.as_simple_encoder(enc, spec)
      g = common_encoders.as_gather_encoder(make(), spec)
      require(bool(g.fully_commutes_with_sum) == com, 'gather: fully commutes: %s', g.fully_commutes_with_sum)
      ep, bp, ap = g.get_params()
      ps = []
      for v in x:
        d = s.decode(s.encode(tf.constant(v))[0]).numpy()
        require(d.shape == v.shape and np.abs(d - v).max() <= lim(v), 'simple: %s decoded to %s', v.tolist(), d.tolist())
        ps.append(g.decode_before_sum(g.encode(tf.constant(v), ep)[0], bp))
        ctx.evald((name, shape, d.tobytes()))
      for k in (1, 2, 3):
        d = g.decode_after_sum(total(ps[:k]), ap, k).numpy()
        require(d.shape == shape and np.abs(d - np.sum(x[:k], axis=0)).max() <= sum(lim(v) for v in x[:k]), 'gather: sum of %d: %s', k, d.tolist())
