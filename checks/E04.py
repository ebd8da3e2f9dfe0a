"""E04: adaptive encoder state follows the aggregated update history."""
import itertools
LEVEL = 'model_checking'
RULE = ('one case = one tree of adaptive and stateless stages; states = encoder states reached by histories of rounds, each round encodes one to three '
        'inputs with the parameters of the current state and updates it; every round runs in the core and gather interfaces, rounds of one input also in the simple one')
ASSUME = ['stages work on small integers, so all results are exact', 'the caller aggregates updates as declared by the aggregation modes',
          'a round of one input stacks nothing in the simple interface']
BOUND = {'quick': 'trees of <=2 levels over 9 kinds and of 3 stages over 5, all histories of 3 rounds over 4 rounds (depth 2 for trees of 3 stages)',
         'thorough': 'trees of 3 levels over 7 kinds, histories of 4 rounds over 5 rounds'}


def run(ctx):
  import numpy as np
  from env import tf
  from mc import require
  import bfs
  import te
  from tensorflow_model_optimization.python.core.internal.tensor_encoding.core import core_encoder, simple_encoder, gather_encoder
  K = core_encoder.EncoderKeys

  X = [np.array([2.0, -3.0, 1.0], np.float32), np.array([0.0, 5.0, 4.0], np.float32), np.array([-1.0, -6.0, -2.0], np.float32)]
  rounds = [(0,), (1,), (0, 2), (2, 1, 1)] + ([(2,), (1, 0)] if ctx.thorough else [])

  def nested(s):
    return te.canon(te.get(s, K.STATE))

  def one(tree, depth, simple):
    enc = te.build(tree)
    rnd = 'shift' in te.nodes(tree)
    spec = tf.TensorSpec((3,), tf.float32)
    g = gather_encoder.GatherEncoder.from_encoder(enc, spec)
    s = simple_encoder.SimpleEncoder(enc, spec) if simple else None
    core0 = enc.initial_state()
    require(nested(core0) == te.canon(te.ref_initial(tree)), 'initial state %s', nested(core0))

    def flat(state):
      return tuple(np.asarray(v) for v in tf.nest.flatten(state))

    def arrays(t):
      return bfs.arr(flat(t))
    for o in (g, s):
      if o is not None:
        require(arrays(o.initial_state()) == arrays(core0), 'initial state of %s: %s', type(o).__name__, o.initial_state())
    modes = tf.nest.flatten(enc.state_update_aggregation_modes)
    require(list(g.state_update_aggregation_modes) == modes, 'gather: aggregation modes %s instead of %s', g.state_update_aggregation_modes, modes)

    def step(st, ev, hist):
      ref, _ = st
      core = tf.nest.pack_sequence_as(core0, [tf.constant(v) for v in st[1]])
      before = arrays(core)
      ep, dp = enc.get_params(core)
      want = [te.ref_decode(tree, X[i], ref) for i in ev]
      ups, parts, rups = [], [], []
      for i, w in zip(ev, want):
        e, u, sh = enc.encode(tf.constant(X[i]), ep)
        renc, ru = te.ref_encode(tree, X[i], ref)
        rups.append(ru)
        got = te.canon(te.get(u, K.TENSORS))
        require(rnd or got == te.canon(ru), 'history %s: updates %s instead of %s', hist, got, te.canon(ru))
        d = enc.decode(e, dp, sh).numpy()
        require(d.shape == w.shape and (d == w).all(), 'history %s: core decodes %s to %s', hist, X[i].tolist(), d.tolist())
        parts.append(enc.decode_before_sum(e, dp, sh))
        ups.append(u)
      tot = np.sum(want, axis=0)
      d = enc.decode_after_sum(tf.nest.map_structure(lambda *v: tf.add_n(v), *parts), dp, len(ev), sh).numpy()
      require(d.shape == tot.shape and (d == tot).all(), 'history %s: core decodes the sum to %s', hist, d.tolist())
      require(arrays(core) == before, 'history %s: encoding changed the state', hist)
      new = enc.update_state(core, te.aggregate(enc.state_update_aggregation_modes, ups))
      require(arrays(core) == before, 'history %s: the update changed the given state', hist)
      nref = te.ref_update(tree, ref, rups)
      if rnd:  # updates may depend on the random parameter: the rule of the library stages decides
        nref = te.ref_update(tree, ref, [te.get(u, K.TENSORS) for u in ups])
      require(nested(new) == te.canon(nref), 'history %s: state %s instead of %s', hist, nested(new), te.canon(nref))
      # gather: the caller keeps the flat state
      fs = tuple(tf.constant(v) for v in st[1])
      gp, bp, ap = g.get_params(fs) if len(hist) > 1 else g.get_params()
      es, us = zip(*[g.encode(tf.constant(X[i]), gp) for i in ev])
      ps = [g.decode_before_sum(e, bp) for e in es]
      d = g.decode_after_sum(tf.nest.map_structure(lambda *v: tf.add_n(v), *ps), ap, len(ev)).numpy()
      require(d.shape == tot.shape and (d == tot).all(), 'history %s: gather decodes the sum to %s instead of %s', hist, d.tolist(), tot.tolist())
      agg = tuple(tf.constant(te.FOLD[m](np.stack([u[k].numpy() for u in us]))) for k, m in enumerate(modes))
      gnew = g.update_state(fs, agg)
      require(rnd or arrays(gnew) == arrays(new), 'history %s: gather state %s instead of %s', hist, gnew, flat(new))
      if s is not None and len(ev) == 1:
        e, snew = s.encode(tf.constant(X[ev[0]]), fs) if len(hist) > 1 else s.encode(tf.constant(X[ev[0]]))
        d = s.decode(e).numpy()
        require(d.shape == tot.shape and (d == tot).all(), 'history %s: simple decodes %s', hist, d.tolist())
        require(rnd or arrays(snew) == arrays(new), 'history %s: simple state %s instead of %s', hist, snew, flat(new))
      if not new_states(tree):
        return (nref, flat(new))
      return (nref, flat(new))

    def new_states(tree):
      return any(te.KINDS[k].adaptive for k in te.nodes(tree))
    bfs.explore(ctx, (te.ref_initial(tree), flat(core0)), list(rounds), step, depth, key=lambda st: bfs.arr(st[1]))

  kinds = ['sum', 'min', 'max', 'stack', 'sum!', 'times', 'split', 'head', 'shift']
  k3 = ['sum', 'stack', 'split', 'sum!', 'pad'] if not ctx.thorough else ['sum', 'min', 'max', 'stack', 'split', 'sum!', 'pad']
  seen = set()
  for tree in itertools.chain(te.trees(kinds, 2), (t for t in te.trees(k3, 3) if len(list(te.nodes(t))) <= 3)):
    if tree in seen or not any(te.KINDS[k].adaptive for k in te.nodes(tree)):
      continue
    seen.add(tree)
    if not ctx.mine():
      continue
    if ctx.over():
      return
    n = len(list(te.nodes(tree)))
    with ctx.cell(te.text(tree)):
      one(tree, ctx.pick(3 if n == 1 else 2, 4 if n == 1 else 3), n < 3 or ctx.thorough or len(seen) % 3 == 0)
      ctx.evald(te.text(tree))
    ctx.sample({'tree': te.text(tree), 'rounds': rounds})
