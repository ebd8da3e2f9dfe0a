"""Stages and trees for the tensor encoding checks, with a numpy reference.

All values are small integers in float32, so every result is exact.
A tree is (kind, ((key, tree), ...)).
"""
import collections
import itertools
import numpy as np
import tensorflow as tf
from tensorflow_model_optimization.python.core.internal.tensor_encoding.core import core_encoder, encoding_stage as es

M = es.StateAggregationMode
OD = collections.OrderedDict
FOLD = {M.SUM: lambda v: np.sum(v, axis=0), M.MIN: lambda v: np.min(v, axis=0), M.MAX: lambda v: np.max(v, axis=0), M.STACK: lambda v: np.stack(v)}


class Spec:
  """One stage kind: numpy semantics; the TensorFlow stage is made from it."""
  keys = ('v',)       # compressible outputs
  commutes = False
  needs_shape = False
  adaptive = False
  fixed_shape = True  # the shape of the outputs depends on the shape of x only

  def params(self, state, xp):
    return {}, {}

  def draw(self):
    return {}


class Plus(Spec):  # does not commute
  def enc(self, x, p, xp): return {'v': x + 1}
  def dec(self, e, p, n, shape, xp): return e['v'] - 1


class PlusN(Spec):  # commutes if it is told the number of summands
  commutes = True
  def enc(self, x, p, xp): return {'v': x + 3}
  def dec(self, e, p, n, shape, xp): return e['v'] - 3 * n


class Times(Spec):  # one python parameter, one tensor parameter
  commutes = True
  def params(self, state, xp): return {'b': xp.c(2.0), 'a': 2.0}, {'k': xp.c(4.0)}
  def enc(self, x, p, xp): return {'v': x * p['b'] * p['a']}
  def dec(self, e, p, n, shape, xp): return e['v'] / p['k']


class Square(Spec):  # order of non-commuting stages matters
  def params(self, state, xp): return {'m': 3}, {'m': 3}
  def enc(self, x, p, xp): return {'v': x * xp.f(p['m'])}
  def dec(self, e, p, n, shape, xp): return xp.rint(e['v'] / xp.f(p['m']))


class Flat(Spec):
  commutes = True
  needs_shape = True
  def enc(self, x, p, xp): return {'v': xp.reshape(x, [-1])}
  def dec(self, e, p, n, shape, xp): return xp.reshape(e['v'], shape)


class FlatPad(Spec):  # needs the shape, does not commute, changes the size
  needs_shape = True
  def enc(self, x, p, xp): return {'v': xp.concat([xp.reshape(x, [-1]), xp.c([5.0, 7.0])])}
  def dec(self, e, p, n, shape, xp): return xp.reshape(xp.reshape(e['v'], [-1])[:xp.size(shape)], shape)


class Head(Spec):  # loses everything but one value
  commutes = True
  needs_shape = True
  def enc(self, x, p, xp): return {'v': xp.reshape(x, [-1])[:1]}
  def dec(self, e, p, n, shape, xp): return xp.fill(shape, xp.reshape(e['v'], [-1])[0])


class Split(Spec):  # two compressible outputs, one other
  keys = ('x', 'x-lo')
  commutes = True
  def enc(self, x, p, xp): return {'x-lo': x - 4 * xp.floor(x / 4), 'x': 4 * xp.floor(x / 4), 'one': xp.c([1.0])}
  def dec(self, e, p, n, shape, xp): return e['x'] + e['x-lo'] + xp.reshape(e['one'], [])[()] - n


class SignAbs(Spec):
  keys = ('abs', 'sign')
  def enc(self, x, p, xp): return {'abs': xp.abs(x), 'sign': xp.sign(x)}
  def dec(self, e, p, n, shape, xp): return e['abs'] * e['sign']


class Shift(Spec):  # parameter drawn at random, shared by encode and decode
  commutes = True
  def params(self, state, xp):
    r = xp.random()
    return {'r': r}, {'r': r}
  def enc(self, x, p, xp): return {'v': x + p['r']}
  def dec(self, e, p, n, shape, xp): return e['v'] - n * p['r']


class Big(Spec):  # size of the output depends on the values
  needs_shape = True
  fixed_shape = False
  keys = ('v',)
  def enc(self, x, p, xp): return xp.nonzero(x)
  def dec(self, e, p, n, shape, xp): return xp.scatter(e, shape)


class Adapt(Spec):
  adaptive = True
  commutes = True

  def __init__(self, m1, m2, commutes=True):
    self.modes = {'u': m1, 'z': m2}
    self.commutes = commutes

  def initial(self): return {'s': np.float32(1), 'c': np.int32(2)}
  def params(self, state, xp): return {'p': state['s'], 'q': state['c']}, {'q': state['c'], 'p': state['s']}
  def enc(self, x, p, xp): return {'v': x + p['p'] + 2 * xp.f(p['q'])}
  def updates(self, x, p, xp): return {'z': xp.sum(x), 'u': xp.max(x) + xp.c(1.0)}
  def dec(self, e, p, n, shape, xp): return e['v'] - n * (p['p'] + 2 * xp.f(p['q']))

  def update(self, s, u, xp):
    def one(v):
      v = xp.reshape(v, [-1])
      return xp.sum(v * xp.arange1(v))
    return {'c': xp.i(xp.mod(xp.f(s['c']) * 3 + one(u['z']) + 1, 13.0)), 's': xp.mod(s['s'] * 2 + one(u['u']), 61.0)}


class NP:
  c = staticmethod(lambda v: np.asarray(v, np.float32))
  f = staticmethod(lambda v: np.asarray(v, np.float32))
  i = staticmethod(lambda v: np.asarray(v, np.int32))
  reshape = staticmethod(np.reshape)
  floor, abs, sign, rint = np.floor, np.abs, np.sign, np.rint
  mod = staticmethod(lambda a, b: np.float32(np.mod(a, b)))
  concat = staticmethod(np.concatenate)
  size = staticmethod(lambda s: int(np.prod(s)))
  fill = staticmethod(lambda s, v: np.full(s, v, np.float32))
  sum = staticmethod(lambda v: np.float32(np.sum(v)))
  max = staticmethod(lambda v: np.float32(np.max(v)))
  arange1 = staticmethod(lambda v: np.arange(1, len(v) + 1, dtype=np.float32))
  random = staticmethod(lambda: np.float32(0))
  nonzero = staticmethod(lambda x: {'v': x.reshape(-1)[x.reshape(-1) != 0], 'idx': np.flatnonzero(x).astype(np.int32)})

  @staticmethod
  def scatter(e, shape):
    r = np.zeros(int(np.prod(shape)), np.float32)
    r[e['idx']] = e['v']
    return r.reshape(shape)


class TF:
  c = staticmethod(lambda v: tf.constant(v, tf.float32))
  f = staticmethod(lambda v: tf.cast(v, tf.float32))
  i = staticmethod(lambda v: tf.cast(v, tf.int32))
  reshape = staticmethod(tf.reshape)
  floor, abs, sign, rint, mod = tf.floor, tf.abs, tf.sign, tf.round, tf.math.floormod
  concat = staticmethod(lambda v: tf.concat(v, 0))
  size = staticmethod(lambda s: tf.reduce_prod(s))
  fill = staticmethod(lambda s, v: tf.fill(s, v))
  sum, max = tf.reduce_sum, tf.reduce_max
  arange1 = staticmethod(lambda v: tf.cast(tf.range(1, tf.size(v) + 1), tf.float32))
  random = staticmethod(lambda: tf.floor(tf.random.uniform([], 1, 50)))

  @staticmethod
  def nonzero(x):
    x = tf.reshape(x, [-1])
    i = tf.where(tf.not_equal(x, 0))
    return {'v': tf.gather_nd(x, i), 'idx': tf.cast(i[:, 0], tf.int32)}

  @staticmethod
  def scatter(e, shape):
    return tf.reshape(tf.scatter_nd(e['idx'][:, None], e['v'], [tf.reduce_prod(shape)]), shape)


KINDS = {'plus': Plus(), 'plusn': PlusN(), 'times': Times(), 'square': Square(), 'flat': Flat(), 'pad': FlatPad(), 'head': Head(), 'split': Split(),
         'signabs': SignAbs(), 'shift': Shift(), 'big': Big(),
         'sum': Adapt(M.SUM, M.MAX), 'min': Adapt(M.MIN, M.SUM), 'max': Adapt(M.MAX, M.STACK), 'stack': Adapt(M.STACK, M.MIN),
         'sum!': Adapt(M.SUM, M.STACK, False)}


def _n(n):
  return 1.0 if n is None else tf.cast(n, tf.float32)


def _make(kind):
  sp = KINDS[kind]
  base = es.AdaptiveEncodingStageInterface if sp.adaptive else es.EncodingStageInterface
  deco = es.tf_style_adaptive_encoding_stage if sp.adaptive else es.tf_style_encoding_stage

  class Stage(base):
    name = property(lambda self: 'stage_' + ''.join(ch for ch in kind if ch.isalpha()))
    compressible_tensors_keys = property(lambda self: list(sp.keys))
    commutes_with_sum = property(lambda self: sp.commutes)
    decode_needs_input_shape = property(lambda self: sp.needs_shape)

    def decode(self, encoded_tensors, decode_params, num_summands=None, shape=None):
      return sp.dec(encoded_tensors, decode_params, _n(num_summands), shape, TF)
    if sp.adaptive:
      state_update_aggregation_modes = property(lambda self: dict(sp.modes))

      def initial_state(self):
        return {k: tf.constant(v) for k, v in sp.initial().items()}

      def update_state(self, state, state_update_tensors):
        return sp.update(state, state_update_tensors, TF)

      def get_params(self, state):
        return sp.params(state, TF)

      def encode(self, x, encode_params):
        return sp.enc(x, encode_params, TF), sp.updates(x, encode_params, TF)
    else:
      def get_params(self):
        return sp.params(None, TF)

      def encode(self, x, encode_params):
        return sp.enc(x, encode_params, TF)
  return deco(Stage)()


def build(tree):
  kind, kids = tree
  def add(c, kids):
    for key, (k, sub) in kids:
      add(c.add_child(_make(k), key), sub)
  c = core_encoder.EncoderComposer(_make(kind))
  add(c, kids)
  return c.make()


def build_up(tree):
  """The same chain built from the innermost stage outwards."""
  kind, kids = tree
  stages = []
  while True:
    stages.append(kind)
    if not kids:
      break
    ((key, (kind, kids)),) = kids
    stages.append(key)
  c = core_encoder.EncoderComposer(_make(stages[-1]))
  for i in range(len(stages) - 2, 0, -2):
    c = c.add_parent(_make(stages[i - 1]), stages[i])
  return c.make()


def text(tree):
  kind, kids = tree
  return kind + ('(%s)' % ', '.join('%s: %s' % (k, text(t)) if len(KINDS[kind].keys) > 1 else text(t) for k, t in kids) if kids else '')


def nodes(tree):
  yield tree[0]
  for _, t in tree[1]:
    yield from nodes(t)


def trees(kinds, depth, both=True):
  """Every tree of at most `depth` levels."""
  for k in kinds:
    yield (k, ())
  if depth > 1:
    subs = list(trees(kinds, depth - 1, both))
    for k in kinds:
      keys = KINDS[k].keys
      for key in keys:
        for s in subs:
          yield (k, ((key, s),))
      if len(keys) == 2 and both:
        for s, t in itertools.product(subs, repeat=2):
          if len(list(nodes(s))) + len(list(nodes(t))) <= depth:
            yield (k, ((keys[0], s), (keys[1], t)))


# ------------------------------------------------------------------ reference
def ref_initial(tree):
  sp = KINDS[tree[0]]
  return (sp.initial() if sp.adaptive else {}, {k: ref_initial(t) for k, t in tree[1]})


def ref_encode(tree, x, state):
  """(encoded tensors, updates); random parameters count as 0."""
  sp = KINDS[tree[0]]
  p, _ = sp.params(state[0], NP)
  e = sp.enc(x, p, NP)
  u = sp.updates(x, p, NP) if sp.adaptive else {}
  us = {}
  e = dict(e)
  for k, t in tree[1]:
    e[k], us[k] = ref_encode(t, e[k], state[1][k])
  return e, (u, us)


def ref_decode(tree, x, state):
  """What the input x becomes by encoding and decoding."""
  sp = KINDS[tree[0]]
  p, d = sp.params(state[0], NP)
  e = dict(sp.enc(x, p, NP))
  for k, t in tree[1]:
    e[k] = ref_decode(t, e[k], state[1][k])
  return np.asarray(sp.dec(e, d, np.float32(1), x.shape, NP), np.float32)


def ref_update(tree, state, ups):
  sp = KINDS[tree[0]]
  s = state[0]
  if sp.adaptive:
    agg = {k: FOLD[m](np.stack([np.asarray(u[0][k], np.float32) for u in ups])) for k, m in sp.modes.items()}
    s = sp.update(s, agg, NP)
  return (s, {k: ref_update(t, state[1][k], [u[1][k] for u in ups]) for k, t in tree[1]})


def ref_commute(tree, prev=True):
  cur = prev and KINDS[tree[0]].commutes
  return (cur, {k: ref_commute(t, cur) for k, t in tree[1]})


# -------------------------------------------------- the same from the library
K = core_encoder.EncoderKeys


def get(s, key):
  return (s[key], {k: get(v, key) for k, v in s[K.CHILDREN].items()})


def canon(s):
  """Canonical value of (dict, {child: ...})."""
  d, kids = s
  if isinstance(d, dict):
    d = tuple(sorted((k, np.asarray(v).dtype.name, np.asarray(v).tolist()) for k, v in d.items()))
  return (d, tuple(sorted((k, canon(v)) for k, v in kids.items())))


def aggregate(modes, ups):
  """Aggregates structures of updates of the core encoder by declared mode."""
  flat = [tf.nest.flatten(u) for u in ups]
  fm = tf.nest.flatten(modes)
  return tf.nest.pack_sequence_as(ups[0], [tf.constant(FOLD[m](np.stack([f[i].numpy() for f in flat]))) for i, m in enumerate(fm)])
