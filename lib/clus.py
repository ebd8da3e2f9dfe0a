"""Shared pieces of the clustering checks."""
import numpy as np
from env import tf, keras, tfmot, snap, restore
from mc import require
L = keras.layers
CI = tfmot.clustering.keras.CentroidInitialization
from tensorflow_model_optimization.python.core.clustering.keras import cluster as _cluster, cluster_config
from tensorflow_model_optimization.python.core.clustering.keras import cluster_wrapper as cw
from tensorflow_model_optimization.python.core.clustering.keras import clusterable_layer
GA = cluster_config.GradientAggregation
try:  # options beyond the public function
  from tensorflow_model_optimization.python.core.clustering.keras.experimental import cluster as _exp
  cluster_weights = _exp.cluster_weights
except ImportError:
  cluster_weights = _cluster._cluster_weights
strip = tfmot.clustering.keras.strip_clustering


class Own(L.Layer, clusterable_layer.ClusterableLayer):
  """A user's layer with two weights, of which both or one are clustered."""

  def __init__(self, units=2, both=True, swap=False, **kw):
    super().__init__(**kw); self.units, self.both, self.swap = units, both, swap

  def build(self, s):
    self.a = self.add_weight('a', (s[-1], self.units)); self.b = self.add_weight('b', (s[-1], self.units))
    super().build(s)

  def call(self, x):
    return x @ self.a - x @ self.b

  def get_clusterable_weights(self):
    ws = [('a', self.a), ('b', self.b)] if self.both else [('b', self.b)]
    return ws[::-1] if self.swap else ws

  def get_config(self):
    return {**super().get_config(), 'units': self.units, 'both': self.both, 'swap': self.swap}


def is_wrap(l):
  return isinstance(l, cw.ClusterWeights)


def fill(k, shape, mod=9):
  n = int(np.prod(shape))
  return np.array([(((i * 7 + 3 * k + i * i * (k + 1)) % (2 * mod + 1)) - mod) / 8 for i in range(n)], np.float32).reshape(shape)


def clusterable(layer):
  """(name, variable) of the weights the layer should have clustered."""
  l = layer
  g = lambda *ns: [(n, _attr(l, n)) for n in ns]
  if isinstance(l, Own):
    return l.get_clusterable_weights()
  if not l.trainable and not isinstance(l, L.RNN):  # frozen weights are left alone
    return []
  if isinstance(l, L.Bidirectional):
    cells = [l.forward_layer.cell, l.backward_layer.cell]
  elif isinstance(l, L.RNN):
    cells = list(l.cell.cells) if isinstance(l.cell, L.StackedRNNCells) else [l.cell]
  else:
    cells = None
  if cells is not None:
    return [('%s/%d' % (a, i), getattr(c, a)) for i, c in enumerate(cells) for a in ('kernel', 'recurrent_kernel')]
  if isinstance(l, L.MultiHeadAttention):
    return [('_%s_dense.kernel' % n, getattr(l, '_%s_dense' % n).kernel) for n in ('query', 'key', 'value', 'output')]
  if isinstance(l, (L.SeparableConv1D, L.SeparableConv2D)):
    return g('pointwise_kernel')
  if isinstance(l, (L.DepthwiseConv1D, L.DepthwiseConv2D, L.BatchNormalization, L.LayerNormalization)):
    return []
  if isinstance(l, L.Embedding):
    return g('embeddings')
  if hasattr(l, 'kernel') and type(l).__module__.startswith('tf_keras'):
    return g('kernel')
  return []


def _attr(l, n):
  for p in n.split('.'):
    l = getattr(l, p)
  return l


class Rig:
  """One clustered layer with an unclustered twin used as reference."""

  def __init__(self, make, shape, n, init, per_channel=False, sparse=False, agg=GA.SUM, weights=None, call=None, x=None, twin_only=False):
    def build(layer):
      i = keras.Input(shape)
      return keras.Model(i, call(layer, i) if call else layer(i))
    self.n, self.per_channel = n, per_channel
    ref_layer, layer = make(), make()
    self.ref = build(ref_layer)
    orig = build(layer)
    cl = clusterable(layer)
    self.names = [nm for nm, _ in cl]
    index = {id(v): k for k, v in enumerate(layer.weights)}
    self.pos = [index[id(v)] for _, v in cl]
    init_w = [fill(k, v.shape) for k, v in enumerate(layer.weights)]
    if weights is not None:
      for p, a in zip(self.pos, weights):
        init_w[p] = np.array(a, np.float32).reshape(layer.weights[p].shape)
    layer.set_weights(init_w)
    self.vars = list(layer.weights)  # the trained variables, in the order of the plain layer
    self.init_w = init_w
    self.refl = ref_layer
    if x is None:
      x = np.array([((k * 3 + k * k) % 7 - 3) / 2 for k in range(2 * int(np.prod(shape)))], np.float32).reshape((2,) + shape)
      if isinstance(layer, L.Embedding):
        x = np.abs(x * 2).astype(np.float32) % layer.input_dim
    self.x = tf.constant(x)
    if twin_only:
      return
    self.model = cluster_weights(orig, n, init, cluster_per_channel=per_channel, preserve_sparsity=sparse, cluster_gradient_aggregation=agg)
    self.w = [l for l in self.model.layers if is_wrap(l)][0]
    require(self.w.layer is layer, 'the layer is not wrapped')
    require(sorted(self.w.cluster_centroids) == sorted(self.names), 'clustered weights %s instead of %s', sorted(self.w.cluster_centroids), self.names)
    self.cent = [self.w.cluster_centroids[nm] for nm in self.names]
    vs, seen = [], set()
    for v in self.vars + self.cent + list(self.w.weights):
      if id(v) not in seen:
        seen.add(id(v)); vs.append(v)
    self.all = vs
    self._graph = {}

  def twin(self, model):
    """A rig around another instance of the same clustered model."""
    import copy
    t = copy.copy(self)
    t.model = model
    t.w = [l for l in model.layers if is_wrap(l)][0]
    a, b = list(self.model.weights), list(model.weights)
    last = lambda vs: [(v.name.split('/')[-1], tuple(v.shape)) for v in vs]
    require(last(a) == last(b), 'the restored model has variables %s instead of %s', last(b), last(a))
    index = {id(v): k for k, v in enumerate(a)}
    t.vars = [b[index[id(v)]] for v in self.vars]
    t.cent = [t.w.cluster_centroids[nm] for nm in self.names]
    vs, seen = [], set()
    for v in t.vars + t.cent + list(t.w.weights):
      if id(v) not in seen:
        seen.add(id(v)); vs.append(v)
    t.all, t._graph = vs, {}
    return t

  def state(self):
    return snap(self.all)

  def load(self, s):
    restore(self.all, s)

  def forward(self, training, graph=False):
    if not graph:
      return np.array(self.model(self.x, training=training))
    if training not in self._graph:
      self._graph[training] = tf.function(lambda x: self.model(x, training=training))
    return np.array(self._graph[training](self.x))

  def channels(self, a):
    """Splits a weight in the parts that have their own centroids."""
    return [a[..., c] for c in range(a.shape[-1])] if self.per_channel else [a]

  def expected(self, masks=None):
    """Nearest-centroid weights; entries with more than one nearest centroid are NaN."""
    out = []
    for k, p in enumerate(self.pos):
      w = self.vars[p].numpy()
      if masks is not None:
        w = w * masks[k]
      c = self.cent[k].numpy()
      c = c if self.per_channel else c[None]
      e = np.empty_like(w)
      for i, cc in enumerate(c):
        ww = w[..., i] if self.per_channel else w
        d = np.abs(ww[..., None] - cc)
        near = cc[np.argmin(d, -1)]
        s = np.sort(d, -1)
        ties = (s[..., 1] - s[..., 0] < 1e-6) & (len(np.unique(cc)) > 1) if d.shape[-1] > 1 else np.zeros(ww.shape, bool)
        # equal centroids are not a tie
        alt = np.where(d <= d.min(-1, keepdims=True) + 1e-6, cc, np.nan)
        amb = np.nanmax(alt, -1) != np.nanmin(alt, -1)
        near = np.where(ties & amb, np.nan, near)
        if self.per_channel:
          e[..., i] = near
        else:
          e = near
      out.append(e)
    return out

  def effective(self):
    return [np.array(self.w.get_weight_from_layer(nm)) for nm in self.names]

  def reference(self, eff):
    ws = [v.numpy() for v in self.vars]
    for p, e in zip(self.pos, eff):
      ws[p] = e
    self.refl.set_weights([np.array(a, copy=True) for a in ws])
    return np.array(self.ref(self.x, training=False))

  def check(self, y, masks=None, graph=False):
    """After a forward pass that returned y."""
    exp = self.expected(masks)
    if graph:  # the effective weights live in the graph
      if not any(np.isnan(e).any() for e in exp):
        r = self.reference(exp)
        require(np.allclose(y, r, rtol=1e-4, atol=1e-5), 'output %s is not the one of the clustered weights %s', y.reshape(-1)[:6], r.reshape(-1)[:6])
      return
    eff = self.effective()
    for k, (e, x) in enumerate(zip(eff, exp)):
      c = self.cent[k].numpy()
      require(e.shape == x.shape, 'clustered weight %s has shape %s', self.names[k], e.shape)
      for i, part in enumerate(self.channels(e)):
        cc = c[i] if self.per_channel else c
        require(len(np.unique(part)) <= self.n, '%s has %d distinct values for %d clusters', self.names[k], len(np.unique(part)), self.n)
        require(np.isin(part, cc).all(), '%s: values %s are not centroids %s', self.names[k], np.unique(part), cc)
      ok = np.isnan(x) | (e == x)
      require(ok.all(), '%s: weights %s with centroids %s became %s, nearest are %s', self.names[k], self.vars[self.pos[k]].numpy()[~ok], c, e[~ok], x[~ok])
      if np.isnan(x).any():  # a tie: one of the nearest ones
        w = self.vars[self.pos[k]].numpy() * (masks[k] if masks is not None else 1)
        for i, (part, wp) in enumerate(zip(self.channels(e), self.channels(w))):
          cc = c[i] if self.per_channel else c
          require((np.abs(part - wp) <= np.abs(wp[..., None] - cc).min(-1) + 2e-6).all(), '%s: not a nearest centroid', self.names[k])
    r = self.reference(eff)
    require(np.allclose(y, r, rtol=1e-4, atol=1e-5), 'output %s is not the one of the clustered weights %s', y.reshape(-1)[:6], r.reshape(-1)[:6])


KINDS = {
    'Dense': (lambda: L.Dense(2), (3,), None), 'Dense no bias': (lambda: L.Dense(2, use_bias=False, activation='tanh'), (3,), None),
    'Conv1D': (lambda: L.Conv1D(2, 2), (3, 2), None), 'Conv1DTranspose': (lambda: L.Conv1DTranspose(2, 2), (3, 2), None),
    'Conv2D': (lambda: L.Conv2D(2, 2), (3, 3, 2), None), 'Conv2DTranspose': (lambda: L.Conv2DTranspose(2, 2), (2, 2, 2), None),
    'Conv3D': (lambda: L.Conv3D(2, 2), (2, 2, 2, 1), None), 'Conv3DTranspose': (lambda: L.Conv3DTranspose(2, 2), (2, 2, 2, 1), None),
    'SeparableConv1D': (lambda: L.SeparableConv1D(3, 2), (4, 2), None), 'SeparableConv2D': (lambda: L.SeparableConv2D(3, 2), (3, 3, 2), None),
    'Embedding': (lambda: L.Embedding(4, 2), (3,), None),
    'LocallyConnected1D': (lambda: L.LocallyConnected1D(2, 2), (3, 2), None), 'LocallyConnected2D': (lambda: L.LocallyConnected2D(2, 2), (3, 3, 1), None),
    'SimpleRNN': (lambda: L.SimpleRNN(2), (2, 2), None), 'LSTM': (lambda: L.LSTM(2), (2, 2), None), 'GRU': (lambda: L.GRU(2), (2, 2), None),
    'RNN of a cell': (lambda: L.RNN(L.GRUCell(2)), (2, 2), None),
    'stacked cells': (lambda: L.RNN([L.SimpleRNNCell(2), L.SimpleRNNCell(3)]), (2, 2), None),
    'Bidirectional': (lambda: L.Bidirectional(L.SimpleRNN(2)), (2, 2), None),
    'MultiHeadAttention': (lambda: L.MultiHeadAttention(1, 2), (2, 2), lambda l, i: l(i, i)),
    'own layer': (lambda: Own(2), (3,), None), 'own layer, one weight': (lambda: Own(2, both=False), (3,), None),
    'own layer, weights listed in another order': (lambda: Own(2, swap=True), (3,), None),
}
