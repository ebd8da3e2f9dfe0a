"""Q05: graph rewriting by ModelTransformer against a nondeterministic rewriting system."""
import copy, itertools
LEVEL = 'model_checking'
RULE = ('state = (graph, rule being applied, layers rewritten so far); transition = one rewriting step at any matching place; every model graph is rewritten by the real code, the result '
        'has to be a normal form that the rewriting system reaches')
ASSUME = ['rules are applied in the given order, each as long as it matches, at any place first', 'rules do not rename their own results endlessly (documented limitation)']
BOUND = {'quick': 'chains of <= 3 layers over 4 kinds, joins of 6 x 6 branches, taps, shared layers, repeated inputs, operators; 13 single rules, 40 ordered pairs on chains of 3; sequential and functional; candidate sets',
         'thorough': 'chains of 4, all ordered pairs of rules on all graphs, triples on chains of 3'}


def run(ctx):
  import collections
  import numpy as np
  from env import tf, keras, tfmot
  from mc import require
  from tensorflow_model_optimization.python.core.quantization.keras.graph_transformations import model_transformer, transforms
  L = keras.layers
  P, LN = transforms.LayerPattern, transforms.LayerNode

  # A layer: (name, class, config, weights, metadata).  A tree: (layer, [trees]).
  # Graph: {name: (class, config, weights, metadata, calls)}, outputs; calls: list
  # of lists of (source, tensor); config: dict of the interesting entries.
  KEYS = {'Dense': ('units', 'activation'), 'ReLU': ('max_value',), 'Activation': ('activation',), 'Dropout': ('rate',), 'BatchNormalization': ('momentum',), 'Add': (), 'Concatenate': (), 'InputLayer': (),
          'LSTM': ('units',), 'TFOpLambda': ('function',), 'SlicingOpLambda': ('function',), 'Lambda': ()}
  WN = {'Dense': ('kernel:0', 'bias:0'), 'BatchNormalization': ('gamma:0', 'beta:0', 'moving_mean:0', 'moving_variance:0')}

  class T:
    """A layer in a match or replacement."""

    def __init__(self, name, cls, cfg, w, meta, ins=(), kw=()):
      self.kw = tuple(kw)
      self.name, self.cls, self.cfg, self.w, self.meta, self.ins = name, cls, dict(cfg), tuple(w), dict(meta), list(ins)

    def key(self):
      return (self.name, self.cls, tuple(sorted(self.cfg.items(), key=str)), self.w, tuple(sorted(self.meta.items())), self.kw, tuple(i.key() for i in self.ins))

    def but(self, **kw):
      d = dict(name=self.name, cls=self.cls, cfg=self.cfg, w=self.w, meta=self.meta, ins=self.ins, kw=self.kw)
      d.update(kw)
      return T(**d)

  # ---- rules: pattern (class regexp alternatives, config, inputs) and replacement of trees
  def scale(w, f):
    return tuple(tuple(round(x * f, 6) for x in v) for v in w)

  RULES = {
      'act': (('Dense', {'activation': 'linear'}, []), lambda t: t.but(cfg=dict(t.cfg, activation='tanh'))),
      'fuse': (('ReLU', {}, [('Dense', {'activation': 'linear'}, [])]), lambda t: t.ins[0].but(name='f_' + t.ins[0].name, cfg=dict(t.ins[0].cfg, activation='relu'), meta=dict(t.ins[0].meta, fused=1))),
      'triple': (('ReLU', {}, [('BatchNormalization', {}, [('Dense', {}, [])])]), lambda t: t.ins[0].ins[0].but(name='g_' + t.ins[0].ins[0].name, cfg=dict(t.ins[0].ins[0].cfg, activation='relu'), w=scale(t.ins[0].ins[0].w, 0.5))),
      'expand': (('Dropout', {}, []), lambda t: T(t.name + '_b', 'Activation', {'activation': 'tanh'}, (), dict(t.meta, head=1), [T(t.name + '_a', 'Activation', {'activation': 'sigmoid'}, (), {'leaf': 1})])),
      'any': (('.*', {}, []), lambda t: t.but(meta=dict(t.meta, seen=1))),
      'join': (('Add', {}, [('Dense|ReLU', {}, []), ('.*', {}, [])]), lambda t: t.but(meta=dict(t.meta, joined=1), ins=[t.ins[0].but(meta=dict(t.ins[0].meta, left=1)), t.ins[1].but(meta=dict(t.ins[1].meta, right=1))])),
      'order': (('Concatenate', {}, [('ReLU', {}, []), ('Dense', {}, [])]), lambda t: t.but(ins=[t.ins[0], t.ins[1].but(name='o_' + t.ins[1].name, cfg=dict(t.ins[1].cfg, activation='tanh'), w=scale(t.ins[1].w, 2.0))])),
      'units': (('Dense', {'units': '2|3'}, []), lambda t: t.but(meta=dict(t.meta, small=1))),
      'drop': (('Dropout', {}, [('Dense|Activation', {}, [])]), lambda t: t.ins[0]),
      'pair': (('Dense', {}, [('Dense', {}, [])]), lambda t: t.but(cfg=dict(t.cfg, activation='relu'), ins=[t.ins[0].but(cfg=dict(t.ins[0].cfg, activation='sigmoid'))])),
      'deep': (('Concatenate', {}, [('ReLU', {}, [('Dense', {}, [])]), ('.*', {}, [])]), lambda t: t.but(meta=dict(t.meta, deep=1), ins=[t.ins[0].ins[0].but(name='d_' + t.ins[0].ins[0].name), t.ins[1]])),
      'same': (('Dense|ReLU|Dropout', {}, []), lambda t: t),
      'anypair': (('.*', {}, [('Dense|Re', {}, [])]), lambda t: t.but(meta=dict(t.meta, after=t.meta.get('after', 0) + 1))),
  }

  def pattern(p):
    return P(p[0], p[1], [pattern(q) for q in p[2]])

  def transform(name):
    pat, rep = RULES[name]

    def to_tree(n):
      cfg = n.layer['config']
      return T(cfg['name'], n.layer['class_name'], {k: cfg.get(k) for k in KEYS[n.layer['class_name']]}, tuple(num(v) for v in n.weights.values()), n.metadata, [to_tree(i) for i in n.input_layers])

    def from_tree(t, nodes):
      old = nodes.get(t.name)
      src = old or nodes.get(t.name[2:])
      if src is not None and src.layer['class_name'] == t.cls:
        layer = copy.deepcopy(src.layer)
        layer['config'].update(t.cfg, name=t.name)
        if 'name' in layer:
          layer['name'] = t.name
        shapes = [v.shape for v in src.weights.values()]
        w = collections.OrderedDict((k, np.array(v, np.float32).reshape(s)) for k, v, s in zip(src.weights, t.w, shapes))
        nw = src.names_and_weights
      else:
        l = keras.layers.serialize(getattr(L, t.cls)(name=t.name, **t.cfg), use_legacy_format=True) if False else {'class_name': t.cls, 'config': getattr(L, t.cls)(name=t.name, **t.cfg).get_config()}
        layer, w, nw = dict(l, name=t.name, inbound_nodes=[]), collections.OrderedDict(), []
      return LN(layer, weights=w, input_layers=[from_tree(i, nodes) for i in t.ins], metadata=dict(t.meta), names_and_weights=nw)

    class Tr(transforms.Transform):

      def pattern(self):
        return pattern(pat)

      def replacement(self, match):
        nodes = {}

        def walk(n):
          nodes[n.layer['config']['name']] = n
          for i in n.input_layers:
            walk(i)
        walk(match)
        return from_tree(rep(to_tree(match)), nodes)

      def custom_objects(self):
        return {}
    Tr.__name__ = 'Tr_' + name
    return Tr()

  def num(v):
    return tuple(float(round(x, 6)) for x in np.asarray(v).ravel().tolist())

  # ---- the abstract graph of a real model
  def abstract(m, meta):
    cfg = m.get_config()
    g = {}
    seq = isinstance(m, keras.Sequential)
    prev = None
    for lc in cfg['layers']:
      nm, cls = lc['config']['name'], lc['class_name']
      l = None if cls == 'InputLayer' else m.get_layer(nm)
      calls = []
      if seq:
        calls = [[prev]] if prev else []
        prev = (nm, 0, 0)
      else:
        keras_node = m.get_layer(nm)
        for node in keras_node._inbound_nodes:
          if cls == 'InputLayer' or ('%s_ib-%d' % (nm, keras_node._inbound_nodes.index(node))) not in m._network_nodes:
            continue
          kw = tuple(sorted(('kw', k, v) for k, v in node.call_kwargs.items() if k == 'training' and v is not None))
          calls.append([(t._keras_history.layer.name, t._keras_history.node_index, t._keras_history.tensor_index) for t in node.keras_inputs] + list(kw))
      # the call index of a source counts only calls that belong to the model
      g[nm] = [cls, {k: lc['config'].get(k) for k in KEYS[cls]}, tuple(num(w) for w in (l.get_weights() if l else [])), dict(meta.get(nm, {})), calls]
    outs = [prev] if seq else [(t._keras_history.layer.name, t._keras_history.node_index, t._keras_history.tensor_index) for t in m.outputs]
    ins = None if seq else [t._keras_history.layer.name for t in m.inputs]
    return g, outs, ins

  def freeze(g, outs):
    return (tuple((k, v[0], tuple(sorted(v[1].items(), key=str)), v[2], tuple(sorted(v[3].items())), tuple(tuple(c) for c in v[4])) for k, v in sorted(g.items())), tuple(outs))

  def thaw(s):
    return {n[0]: [n[1], dict(n[2]), n[3], dict(n[4]), [list(c) for c in n[5]]] for n in s[0]}, list(s[1])

  # ---- the rewriting system
  import re

  def ok(pat, g, nm, cand):
    cls, cfg = g[nm][0], g[nm][1]
    if cand is not None and nm not in cand:
      return False
    if not re.fullmatch(pat[0], cls):
      return False
    return all(cfg.get(k) == v or re.fullmatch(str(v), str(cfg.get(k))) for k, v in pat[1].items())

  def users(g, outs, nm):
    return sum(any(s[0] == nm for c in v[4] for s in c) for v in g.values()) + sum(o[0] == nm for o in outs)

  def match(pat, g, outs, nm, cand, head, func):
    if not ok(pat, g, nm, cand):
      return None
    v = g[nm]
    if len(v[4]) > 1 or (func and not head and users(g, outs, nm) > 1):
      return None
    ins = []
    if pat[2]:
      src = [s for s in v[4][0] if s[0] != 'kw'] if v[4] else []
      if len(src) != len(pat[2]) or len({s[0] for s in src}) != len(src) or any(any(s[1:]) for s in src):
        return None
      if v[0] in ('TFOpLambda', 'SlicingOpLambda'):
        return None  # called with arguments of its own
      for s, p in zip(src, pat[2]):
        t = match(p, g, outs, s[0], cand, False, func)
        if t is None:
          return None
        ins.append(t)
    return T(nm, v[0], v[1], v[2], v[3], ins, [s for c in v[4] for s in c if s[0] == 'kw'])

  def tree_names(t):
    return [t.name] + [n for i in t.ins for n in tree_names(i)]

  def leaves(t):
    return [t] if not t.ins else [x for i in t.ins for x in leaves(i)]

  def rewrite(g, outs, t, r, cand):
    g = {k: [v[0], v[1], v[2], v[3], [list(c) for c in v[4]]] for k, v in g.items()}
    old_leaves, new_leaves = leaves(t), leaves(r)
    inbound = [g[l.name][4] for l in old_leaves]
    for k in tree_names(t):
      del g[k]
    if cand is not None:
      cand = cand | frozenset(tree_names(r))

    def put(x):
      for i in x.ins:
        put(i)
      g[x.name] = [x.cls, dict(x.cfg), x.w, dict(x.meta), [[(i.name, 0, 0) for i in x.ins] + list(x.kw)]]
    put(r)
    for l, c in zip(new_leaves, inbound):
      g[l.name][4] = c
    for v in g.values():
      v[4] = [[(r.name,) + tuple(s[1:]) if s[0] == t.name else s for s in c] for c in v[4]]
    outs = [(r.name,) + tuple(o[1:]) if o[0] == t.name else o for o in outs]
    return g, outs, cand

  def normal_forms(g, outs, rules, cand, func, limit=4000):
    start = (freeze(g, outs), 0, False, frozenset(), cand)
    seen, todo, normal = {start}, [start], set()
    while todo:
      s = todo.pop()
      fz, i, changed, done, cd = s
      ctx.state((rules, fz, i, done))
      if i == len(rules):
        if changed:
          n = (fz, 0, False, done, cd)
          if n not in seen:
            seen.add(n); todo.append(n)
        else:
          normal.add(fz)
        continue
      g, outs = thaw(fz)
      pat, rep = RULES[rules[i]]
      found = False
      for nm in sorted(g):
        if (rules[i], nm) in done:
          continue
        t = match(pat, g, outs, nm, cd, True, func)
        if t is None:
          continue
        found = True
        r = rep(t)
        d2 = done | {(rules[i], nm)}
        if r.key() == t.key():
          n = (fz, i, changed, d2, cd)
        else:
          g2, o2, c2 = rewrite(g, outs, t, r, cd)
          n = (freeze(g2, o2), i, True, d2, c2)
        ctx.trans()
        if n not in seen:
          require(len(seen) < limit, 'rewriting system too large')
          seen.add(n); todo.append(n)
      if not found:
        n = (fz, i + 1, changed, done, cd)
        if n not in seen:
          seen.add(n); todo.append(n)
    return normal

  # ---- models
  MK = {'d': lambda n: L.Dense(3, name=n), 'e': lambda n: L.Dense(4, name=n), 'r': lambda n: L.ReLU(name=n), 'b': lambda n: L.BatchNormalization(name=n), 'o': lambda n: L.Dropout(0.5, name=n),
        't': lambda n: L.Activation('tanh', name=n), 'f': lambda n: L.BatchNormalization(name=n), 'a': lambda n: L.Add(name=n), 'c': lambda n: L.Concatenate(name=n)}

  def build(graph, seq=False):
    """graph = (number of inputs, ((kind, (sources)), ..), outputs)."""
    keras.backend.clear_session()
    n, nodes, outs = graph
    if seq:
      m = keras.Sequential([keras.Input((3,), name='in0')] + [MK[k]('n%d' % i) for i, (k, _) in enumerate(nodes)])
    else:
      ts = [keras.Input((3,), name='in%d' % i) for i in range(n)]
      ls = {}
      for i, (k, src) in enumerate(nodes):
        if k[0] == '=':  # the layer of another node again
          l = ls[int(k[1:])]
        elif k == 'plus':
          ts.append(ts[src[0]] + ts[src[1]]); continue
        elif k == 'stack':
          ts.append(tf.concat([ts[s] for s in src], axis=-1)); continue
        elif k == 'kw':
          ts.append(tf.math.multiply(x=ts[src[0]], y=ts[src[1]])); continue
        elif k == 'kwl':
          ts.append(tf.concat(values=[ts[s] for s in src], axis=-1)); continue
        elif k == 'slice':
          ts.append(ts[src[0]][:, 1:]); continue
        elif k.startswith('split'):
          ts.append(tf.split(ts[src[0]], 3, axis=-1)[int(k[5:])]); continue
        else:
          l = ls[i] = MK[k]('n%d' % i)
        ts.append(l([ts[s] for s in src] if k in 'ac' or len(src) > 1 else ts[src[0]], **({'training': False} if k == 'f' else {})))
      m = keras.Model([ts[i] for i in range(n)] if n > 1 else ts[0], [ts[o] for o in outs] if len(outs) > 1 else ts[outs[0]])
    for j, l in enumerate(m.layers):
      l.set_weights([np.array([((i * 5 + 7 * j + q) % 11 + 1) / 8 for i in range(w.size)], np.float32).reshape(w.shape) for q, w in enumerate(l.get_weights())])
    return m

  def chain(ks):
    return (1, tuple((k, (i,)) for i, k in enumerate(ks)), (len(ks),))

  def show(g):
    return '%d in: %s -> %s' % (g[0], ' '.join('%s%s' % (k, list(s)) for k, s in g[1]), list(g[2]))

  def one(g, rules, seq=False, cand=None):
    with ctx.cell('%s%s rules %s%s' % ('sequential ' if seq else '', show(g), ','.join(rules), '' if cand is None else ' candidates %s' % sorted(cand))):
      m = build(g, seq)
      names = [l['config']['name'] for l in m.get_config()['layers']]
      meta = {n: {'m': n} for n in names[::2]}
      ag, outs, ins = abstract(m, meta)
      before = freeze(ag, outs)
      want = normal_forms(ag, outs, rules, cand, not seq)
      mt = model_transformer.ModelTransformer(m, [transform(r) for r in rules], set(cand) if cand is not None else None, copy.deepcopy(meta))
      m2, meta2 = mt.transform()
      g2, o2, i2 = abstract(m2, meta2)
      got = freeze(g2, o2)
      if got not in want:
        import difflib
        w = min(want, key=lambda w: -difflib.SequenceMatcher(None, str(w), str(got)).ratio())
        a, b = set(got[0]), set(w[0])
        require(False, 'rewritten model has %s\ninstead of %s\noutputs %s instead of %s', sorted(a - b), sorted(b - a), got[1], w[1])
      require(seq or ins == i2, 'inputs are %s instead of %s', i2, ins)
      require(set(meta2) <= set(g2), 'metadata of %s, which are no layers', set(meta2) - set(g2))
      require(freeze(*abstract(m, meta)[:2]) == before, 'the original model changed')
      require(not {id(v) for v in m.weights} & {id(v) for v in m2.weights}, 'variables are shared with the original model')
      ctx.trace(); ctx.evald((rules, got))
      if got != before:
        ctx.counts['rewritten'] += 1
      ctx.sample({'graph': show(g), 'rules': rules, 'normal forms': len(want), 'rewritten': got != before})

  def graphs(depth):
    for n in range(1, depth + 1):
      for ks in itertools.product('drbo', repeat=n):
        yield chain(ks)

  def special():
    BR = [(), ('d',), ('r',), ('d', 'r'), ('o',), ('d', 'b', 'r')]
    for a, b, mg in itertools.product(BR, BR, 'ac'):
      nodes, ends, n = [], [], 1
      for br in (a, b):
        at = 0
        for k in br:
          nodes.append((k, (at,))); at = n; n += 1
        ends.append(at)
      yield (1, tuple(nodes) + ((mg, tuple(ends)),), (n,))
      yield (1, tuple(nodes) + ((mg, tuple(ends[::-1])), ('r', (n,)), ('d', (n,))), (n + 2, n + 1))
      if ends[0] and ends[1]:
        yield (1, tuple(nodes) + ((mg, tuple(ends)),), (n, ends[0]))
        yield (1, tuple(nodes) + ((mg, tuple(ends) + (ends[0],)),), (n,))
    # taps
    for ks in itertools.product('drbo', repeat=3):
      if len(set(ks)) > 1 and ks.count('d') and ks.count('b') < 2:
        for outs in ((1, 3), (2, 3), (3, 2, 1), (3, 3)):
          yield (1, chain(ks)[1], outs)
    # shared layers, several inputs, repeated inputs
    for k, mg in itertools.product('dro', 'ac'):
      yield (2, ((k, (0,)), ('=0', (1,)), (mg, (2, 3)), ('r', (4,))), (5,))
      yield (1, ((k, (0,)), ('=0', (1,)), ('r', (2,))), (3,))
      yield (1, (('d', (0,)), (k, (1,)), ('=1', (2,)), ('r', (3,))), (4,))
      yield (1, ((k, (0,)), (mg, (1, 1))), (2,))
      yield (1, ((k, (0,)), ('r', (0,)), (mg, (1, 1, 2))), (3,))
      yield (2, ((k, (1,)), ('d', (0,)), (mg, (2, 3)), (mg, (2, 1))), (5, 4))
      yield (2, ((k, (1,)), ('r', (2,)), (mg, (3, 0))), (4, 1))
      yield (3, ((k, (2,)), (mg, (3, 1)), ('d', (0,)), ('r', (5,))), (6, 4))
      # operators
      yield (1, ((k, (0,)), ('plus', (1, 0)), ('r', (2,))), (3,))
      yield (1, (('d', (0,)), ('r', (1,)), ('plus', (2, 1))), (3,))
      yield (1, (('d', (0,)), ('r', (1,)), ('stack', (2, 1)), (k, (3,))), (4,))
      yield (1, (('d', (0,)), ('r', (1,)), ('kw', (2, 1)), (k, (3,))), (4,))
      yield (1, (('d', (0,)), ('r', (1,)), ('kwl', (2, 1)), (k, (3,))), (4,))
      yield (1, (('d', (0,)), ('r', (0,)), ('kwl', (2, 1, 2)), (k, (3,))), (4,))
      # arguments of calls
      yield (1, (('d', (0,)), ('f', (1,)), ('r', (2,)), (k, (3,))), (4,))
      yield (1, (('d', (0,)), ('r', (1,)), ('f', (2,)), (k, (3,)), (mg, (3, 2))), (4, 5))
      yield (1, (('d', (0,)), ('r', (1,)), ('kw', (1, 2)), (k, (3,))), (4,))
      yield (1, (('d', (0,)), ('slice', (1,)), ('r', (2,)), (k, (3,))), (4,))
      yield (1, (('split1', (0,)), ('d', (1,)), ('r', (2,)), (k, (3,))), (4,))
      yield (1, ((k, (0,)), ('split2', (1,)), ('d', (0,)), (mg if mg == 'c' else 'c', (2, 3)), ('r', (3,))), (4, 5))
      yield (1, (('d', (0,)), ('split2', (1,)), ('r', (0,)), ('c', (2, 3))), (4,))
      yield (1, (('split2', (0,)), ('r', (0,)), ('d', (1,)), ('c', (2, 3)), ('c', (1, 2))), (4, 5))

  HEADS = {r: {{'Dense': 'd', 'ReLU': 'r', 'Dropout': 'o', 'Add': 'a', 'Concatenate': 'c'}.get(c) for c in RULES[r][0][0].split('|')} if RULES[r][0][0] != '.*' else set('drobacf') for r in RULES}
  single = [(r,) for r in RULES]
  pairs = [('fuse', 'act'), ('act', 'fuse'), ('expand', 'drop'), ('drop', 'expand'), ('fuse', 'triple'), ('triple', 'fuse'), ('pair', 'act'), ('act', 'pair'), ('any', 'fuse'), ('fuse', 'any'), ('drop', 'pair'), ('pair', 'drop'), ('drop', 'fuse'),
           ('same', 'fuse'), ('units', 'fuse'), ('anypair', 'fuse'), ('expand', 'any'), ('any', 'triple'), ('fuse', 'pair'), ('drop', 'act')]
  if ctx.thorough:
    pairs = list(itertools.permutations(RULES, 2))
  joinpairs = [('join', 'fuse'), ('fuse', 'join'), ('order', 'act'), ('deep', 'fuse'), ('deep', 'order'), ('any', 'join'), ('expand', 'deep'), ('fuse', 'deep')]


  def cases():
    for g in graphs(ctx.pick(3, 4)):
      for rs in single[:4] + [s for s in single if s[0] in ('any', 'drop', 'pair', 'same', 'anypair', 'units')]:
        yield g, rs, False, None
        if len(g[1]) <= 3:
          yield g, rs, True, None
    for g in graphs(3):
      if len(g[1]) == 3:
        for i, rs in enumerate(pairs):
          yield g, rs, i % 4 == 0, None
    for g in special():
      for rs in single + ([p for p in pairs] if ctx.thorough else []) + joinpairs:
        if all(HEADS[r] & {k for k, _ in g[1]} for r in rs) and (ctx.thorough or len(rs) > 1 or rs[0] not in ('act', 'expand', 'units', 'same')):
          yield g, rs, False, None
    for ks in itertools.product('dro', repeat=3):
      g = chain(ks)
      for c in (('n0',), ('n1', 'n2'), ('n0', 'n2'), ('n0', 'n1', 'in0'), ('nobody',)):
        for rs in (('any',), ('fuse',), ('pair',), ('expand', 'any'), ('fuse', 'act')):
          yield g, rs, ks[0] == 'd' and rs[0] == 'fuse' or rs == ('pair',), frozenset(c)

  for g, rs, seq, cand in cases():
    if not ctx.mine() or ctx.over():
      continue
    one(g, rs, seq, cand)
