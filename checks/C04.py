"""C04: sparsity preserving clustering over zero patterns and histories."""
import itertools
LEVEL = 'model_checking'
RULE = ('state = which instance of the model is alive (original or restored) and all its variables; transition = update of weights or '
        'centroids, gradient step, forward pass, or moving the state to the other instance through save/restore')
ASSUME = ['where two centroids are equally near either one is accepted', 'no two centroids become exactly equal by the updates']
BOUND = {'quick': 'all 64 zero patterns of a 3x2 dense kernel and all 64 of a per-channel 4x1x1x2 convolution, plus 12 other layer kinds with 2 patterns; 8 events up to depth 3, saved and restored at any point by 2 ways',
         'thorough': 'depth 4, all 256 patterns of 4x2 kernels, 3 clusterings per pattern'}


def run(ctx):
  import os, tempfile
  import numpy as np
  from env import tf, keras, tfmot
  import bfs
  from mc import require
  from clus import Rig, KINDS, CI, GA, L, fill, strip, Own

  def explore(rig, sig, depth, way):
    # ---- what was zero when clustering was applied
    masks, zero = [], []
    for k, p in enumerate(rig.pos):
      w0, c = rig.init_w[p], rig.cent[k].numpy()
      cc = c if rig.per_channel else c[None]
      zi = []
      for row in cc:
        z = np.flatnonzero(row == 0)
        require(len(z) >= 1, 'no zero centroid in %s', row)
        zi.append(list(z))
      zero.append(zi)
      eff = np.stack([row[np.abs((w0[..., i] if rig.per_channel else w0)[..., None] - row).argmin(-1)] for i, row in enumerate(cc)], -1)
      eff = eff if rig.per_channel else eff[..., 0]
      masks.append((eff != 0).astype(np.float32))
      require((masks[-1][w0 == 0] == 0).all(), 'zero weights outside the zero cluster')
    other = None
    if way == 'config':
      with tfmot.clustering.keras.cluster_scope(), keras.utils.custom_object_scope({'Own': Own}):
        other = rig.twin(keras.Model.from_config(rig.model.get_config()))
    else:
      f = tempfile.mktemp(suffix='.h5', dir=os.environ.get('MC_TMP'))
      rig.model.save(f, include_optimizer=False)
      with tfmot.clustering.keras.cluster_scope(), keras.utils.custom_object_scope({'Own': Own}):
        other = rig.twin(keras.models.load_model(f, compile=False))
      os.remove(f)
    rigs = [rig, other]
    W = [[(fill(k + j + 1, v.shape, 5) + 0.1).astype(np.float32) * s for k, v in enumerate(rig.vars)] for j, s in ((0, 1), (1, -3))]
    C = []
    for j in range(2):
      row = []
      for c in rig.cent:
        n = c.shape[-1]
        b = [np.linspace(-0.7, 1.1, n), 0.9 - 0.3 * np.arange(n) ** 2][j]
        row.append(np.broadcast_to(b, c.shape).astype(np.float32) if not rig.per_channel else (b * (1 + np.arange(c.shape[0])[:, None])).astype(np.float32))
      C.append(row)
    strips = [0]

    def check(r, y):
      eff = r.effective()
      for k, e in enumerate(eff):
        bad = (rig.init_w[rig.pos[k]] == 0) & (e != 0)
        require(not bad.any(), '%s: weights that were zero are %s', r.names[k], e[bad])
        require(not e[masks[k] == 0].any(), '%s: weights of the zero cluster are %s', r.names[k], e[masks[k] == 0])
      r.check(y, masks)

    def step(s, ev, hist):
      i, st = s
      r = rigs[i]
      r.load(st)
      if ev[0] in 'WC' and ev[1:].isdigit():
        for v, a in zip(r.vars if ev[0] == 'W' else r.cent, (W if ev[0] == 'W' else C)[int(ev[1:])]):
          v.assign(tf.constant(a))
      elif ev == 'restore':
        ws = [np.array(v.numpy(), copy=True) for v in r.model.weights]
        i = 1 - i
        r = rigs[i]
        for v, a in zip(r.model.weights, ws):
          v.assign(tf.constant(a))
      elif ev == 'step':
        with tf.GradientTape() as t:
          y = r.model(r.x, training=True)
          loss = tf.reduce_mean((y - 0.5) ** 2)
        check(r, np.array(y))
        tv = r.model.trainable_weights
        for v, g in zip(tv, t.gradient(loss, tv)):
          if g is not None:
            v.assign_sub(0.5 * tf.convert_to_tensor(g))
      else:
        vb = [v.numpy().copy() for v in r.vars]
        cb = [c.numpy().copy() for c in r.cent]
        y = r.forward(ev == 'train')
        require(all(np.array_equal(a, v.numpy()) for a, v in zip(vb, r.vars)), 'a forward pass changed weights')
        for k, (b, c) in enumerate(zip(cb, r.cent)):
          a = c.numpy()
          for row, (br, ar) in enumerate(zip(b if r.per_channel else b[None], a if r.per_channel else a[None])):
            z = zero[k][row]
            require((ar == 0).any(), '%s: there is no zero centroid any more: %s', r.names[k], ar)
            others = [q for q in range(len(ar)) if q not in z]
            require(np.array_equal(ar[others], br[others]), '%s: centroids %s became %s', r.names[k], br, ar)
        check(r, y)
        if len(hist) <= 2 and strips[0] < 6:
          strips[0] += 1
          sm = strip(r.model)
          now = sm.predict_on_batch(np.array(r.x))
          require(np.allclose(now, y, rtol=1e-4, atol=1e-5), 'stripped model gives %s instead of %s', now.reshape(-1)[:5], y.reshape(-1)[:5])
          for k, e in enumerate(r.effective()):
            require(any(v.shape == e.shape and np.array_equal(v.numpy(), e) for v in sm.weights), 'stripped weights differ from %s', e)
        ctx.evald((sig, y.tobytes()))
      return (i, r.state())

    return bfs.explore(ctx, (0, rig.state()), ['W0', 'W1', 'C0', 'C1', 'step', 'infer', 'train', 'restore'], step, depth,
                       key=lambda s: (s[0], bfs.arr(s[1])), max_states=None)

  depth = ctx.pick(3, 4)
  inits = [CI.LINEAR, CI.DENSITY_BASED, CI.RANDOM]
  rows = ctx.pick(3, 4)
  for bits in itertools.product((0, 1), repeat=2 * rows):
    for t in range(ctx.pick(1, 3)):
      for per_channel in (False, True):
        if not ctx.mine() or ctx.over():
          continue
        init = inits[(sum(bits) + t) % 3]
        way = ('config', 'h5')[(bits[0] + bits[-1] + t) % 2]
        sig = 'zero pattern %s, %s, %s, restored by %s' % (''.join(map(str, bits)), 'per channel' if per_channel else 'dense', init.name, way)
        with ctx.cell(sig):
          vals = np.array([0.9, -0.8, 0.35, -1.2, 0.6, 1.5, -0.45, 0.15][:2 * rows], np.float32) * np.array(bits)
          if per_channel:
            # more entries than clusters are needed: the first row comes twice
            pv = np.concatenate([vals, vals[:2] * np.float32(0.75)]).reshape(rows + 1, 1, 1, 2)
            rig = Rig(lambda: L.Conv2D(2, (rows + 1, 1)), (rows + 1, 1, 1), 3, init, per_channel=True, sparse=True, weights=[pv])
          else:
            if not any(bits):
              continue  # a dense kernel of zeros: there is nothing to cluster
            rig = Rig(lambda: L.Dense(2), (rows,), 3, init, sparse=True, weights=[vals.reshape(rows, 2)])
          r = explore(rig, sig, depth, way)
          ctx.sample({'case': sig, 'states': r[0], 'transitions': r[1]})
  for (kind, (make, shape, call)), pat, n in itertools.product(KINDS.items(), (2, 3), (3, 5)):
    if not ctx.mine() or ctx.over():
      continue
    if kind == 'MultiHeadAttention' or (n == 5 and kind not in ('Dense', 'Conv2D', 'LSTM', 'Conv1D')):
      continue  # attention layers cannot be restored (known finding of C06)
    sig = '%s, every %d-th weight zero, %d clusters' % (kind, pat, n)
    with ctx.cell(sig):
      probe = Rig(make, shape, n, CI.LINEAR, call=call, twin_only=True)
      ws = []
      for k, p in enumerate(probe.pos):
        a = fill(k + 5, probe.vars[p].shape) + np.float32(0.03)
        a.reshape(-1)[::pat] = 0
        ws.append(a)
      rig = Rig(make, shape, n, CI.LINEAR, call=call, sparse=True, weights=ws)
      explore(rig, sig, ctx.pick(2, 3), ('config', 'h5')[(n + pat) % 2])
