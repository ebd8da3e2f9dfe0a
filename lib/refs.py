"""Plain numpy reference models."""
import numpy as np


def elem_mask(mag, s):
  """Magnitude mask: (mask, threshold)."""
  mag = np.asarray(mag)
  k = int(max(np.round(np.float32(mag.size) * (np.float32(1) - np.float32(s))), 1))
  thr = np.sort(mag.reshape(-1))[::-1][k - 1]
  return mag >= thr, thr


def block_mask(w, s, block, pool):
  mag = np.abs(w).astype(np.float64)
  bh, bw = block
  gh, gw = -(-w.shape[0] // bh), -(-w.shape[1] // bw)
  grid = np.zeros((gh, gw))
  for i in range(gh):
    for j in range(gw):
      b = mag[i * bh:(i + 1) * bh, j * bw:(j + 1) * bw]
      grid[i, j] = b.mean() if pool == 'AVG' else b.max()
  gm, thr = elem_mask(grid, s)
  return np.repeat(np.repeat(gm, bh, 0), bw, 1)[:w.shape[0], :w.shape[1]], thr


def mn_rows(a):
  if a.ndim == 2:
    return [a[:, o] for o in range(a.shape[1])]
  return [a[h, w, :, o] for h in range(a.shape[0]) for w in range(a.shape[1]) for o in range(a.shape[3])]


def mn_mask(w, m, n):
  """Only for distinct magnitudes within a group."""
  mask = np.ones(w.shape, bool)
  for rw, rm in zip(mn_rows(np.abs(w)), mn_rows(mask)):
    for i in range(0, len(rw), n):
      g = rw[i:i + n]
      order = sorted(range(len(g)), key=lambda j: (-g[j], j))
      for j in order[min(len(g), n - m):]:
        rm[i + j] = False
  return mask


def due(step, b, e, f):
  return step >= b and (e == -1 or step <= e) and (step - b) % f == 0


def poly(step, i, fi, b, e, pw):
  if step >= e:
    return fi
  if step <= b:
    return i
  return fi + (i - fi) * (1 - (step - b) / float(e - b)) ** pw
