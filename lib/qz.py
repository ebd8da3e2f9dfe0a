"""Shared pieces of the quantization checks."""
import numpy as np
from env import tf, keras, tfmot
from mc import require
L = keras.layers
Qz = tfmot.quantization.keras.quantizers
from tensorflow_model_optimization.python.core.quantization.keras import quantize_wrapper as qw, quantize_layer as ql, quantize_aware_activation as qa
from tensorflow_model_optimization.python.core.quantization.keras import quantizers as _q
from tensorflow_model_optimization.python.core.quantization.keras.default_8bit import default_8bit_quantizers as d8
from tensorflow_model_optimization.python.core.quantization.keras.experimental.default_n_bit import default_n_bit_quantizers as dn

Last, Moving, All, Fixed = _q.LastValueQuantizer, _q.MovingAverageQuantizer, _q.AllValuesQuantizer, _q.FixedQuantizer


def make(quantizer, shape):
  """Builds a quantizer; returns (quantizer, variables or None)."""
  l = keras.layers.Layer()
  return quantizer, quantizer.build(tf.TensorShape(shape), 'x', l)


def mode(q):
  return dict(bits=q.num_bits, narrow=q.narrow_range, sym=getattr(q, 'symmetric', False), per=getattr(q, 'per_axis', False))


def batch_range(x, bits, narrow, sym, per):
  """The smallest range the mode requires for the values of x (float64)."""
  x = np.asarray(x, np.float64)
  ax = tuple(range(x.ndim - 1)) if per else None
  lo, hi = np.minimum(x.min(axis=ax), 0), np.maximum(x.max(axis=ax), 0)
  if sym:
    r = 1.0 if narrow else 1 - 2.0 ** (1 - bits)  # largest / -smallest
    lo, hi = np.minimum(lo, -hi / r), np.maximum(hi, -lo * r)
  return lo, hi


def next_range(kind, old, x, m):
  lo, hi = batch_range(x, **m)
  if kind is Last:
    return lo, hi
  a, b = np.asarray(old[0], np.float64), np.asarray(old[1], np.float64)
  if kind is Moving:
    return 0.999 * a + 0.001 * lo, 0.999 * b + 0.001 * hi
  return np.minimum(np.minimum(a, lo), 0), np.maximum(np.maximum(b, hi), 0)


def fake_quant(x, lo, hi, bits, narrow, per):
  f = tf.quantization.fake_quant_with_min_max_vars_per_channel if per else tf.quantization.fake_quant_with_min_max_vars
  return f(x, tf.constant(lo, tf.float32), tf.constant(hi, tf.float32), num_bits=bits, narrow_range=narrow)


def check_grid(xs, ys, gs, lo, hi, bits, narrow, what=''):
  """xs -> ys is the quantization with range lo..hi; gs are the gradients (or None)."""
  xs, ys = np.asarray(xs, np.float64).reshape(-1), np.asarray(ys, np.float64).reshape(-1)
  if lo == hi:
    require(not ys.any(), '%s: an empty range gives %s', what, ys[:5])
    return
  levels = 2 ** bits - (1 if narrow else 0)
  s = (hi - lo) / (levels - 1)
  e = 1e-5 * max(abs(lo), abs(hi)) + 1e-6 * s
  k = ys / s
  require(np.abs(k - np.round(k)).max() < 1e-2 if bits <= 8 else True, '%s: values %s are not multiples of the step %g', what, ys[np.abs(k - np.round(k)).argmax()], s)
  k = np.round(k).astype(int)
  require(k.max() - k.min() <= levels - 1, '%s: %d levels for %d bits', what, k.max() - k.min() + 1, bits)
  # the grid is the range moved by less than a step, so that zero is on it
  below, above = xs < lo - s, xs > hi + s
  glo, ghi = round(lo / s) * s, round(lo / s) * s + (levels - 1) * s
  alt = [(glo, ghi)]
  f = lo / s - np.floor(lo / s)
  if abs(f - 0.5) < 1e-3 + 1e-6 * levels:  # either neighbour is right
    alt = [(np.floor(lo / s) * s, np.floor(lo / s) * s + (levels - 1) * s), (np.ceil(lo / s) * s, np.ceil(lo / s) * s + (levels - 1) * s)]
  ok = False
  for a, b in alt:
    if (np.abs(ys - np.clip(xs, a, b)) <= s / 2 + e).all() and ys.min() >= a - e and ys.max() <= b + e:
      ok = True
      glo, ghi = a, b
      break
  j = np.abs(ys - np.clip(xs, glo, ghi)).argmax()
  require(ok, '%s: %g becomes %g with the range %g..%g in %d levels', what, xs[j], ys[j], lo, hi, levels)
  z = xs == 0
  require(not ys[z].any(), '%s: zero becomes %s', what, ys[z][:3])
  if gs is not None:
    gs = np.asarray(gs, np.float64).reshape(-1)
    a, b = [z[0] for z in alt], [z[1] for z in alt]
    ins, out = (xs > max(a) + e) & (xs < min(b) - e), (xs < min(a) - e) | (xs > max(b) + e)
    require((gs[ins] == 1).all(), '%s: the gradient inside the range is %s', what, gs[ins][gs[ins] != 1][:3])
    require((gs[out] == 0).all(), '%s: the gradient outside the range is %s', what, gs[out][gs[out] != 0][:3])
  return k
