"""Reference model of fake quantization and of the quantizers' range rules."""
import numpy as np


def params(lo, hi, bits, narrow):
  """All admissible (scale, nudged min, nudged max): more than one when the
  zero point is a rounding tie."""
  qmin, qmax = (1 if narrow else 0), 2**bits - 1
  lo, hi = float(lo), float(hi)
  scale = (hi - lo) / (qmax - qmin)
  z = qmin - lo / scale
  tol = 1e-6 * max(1., abs(z)) + 1e-4
  zs = {min(max(int(np.floor(z + .5 + d)), qmin), qmax) for d in (-tol, 0, tol)}
  return [(scale, (qmin - k) * scale, (qmax - k) * scale) for k in sorted(zs)]


def bad(x, out, lo, hi, bits, narrow, slack=0.):
  """None if out is the fake quantization of x for one range, else a description."""
  x = np.asarray(x, np.float64); out = np.asarray(out, np.float64)
  if x.shape != out.shape:
    return 'shape %s became %s' % (x.shape, out.shape)
  if lo == hi:
    # an empty range (only {0}) quantizes everything to zero
    return None if np.all(out == 0) else 'range is empty but output is not zero: %s' % out.ravel()[:5]
  why = None
  for scale, nmin, nmax in params(lo, hi, bits, narrow):
    q = (np.clip(x, nmin, nmax) - nmin) / scale
    g = (out - nmin) / scale
    tol = 1e-4 + 3e-6 * (2**bits) + 4e-7 * max(abs(lo), abs(hi)) / scale + slack
    k = np.round(g)
    n = round((nmax - nmin) / scale)
    problems = []
    off = np.abs(g - k) > tol
    if off.any():
      problems.append('%d values off the grid' % off.sum())
    if (k < 0).any() or (k > n).any():
      problems.append('values beyond the range ends')
    far = np.abs(q - k) > .5 + tol
    if far.any():
      i = np.argmax(np.abs(q - k))
      problems.append('value %r became %r (step %r, range %r..%r)' % (
          x.ravel()[i], out.ravel()[i], scale, nmin, nmax))
    if not problems:
      return None
    why = '; '.join(problems)
  return why


def bad_any(x, out, lo, hi, bits, narrow, slack=0.):
  """The same with scalar or per-last-axis ranges."""
  lo = np.asarray(lo, np.float64); hi = np.asarray(hi, np.float64)
  if lo.ndim == 0:
    return bad(x, out, lo, hi, bits, narrow, slack)
  x = np.asarray(x); out = np.asarray(out)
  if x.shape != out.shape:
    return 'shape %s became %s' % (x.shape, out.shape)
  if lo.shape != (x.shape[-1],):
    return 'ranges of shape %s for %d channels' % (lo.shape, x.shape[-1])
  for c in range(x.shape[-1]):
    w = bad(x[..., c], out[..., c], lo[c], hi[c], bits, narrow, slack)
    if w:
      return 'channel %d: %s' % (c, w)
  return None


def batch_range(x, bits, symmetric, narrow, per_axis):
  """Range of one batch before any averaging; contains zero."""
  x = np.asarray(x, np.float64)
  if per_axis:
    ax = tuple(range(x.ndim - 1))
    lo, hi = x.min(axis=ax), x.max(axis=ax)
  else:
    lo, hi = x.min(), x.max()
  lo, hi = np.minimum(lo, 0), np.maximum(hi, 0)
  if symmetric:
    # one extra negative level outside narrow range
    r = 1. if narrow else (2.**bits - 2) / 2.**bits
    m = np.maximum(hi, -lo * r)
    lo, hi = -m / r, m
  return lo, hi


class Ref:
  """Range automaton of one quantizer."""

  def __init__(self, kind, bits, per_axis=False, symmetric=False, narrow=False, channels=None, fixed=None):
    self.kind, self.bits, self.per_axis, self.symmetric, self.narrow = kind, bits, per_axis, symmetric, narrow
    z = np.zeros(channels) if per_axis else np.float64(0)
    if kind == 'Fixed':
      self.lo, self.hi = np.float64(fixed[0]), np.float64(fixed[1])
    elif kind == 'AllValues':
      self.lo, self.hi = z, z
    else:
      self.lo, self.hi = z - 6., z + 6.

  def train(self, x):
    if self.kind in ('Fixed', 'No'):
      return
    lo, hi = batch_range(x, self.bits, self.symmetric, self.narrow, self.per_axis)
    if self.kind == 'LastValue':
      self.lo, self.hi = lo, hi
    elif self.kind == 'MovingAverage':
      self.lo = self.lo * .999 + lo * .001
      self.hi = self.hi * .999 + hi * .001
    else:
      self.lo, self.hi = np.minimum(self.lo, lo), np.maximum(self.hi, hi)

  def bad(self, x, out):
    if self.kind == 'No':
      return None if np.array_equal(x, out) else 'values changed'
    return bad_any(x, out, self.lo, self.hi, self.bits, self.narrow)


def make(kind, bits=8, per_axis=False, symmetric=False, narrow=False, fixed=(-1., 1.)):
  from tensorflow_model_optimization.python.core.quantization.keras import quantizers as q
  if kind == 'Fixed':
    return q.FixedQuantizer(num_bits=bits, init_min=fixed[0], init_max=fixed[1], narrow_range=narrow)
  if kind == 'No':
    return q.NoQuantizer()
  cls = {'LastValue': q.LastValueQuantizer, 'MovingAverage': q.MovingAverageQuantizer, 'AllValues': q.AllValuesQuantizer}[kind]
  return cls(num_bits=bits, per_axis=per_axis, symmetric=symmetric, narrow_range=narrow)


def tensor(rs, shape, dist):
  n = int(np.prod(shape))
  if dist == 'normal': x = rs.randn(n)
  elif dist == 'positive': x = np.abs(rs.randn(n)) + .1
  elif dist == 'negative': x = -np.abs(rs.randn(n)) - .1
  elif dist == 'zeros': x = np.zeros(n)
  elif dist == 'const': x = np.full(n, rs.randn())
  elif dist == 'large': x = rs.randn(n) * 1e4
  elif dist == 'small': x = rs.randn(n) * 1e-3
  elif dist == 'skewed': x = np.concatenate([[rs.choice([-1, 1]) * 20.], rs.randn(n - 1) * .1])[:n]
  elif dist == 'lattice': x = rs.randint(-4, 5, n) * .25
  elif dist == 'uniform': x = rs.uniform(-8, 8, n)
  elif dist == 'onesided': x = np.maximum(rs.randn(n), 0)
  x = np.asarray(x, np.float32).reshape(shape)
  if dist in ('skewed', 'normal') and len(shape) > 1 and rs.rand() < .4:
    x = x * (10. ** rs.uniform(-2, 2, shape[-1])).astype(np.float32)     # uneven channels
  return x

DISTS = ['normal', 'positive', 'negative', 'zeros', 'const', 'large', 'small', 'skewed', 'lattice', 'uniform', 'onesided']
