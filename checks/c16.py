"""C16: quantizers emit only representable values.

The reference is the standard fake-quantization arithmetic (zero-point nudging, round half up)
computed in float64; ties of the zero point or of a value are accepted both ways."""
import numpy as np

from lib import quant

PROP = 'C16'
RULE = ('one case = one quantizer (class, bits 2..16, symmetric, narrow, per channel) and several tensors (rank 1, 2, 4; one-signed, '
        'constant, skewed, huge, tiny), quantized in training and with stored ranges in inference, eagerly and traced; levels, half '
        'step, saturation, zero and idempotence are checked per slice against a float64 emulation; non-trivial = distinct '
        '(class, bits, flags, rank, distribution, mode)')
CLAUSES = ['levels', 'grid', 'zero', 'half-step', 'saturates', 'idempotent', 'per-channel', 'emulation', 'traced']


def cases(rng, tier):
  out = []
  n = 130 if tier == 'quick' else 3000
  for i in range(n):
    kind = ['LastValue', 'MovingAverage', 'AllValues', 'Fixed', 'LastValue', 'AllValues'][i % 6]
    pa = kind != 'Fixed' and rng.random() < .5
    nd = rng.choice([1, 2, 2, 4, 4]) if pa else rng.choice([1, 2, 3, 4, 5])
    big = {1: 50, 2: 12, 3: 6, 4: 5, 5: 3}[nd]
    a, b = sorted([rng.choice([-6., -1., -.3, 0., -100., rng.uniform(-3, 0)]), rng.choice([6., 1., .7, 127., rng.uniform(.1, 9)])])
    out.append(dict(kind=kind, bits=rng.choice([8, 8, 8, 4, 2, 3, 5, 6, 7, 9, 12, 16, rng.randrange(2, 17)]), pa=pa,
                    sym=bool(rng.random() < .5), narrow=bool(rng.random() < .5), shape=[rng.randrange(1, big + 1) for _ in range(nd)],
                    fixed=[a, b], dists=[rng.choice(quant.DISTS) for _ in range(3)], seed=rng.randrange(10**6)))
  return out


class Holder:
  pass


def run(case, mon):
  import tensorflow as tf
  from tensorflow_model_optimization.python.core.keras.compat import keras
  rs = np.random.RandomState(case['seed'])
  bits, narrow, pa, kind, sh = case['bits'], case['narrow'], case['pa'], case['kind'], case['shape']
  q = quant.make(kind, bits, pa, case['sym'], narrow, case['fixed'])
  layer = keras.layers.Layer()
  w = q.build(tf.TensorShape(sh), 'w', layer)
  ref = quant.Ref(kind, bits, pa, case['sym'], narrow, sh[-1], case['fixed'])
  traced = {t: tf.function(lambda x, t=t: q(x, t, w)) for t in (True, False)}

  def stored():
    if not w:
      return ref.lo, ref.hi
    return w['min_var'].numpy(), w['max_var'].numpy()

  def judge(x, out, lo, hi, where):
    lo, hi = np.asarray(lo, np.float64), np.asarray(hi, np.float64)
    x, out = np.asarray(x, np.float64), np.asarray(out, np.float64)
    if not mon.check('emulation', not quant.bad_any(x, out, lo, hi, bits, narrow),
                     lambda: '%s: %s' % (where, quant.bad_any(x, out, lo, hi, bits, narrow))):
      return
    if lo.ndim:
      mon.check('per-channel', lo.shape == (x.shape[-1],), '%s: ranges %s' % (where, lo.shape))
      slices = [(x[..., c].ravel(), out[..., c].ravel(), lo[c], hi[c]) for c in range(x.shape[-1])]
    else:
      slices = [(x.ravel(), out.ravel(), lo, hi)]
    for xs, os, l, h in slices:
      n = 2**bits - (1 if narrow else 0)
      mon.check('levels', len(np.unique(np.float32(os))) <= n, '%s: %d distinct values at %d bits' % (where, len(np.unique(os)), bits))
      if h > l:
        step = (h - l) / (n - 1)
        k = os / step
        mon.check('grid', np.all(np.abs(k - np.round(k)) <= 1e-3 + 3e-6 * 2**bits), '%s: values %s off the grid of step %s' % (where, os[:5], step))
        eps = step * (1e-3 + 3e-6 * 2**bits)
        inner = (xs >= l + step / 2) & (xs <= h - step / 2)
        mon.check('half-step', np.all(np.abs(os - xs)[inner] <= step / 2 + eps), '%s: moved by %s steps' % (where, (np.abs(os - xs)[inner] / step).max(initial=0)))
        far = (xs < l - step) | (xs > h + step)
        if far.any():
          end = np.where(xs < l, l, h)
          mon.check('saturates', np.all(np.abs(os - end)[far] <= step / 2 + eps), '%s: %s saturate to %s of range %s..%s' % (where, xs[far][:4], os[far][:4], l, h))
    if (x == 0).any():
      mon.check('zero', np.all(out[x == 0] == 0), '%s: zero became %s' % (where, out[x == 0][:4]))

  for j, dist in enumerate(case['dists']):
    x = quant.tensor(rs, sh, dist)
    if rs.rand() < .3 and x.size > 2:
      x.ravel()[rs.randint(x.size)] = 0.
    use_traced = j % 2 == 1
    f = (lambda a, t: traced[t](a)) if use_traced else (lambda a, t: q(a, t, w))
    out = f(tf.constant(x), True).numpy()
    ref.train(x)
    lo, hi = stored()
    judge(x, out, lo, hi, 'training/' + dist)
    mon.check('emulation', not ref.bad(x, out), lambda: 'training/%s with reference range: %s' % (dist, ref.bad(x, out)))
    if use_traced:
      again = q(tf.constant(x), False, w).numpy()
      mon.check('traced', np.array_equal(again, traced[False](tf.constant(x)).numpy()) and np.allclose(again, out, atol=1e-6 * (1 + np.abs(out).max())),
                'eager and traced differ')
    mon.event('training', 1); mon.nontrivial(kind, bits, case['sym'], narrow, pa, len(sh), dist, 't')
    # inference: the stored range is in force for quite different data
    if w and rs.rand() < .6:
      shp = w['min_var'].shape
      a = -np.abs(rs.randn(*shp)).astype(np.float32) * 2 * (rs.rand() < .85)
      b = np.abs(rs.randn(*shp)).astype(np.float32) * 2 + .05
      if case['sym']:
        a = -b if narrow else -b * (2.**bits) / (2.**bits - 2)
      w['min_var'].assign(a); w['max_var'].assign(b)
      ref.lo, ref.hi = np.asarray(a, np.float64), np.asarray(b, np.float64)
    lo, hi = stored()
    y = quant.tensor(rs, sh, rs.choice(quant.DISTS)) * np.float32(rs.choice([.5, 1, 3]))
    o = f(tf.constant(y), False).numpy()
    judge(y, o, lo, hi, 'inference')
    o2 = q(tf.constant(o), False, w).numpy()
    scale = (np.max(hi) - np.min(lo)) * 1e-5 + 1e-30
    mon.check('idempotent', np.allclose(o2, o, rtol=1e-5, atol=scale), 'quantizing twice moves by %s' % np.abs(o2 - o).max())
    mon.event('inference', 1); mon.nontrivial(kind, bits, case['sym'], narrow, pa, len(sh), 'i')
