"""C30: lossy tensor encodings stay within their error bound and range."""
import numpy as np

from lib import enc

PROP = 'C30'
RULE = ('one case = one lossy stage (uniform quantization global / fixed range / per channel / with shared randomness, clipping by norm or value) on one '
        'random tensor (constant, skewed, offset, huge, tiny), eagerly, traced, with dynamic shapes, or encoded and decoded in two graphs; or a '
        'statistical test of unbiasedness on thousands of equal values; or one ready-made encoder behind its simple or gather front end; non-trivial = distinct (stage, bits, rounding, distribution, mode)')
CLAUSES = ['integers', 'range', 'bound', 'constant', 'min-max', 'saturates', 'unbiased', 'clip-norm', 'clip-value', 'shape-dtype', 'seeds-differ', 'max-value', 'rejects', 'common', 'packed']
STAGES = ['uniform', 'uniform', 'fixed', 'prng', 'pc', 'pcprng', 'clipn', 'clipv', 'bias', 'reject', 'uniform', 'pc']


def cases(rng, tier):
  out = []
  for i in range(290 if tier == 'quick' else 7000):
    st = STAGES[i % len(STAGES)]
    nd = rng.choice([1, 1, 2, 2, 3, 4])
    sh = [rng.choice([1, 2, 5, 16, 33, 70, 200]) if nd == 1 else rng.randrange(1, [0, 0, 12, 6, 5][nd]) for _ in range(nd)]
    lo = rng.choice([-1., 0., -10., .5, -3.25]); hi = lo + rng.choice([1., .1, 20., 2.])
    out.append(dict(st=st, sh=sh, dt=rng.choice(['f32', 'f32', 'f64']), bits=rng.choice([1, 2, 3, 4, 8, 8, 8, 12, 16, rng.randrange(1, 17)]),
                    mode=rng.choice(['eager', 'graph', 'dynamic', 'unknown', 'split']), dist=rng.choice(enc.DISTS), stoch=bool(rng.random() < .6),
                    lo=lo, hi=hi, norm=rng.choice([.1, 1., 10., 1e6]), force=bool(rng.random() < .3), bias=rng.choice(['uniform', 'fixed', 'prng', 'pc', 'pcprng']),
                    seed=rng.randrange(10**6)))
  for i in range(24 if tier == 'quick' else 500):
    sh = [rng.choice([1, 2, 3, 5, 8, 17]) for _ in range(rng.choice([1, 2, 3]))]
    out.append(dict(st='common', sh=sh, dt='f32', bits=rng.choice([1, 2, 4, 6, 8, 12, 16, rng.randrange(1, 17)]), what=['uniform', 'hadamard', 'fixed', 'identity'][i % 4], front=rng.choice(['simple', 'gather']),
                    dist=rng.choice(enc.DISTS), stoch=bool(rng.random() < .5), lo=-1., hi=rng.choice([1., 3.]), traced=bool(rng.random() < .5), seed=rng.randrange(10**6)))
  return out


def common(case, mon, rs):
  """The ready-made encoders, through their front ends."""
  import tensorflow as tf
  from tensorflow_model_optimization.python.core.internal.tensor_encoding.encoders import common_encoders as E
  bits, what = case['bits'], case['what']
  spec = tf.TensorSpec(case['sh'], tf.float32)
  make = {'uniform': lambda: E.uniform_quantization(bits, stochastic=case['stoch']), 'hadamard': lambda: E.hadamard_quantization(bits),
          'fixed': lambda: E.uniform_quantization(bits, min_max=[case['lo'], case['hi']], stochastic=case['stoch']), 'identity': E.identity}[what]
  for f in (E.as_simple_encoder, E.as_gather_encoder):
    for a in ((make, spec), (None, spec), (make(), case['sh']), (make(), tf.zeros(case['sh']))):
      mon.raises('rejects', lambda a=a, f=f: f(*a), TypeError, '%s%s' % (f.__name__, a))
  x = enc.values(rs, case['sh'], case['dist']).astype('f')
  if case['front'] == 'simple':
    s = E.as_simple_encoder(make(), spec)

    def trip(a):
      e, st = s.encode(a, s.initial_state())
      return e, s.decode(e)
  else:
    g = E.as_gather_encoder(make(), spec)

    def trip(a):
      ep, db, da = g.get_params()
      e, _ = g.encode(a, ep)
      return e, g.decode_after_sum(g.decode_before_sum(e, db), da, 1)
  e, d = (tf.function(trip) if case['traced'] else trip)(tf.constant(x))
  d = d.numpy()
  mon.check('shape-dtype', d.shape == x.shape and d.dtype == x.dtype, '%s decodes to %s %s' % (x.shape, d.shape, d.dtype))
  n = x.size
  m = n if what != 'hadamard' else 1 << (n - 1).bit_length()
  packed = [v for v in tf.nest.flatten(e) if v.dtype in (tf.int32, tf.int64) and v.shape.rank == 2]
  if what == 'identity':
    mon.check('common', np.array_equal(d, x), 'the identity encoder changed its input')
  else:
    mon.check('packed', len(packed) == 1 and int(tf.size(packed[0])) == -(-m * bits // 28) and 0 <= int(tf.reduce_min(packed[0])) and int(tf.reduce_max(packed[0])) < 2**28,
              lambda: '%d values of %d bits packed into %s' % (m, bits, [v.shape for v in packed]))
    x64, d64 = x.astype(np.float64), d.astype(np.float64)
    if what == 'hadamard':
      # the rotation keeps lengths; its values lie within the length of the input
      size = np.linalg.norm(x64)
      bound = 2 * size / (2**bits - 1) * np.sqrt(m)
      err = np.linalg.norm(d64 - x64)
      mon.check('common', err <= bound * (1 + 1e-5) + 1e-5 * size * np.sqrt(m) + 1e-30, lambda: 'error %g above %g for an input of norm %g' % (err, bound, size))
    else:
      lo, hi = (case['lo'], case['hi']) if what == 'fixed' else (x64.min(), x64.max())
      err = np.abs(d64 - np.clip(x64, lo, hi)).max()
      step = (hi - lo) / (2**bits - 1)
      mon.check('common', err <= step * (1. if case['stoch'] else .5) * (1 + 1e-3) + 1e-6 * (abs(lo) + abs(hi)) * 2, lambda: 'error of %g steps' % (err / max(step, 1e-300)))
  mon.nontrivial('common', what, case['front'], bits, case['traced'])


def f32(v):
  # Python parameters become float32 tensors, whatever the input
  return float(np.float32(v))


def run(case, mon):
  import tensorflow as tf
  from tensorflow_model_optimization.python.core.internal.tensor_encoding.stages import stages_impl as S
  from tensorflow_model_optimization.python.core.internal.tensor_encoding.stages.research import clipping, quantization as Q
  rs = np.random.RandomState(case['seed'])
  st, sh, mode, dt, bits, stoch = case['st'], tuple(case['sh']), case.get('mode'), case['dt'], case['bits'], case['stoch']
  tfdt = getattr(tf, enc.DT[dt])
  mon.event(st)
  if st == 'common':
    return common(case, mon, rs)
  if st == 'reject':
    for cls in (S.UniformQuantizationEncodingStage, Q.PRNGUniformQuantizationEncodingStage, Q.PerChannelUniformQuantizationEncodingStage, Q.PerChannelPRNGUniformQuantizationEncodingStage):
      for b in (0, 17, -3, 2.5):
        mon.raises('rejects', lambda b=b, cls=cls: cls(bits=b), ValueError, '%s bits %s' % (cls, b))
    for mm in ([1., 1.], [2., 1.], [1.], 3.):
      mon.raises('rejects', lambda mm=mm: S.UniformQuantizationEncodingStage(min_max=mm), ValueError, 'min_max %s' % mm)
    mon.raises('rejects', lambda: S.UniformQuantizationEncodingStage(stochastic=1), TypeError, 'stochastic=1')
    return mon.nontrivial('reject')
  mk = {'uniform': lambda s: S.UniformQuantizationEncodingStage(bits=bits, stochastic=s, **(
            {'reduce_memory_use_by_forcing_random_op_after_clipping': True} if case['force'] else {})),
        'fixed': lambda s: S.UniformQuantizationEncodingStage(bits=bits, min_max=[case['lo'], case['hi']], stochastic=s),
        'prng': lambda s: Q.PRNGUniformQuantizationEncodingStage(bits=bits),
        'pc': lambda s: Q.PerChannelUniformQuantizationEncodingStage(bits=bits, stochastic=s),
        'pcprng': lambda s: Q.PerChannelPRNGUniformQuantizationEncodingStage(bits=bits)}
  if st == 'bias':
    b = case['bias']
    n = 6000
    lo, hi = (case['lo'], case['hi'])
    v = lo + (hi - lo) * rs.rand()
    x = np.full((n + 2, 1) if b.startswith('pc') else (n + 2,), v)
    x[0], x[1] = lo, hi
    bits = case['bits'] if case['bits'] < 9 else 3
    _, d, _, _ = enc.roundtrip(mk[b](True), x, dt, 'eager' if mode == 'eager' else 'graph')
    d = np.asarray(d, np.float64).ravel()[2:]
    step = (hi - lo) / (2**bits - 1)
    err = abs(d.mean() - v) / step
    # at most half a step standard deviation per value (a bit more with shared randomness)
    mon.check('unbiased', err <= 6.5 * .55 / np.sqrt(n) + 1e-4, '%s: mean of decoded values off by %.4f steps' % (b, err))
    return mon.nontrivial('bias', b, bits)
  mon.nontrivial(st, bits, stoch, case['dist'], mode, dt)
  x = enc.values(rs, sh, case['dist']).astype(enc.DT[dt])
  if st == 'fixed':
    x = (enc.values(rs, sh, 'normal') * (case['hi'] - case['lo']) + (case['hi'] + case['lo']) / 2).astype(enc.DT[dt])
  x64 = np.asarray(x, np.float64)
  if st in ('clipn', 'clipv'):
    stage = clipping.ClipByNormEncodingStage(case['norm']) if st == 'clipn' else clipping.ClipByValueEncodingStage(case['lo'], case['hi'])
    e, d, _, _ = enc.roundtrip(stage, x, dt, mode)
    mon.check('shape-dtype', tuple(d.shape) == x.shape and d.dtype == tfdt, '%s %s' % (d.shape, d.dtype))
    d = np.asarray(d, np.float64)
    v = np.asarray(list(e.values())[0], np.float64)
    if st == 'clipn':
      nrm = np.linalg.norm(x64)
      want = x64 * min(1., case['norm'] / nrm) if nrm > 0 else x64
      for a in (d, v):
        mon.check('clip-norm', np.allclose(a, want, rtol=1e-5, atol=1e-30) and np.linalg.norm(a) <= case['norm'] * (1 + 1e-5), 'norm %s clipped at %s gives norm %s' % (nrm, case['norm'], np.linalg.norm(a)))
    else:
      want = np.clip(x64, f32(case['lo']), f32(case['hi']))
      for a in (d, v):
        mon.check('clip-value', np.array_equal(a, want), 'clipped to %s' % a.ravel()[:5])
    return
  stage = mk[st](stoch)
  e, d, ep, dp = enc.roundtrip(stage, x, dt, mode)
  mon.check('shape-dtype', tuple(d.shape) == x.shape and d.dtype == tfdt, '%s: %s %s of %s' % (st, d.shape, d.dtype, x.shape))
  q = np.asarray(e['quantized_values'], np.float64)
  d = np.asarray(d, np.float64)
  mon.check('integers', np.all(q == np.round(q)), 'encoded values %s' % q.ravel()[:5])
  mon.check('range', q.min() >= 0 and q.max() <= 2**bits - 1, 'encoded values in %s..%s at %d bits' % (q.min(), q.max(), bits))
  mon.check('max-value', int(ep['max_value']) == 2**bits - 1 and int(dp['max_value']) == 2**bits - 1, 'max value %s' % ep['max_value'])
  if st == 'fixed':
    lo, hi = f32(case['lo']), f32(case['hi'])
    target = np.clip(x64, lo, hi)
    out = x64 != target
  elif st in ('pc', 'pcprng'):
    ax = tuple(range(x.ndim - 1))
    lo, hi = x64.min(axis=ax), x64.max(axis=ax)
    target = x64
  else:
    lo, hi = x64.min(), x64.max()
    target = x64
  if st != 'fixed':
    mm = np.asarray(e['min_max'], np.float64)
    mon.check('min-max', np.array_equal(mm[0], lo) and np.array_equal(mm[1], hi), 'min_max %s instead of %s' % (mm, (lo, hi)))
  step = (hi - lo) / (2**bits - 1)
  half = .5 if (st in ('prng', 'pcprng') or not stoch) else 1.
  eps = {'f32': 1.2e-7, 'f64': 2.3e-16}[dt]
  # rounding of the scaling to integers and back
  slack = 6 * eps * (np.abs(lo) + np.abs(hi) + (hi - lo))
  err = np.abs(d - target)
  # rounding may also flip a stochastic decision right at an integer
  mon.check('bound', np.all(err <= half * step + slack + step * 4 * eps * 2**bits), lambda: '%s: error of %s steps (%s bits, stochastic %s)' % (st, (err / np.maximum(step, 1e-300)).max(), bits, stoch))
  if st == 'fixed' and out.any():
    mon.check('saturates', np.all(np.abs(d - target)[out] <= slack), 'out-of-range values decode to %s' % d[out][:4])
  cst = np.broadcast_to(lo == hi, d.shape) if st != 'fixed' else np.zeros(d.shape, bool)
  if cst.any():
    mon.check('constant', np.array_equal(d[cst], x64[cst]), 'constant %s decodes to %s' % (x64[cst][:3], d[cst][:3]))
  if st in ('prng', 'pcprng'):
    e2, _, _, _ = enc.roundtrip(stage, x, dt, 'eager')
    mon.check('seeds-differ', not np.array_equal(e2['seed'], e['seed']), 'two encodings share the seed')
