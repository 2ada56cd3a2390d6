"""C29: lossless tensor encodings decode to exactly what was encoded."""
import numpy as np

from lib import enc

PROP = 'C29'
RULE = ('one case = one lossless stage (identity, flatten, bit packing, integer differences, split by small value, Hadamard, Kashin) or utility '
        '(pack/unpack, Walsh-Hadamard, random signs and floats) on one random tensor around structural boundaries (size 1, powers of two, packing '
        'word boundaries), eagerly, in one graph, in two graphs, or with dynamic shapes; non-trivial = distinct (stage, options, shape class, dtype, mode)')
CLAUSES = ['exact', 'close', 'shape-dtype', 'packed-range', 'packed-length', 'packed-layout', 'norm', 'signs', 'seed', 'floats', 'transform', 'flat', 'selected', 'differences', 'rejects']
SIZES = [1, 2, 3, 4, 5, 6, 7, 8, 9, 13, 14, 15, 16, 17, 27, 28, 29, 31, 32, 33, 55, 56, 57, 63, 64, 65, 100, 127, 128, 129]


def cases(rng, tier):
  out = []
  big = tier != 'quick'
  for i in range(240 if not big else 8000):
    st = ['identity', 'flatten', 'bitpack', 'bitpack', 'diff', 'split', 'hadamard', 'kashin', 'pack', 'fwht', 'signs', 'floats', 'hadamard', 'kashin', 'pack', 'reject'][i % 16]
    nd = {'hadamard': rng.choice([1, 2]), 'kashin': rng.choice([1, 2]), 'fwht': 2, 'diff': 1, 'split': 1, 'pack': 1}.get(st, rng.choice([0, 1, 1, 2, 3, 4]))
    if st == 'bitpack':
      nd = max(nd, 1)
    sh = [rng.choice(SIZES + ([rng.randrange(1, 2000)] if big else [])) if nd == 1 else rng.randrange(1, [0, 0, 12, 6, 5][nd]) for _ in range(nd)]
    if st in ('hadamard', 'kashin') and nd == 2:
      sh = [rng.randrange(1, 5), rng.choice(SIZES)]
    if st == 'fwht':
      sh = [rng.randrange(1, 5), 2**rng.randrange(0, 8)]
    dt = {'bitpack': rng.choice(['f32', 'f32', 'f64', 'f16', 'bf16']), 'diff': rng.choice(['i32', 'i64', 'i32']), 'split': rng.choice(['f32', 'f64']),
          'hadamard': rng.choice(['f32', 'f64']), 'kashin': rng.choice(['f32', 'f64']), 'pack': rng.choice(['i32', 'i64']), 'fwht': rng.choice(['f32', 'f64']),
          'signs': rng.choice(['f32', 'f64', 'i32']), 'floats': rng.choice(['f32', 'f64'])}.get(st, rng.choice(['f32', 'f64', 'i32', 'i64']))
    bits = rng.choice(list(range(1, 17)) + [6, 7, 8, 12])
    if st == 'bitpack':
      bits = min(bits, {'f16': 11, 'bf16': 8}.get(dt, 16))
    out.append(dict(st=st, sh=sh, dt=dt, bits=bits, mode=rng.choice(['eager', 'graph', 'dynamic', 'unknown', 'split']),
                    dist=rng.choice(enc.DISTS), edge=rng.choice(['rand', 'rand', 'max', 'zero', 'last']), iters=rng.choice([1, 2, 3, 5]),
                    eta=rng.choice([.9, .5, .99]), delta=rng.choice([1., .5, 2.]), pad=rng.choice([.85, .85, 0., 1.]), thr=rng.choice([1e-8, .5, 10.]),
                    seed=rng.randrange(10**6)))
  return out


def ref_pack(v, bits, target):
  """Concatenates the low bits of every value, least significant first."""
  stream = ((v.reshape(-1, 1).astype(np.int64) >> np.arange(bits)) & 1).ravel()
  pad = (-len(stream)) % target
  stream = np.concatenate([stream, np.zeros(pad, np.int64)]).reshape(-1, target)
  return (stream << np.arange(target)).sum(axis=1)


def run(case, mon):
  import tensorflow as tf
  from tensorflow_model_optimization.python.core.internal.tensor_encoding.stages import stages_impl as S
  from tensorflow_model_optimization.python.core.internal.tensor_encoding.stages.research import kashin, misc
  from tensorflow_model_optimization.python.core.internal.tensor_encoding.utils import tf_utils
  rs = np.random.RandomState(case['seed'])
  st, sh, mode, dt, bits = case['st'], tuple(case['sh']), case['mode'], case['dt'], case['bits']
  if not sh and mode in ('dynamic', 'unknown'):
    mode = 'graph'
  tfdt = getattr(tf, enc.DT[dt])
  n = int(np.prod(sh))
  shape_class = (len(sh), n & (n - 1) == 0, n == 1)
  mon.event(st); mon.nontrivial(st, dt, mode, shape_class, bits if 'pack' in st else 0, case['dist'] if st in ('hadamard', 'kashin') else '')

  def same(x, d, tol=0):
    ok = mon.check('shape-dtype', tuple(d.shape) == x.shape and d.dtype == tfdt, '%s: %s %s decoded as %s %s' % (st, x.shape, tfdt, d.shape, d.dtype))
    if not ok:
      return
    d = np.asarray(tf.cast(d, tf.float64) if d.dtype.is_floating else d)
    if tol == 0:
      mon.check('exact', np.array_equal(x, d), lambda: '%s: decoded %s instead of %s' % (st, d.ravel()[:8], x.ravel()[:8]))
    else:
      s = np.linalg.norm(x.reshape(-1, x.shape[-1]), axis=-1).max(initial=0)
      mon.check('close', np.all(np.abs(x - d) <= tol * s + 1e-300), lambda: '%s: off by %s of norm %s' % (st, np.abs(x - d).max(), s))

  eps = {'f32': 3e-6, 'f64': 1e-12}.get(dt, 0)
  if st in ('identity', 'flatten'):
    x = enc.values(rs, sh, case['dist']) * 10
    x = x.astype(np.int64) if dt[0] == 'i' else np.asarray(1.0 * x.astype(enc.DT[dt]))
    e, d, _, _ = enc.roundtrip(S.IdentityEncodingStage() if st == 'identity' else S.FlattenEncodingStage(), x, dt, mode)
    same(x, d)
    if st == 'flatten':
      v = list(e.values())[0]
      mon.check('flat', v.shape == (n,) and np.array_equal(v, x.ravel()), 'flattened to %s' % (v.shape,))
  elif st == 'bitpack':
    x = rs.randint(0, 2**bits, sh)
    if case['edge'] == 'max': x = np.full(sh, 2**bits - 1)
    if case['edge'] == 'zero': x = np.zeros(sh, int)
    if case['edge'] == 'last': x = np.zeros(n, int); x[-1] = 2**bits - 1; x = x.reshape(sh)
    e, d, _, _ = enc.roundtrip(S.BitpackingEncodingStage(bits), np.asarray(x, np.float64), dt, mode)
    same(np.asarray(x, np.float64), d)
    v = e['bitpacked_values']
    mon.check('packed-range', v.dtype == np.int32 and v.min() >= 0 and v.max() < 2**28, 'packed values %s..%s' % (v.min(), v.max()))
    mon.check('packed-length', v.size == -(-n * bits // 28), '%d values of %d bits packed into %d words' % (n, bits, v.size))
  elif st == 'pack':
    x = rs.randint(0, 2**bits, sh)
    if case['edge'] == 'max': x = np.full(sh, 2**bits - 1)
    if case['edge'] == 'last': x[:] = 0; x[-1] = 2**bits - 1
    target = 28 if rs.rand() < .7 else int(rs.choice([t for t in (8, 16, 20, 24, 30) if t >= bits] or [28]))
    sg = [tf.TensorSpec([None] if mode in ('dynamic', 'unknown') else sh, tfdt)]
    pk = lambda a: tf_utils.pack_into_int(a, bits, target)
    p = tf.function(pk, input_signature=sg)(tf.constant(x, tfdt)) if mode != 'eager' else pk(tf.constant(x, tfdt))
    u = tf_utils.unpack_from_int(p, bits, target, sh)
    mon.check('exact', np.array_equal(u.numpy(), x), 'unpacked %s instead of %s' % (u.numpy().ravel()[:8], x[:8]))
    mon.check('shape-dtype', p.dtype == tfdt and u.dtype == tfdt and tuple(u.shape) == sh, '%s %s' % (p.dtype, u.shape))
    want = ref_pack(x, bits, target)
    v = p.numpy().ravel()
    mon.check('packed-length', v.size == want.size, '%d words instead of %d' % (v.size, want.size))
    mon.check('packed-layout', v.size == want.size and np.array_equal(v, want), 'bits are not the concatenated low bits: %s, expected %s' % (v[:4], want[:4]))
  elif st == 'diff':
    big = 2**30 if dt == 'i32' else 2**61
    x = {'rand': lambda: rs.randint(-big, big, sh), 'max': lambda: np.sort(rs.randint(0, 1000, sh)), 'zero': lambda: np.zeros(sh, int), 'last': lambda: np.cumsum(rs.randint(0, 3, sh))}[case['edge']]()
    e, d, _, _ = enc.roundtrip(misc.DifferenceBetweenIntegersEncodingStage(), x, dt, mode)
    same(x, d)
    v = list(e.values())[0]
    mon.check('differences', np.array_equal(v, np.diff(x, prepend=0)), 'differences %s of %s' % (v[:6], x[:6]))
  elif st == 'split':
    x = enc.values(rs, sh, case['dist']).astype(enc.DT[dt])
    x = x.astype(np.float64)
    e, d, _, _ = enc.roundtrip(misc.SplitBySmallValueEncodingStage(case['thr']), x, dt, mode)
    keep = np.abs(x) > float(np.asarray(case['thr'], enc.DT[dt]))
    same(np.where(keep, x, 0), d)
    mon.check('selected', np.array_equal(e['indices'], np.nonzero(keep)[0]) and np.array_equal(e['non_zero_floats'], x[keep]),
              'threshold %s selects %s of %s' % (case['thr'], e['indices'][:6], x[:6]))
  elif st in ('hadamard', 'kashin'):
    x = enc.values(rs, sh, case['dist']).astype(enc.DT[dt]).astype(np.float64)
    if mode == 'unknown':
      mode = 'dynamic'
    if len(sh) == 1 and mode == 'dynamic':
      mode = 'graph'
    stage = S.HadamardEncodingStage() if st == 'hadamard' else kashin.KashinHadamardEncodingStage(
        num_iters=case['iters'], eta=case['eta'], delta=case['delta'], last_iter_clip=False, pad_extra_level_threshold=case['pad'])
    e, d, ep, dp = enc.roundtrip(stage, x, dt, mode)
    same(x, d, eps * (3 if st == 'kashin' else 1))
    v = list(e.values())[0]
    rows = x.reshape(-1, x.shape[-1])
    p2 = 2**int(np.ceil(np.log2(sh[-1])))
    if st == 'kashin' and sh[-1] / p2 > case['pad']:
      p2 *= 2
    mon.check('shape-dtype', v.shape == (len(rows), p2), 'representation of shape %s for %s' % (v.shape, sh))
    if st == 'hadamard':
      mon.check('norm', np.allclose(np.linalg.norm(v, axis=1), np.linalg.norm(rows, axis=1), rtol=1e-5), 'norm changed')
      i = rs.randint(sh[-1])
      unit = np.zeros(sh); unit[..., i] = 1.
      one = np.asarray(list(stage.encode(tf.constant(unit, tfdt), ep).values())[0])
      mon.check('transform', np.allclose(np.abs(one), p2**-.5, rtol=1e-5), 'unit vector becomes %s' % one.ravel()[:6])
    # the same parameters give the same representation, and encode is linear in x
    a = np.asarray(list(stage.encode(tf.constant(x, tfdt), ep).values())[0])
    mon.check('seed', np.allclose(a, v, rtol=1e-4, atol=1e-5 * (1e-30 + np.abs(v).max())), 'not reproducible from the same seed')
    mon.check('seed', np.array_equal(ep['seed'], dp['seed']), 'encode and decode use different seeds')
  elif st == 'fwht':
    x = np.asarray(enc.values(rs, sh, case['dist']), enc.DT[dt])
    f = tf_utils.fast_walsh_hadamard_transform
    if mode != 'eager':
      f = tf.function(f, input_signature=[tf.TensorSpec({'dynamic': (None, sh[1]), 'unknown': (None, None)}.get(mode, sh), tfdt)])
    y = f(tf.constant(x, tfdt))
    mon.check('shape-dtype', tuple(y.shape) == sh and y.dtype == tfdt, '%s %s' % (y.shape, y.dtype))
    y = y.numpy()
    s = np.linalg.norm(np.asarray(x, np.float64), axis=1, keepdims=True)
    z = f(tf.constant(y)).numpy()
    mon.check('transform', np.all(np.abs(np.asarray(z, np.float64) - x) <= eps * s + 1e-300), 'not an involution: off by %s' % np.abs(z - x).max())
    mon.check('norm', np.allclose(np.linalg.norm(np.asarray(y, np.float64), axis=1), s[:, 0], rtol=1e-5), 'norm changed')
    h = np.array([[1.]])
    while len(h) < sh[1]:
      h = np.block([[h, h], [h, -h]])
    mon.check('transform', np.all(np.abs(np.asarray(x, np.float64) @ h / np.sqrt(sh[1]) - y) <= eps * s + 1e-300), 'not the product with the Hadamard matrix')
  elif st in ('signs', 'floats'):
    k = max(n, 1) * int(rs.choice([1, 1, 37]))
    for cm in (False, True):
      seed = lambda: tf.constant(rs.randint(0, 2**40), tf.int64) if cm else tf.constant(rs.randint(0, 2**40, 2), tf.int64)
      f = {('signs', False): tf_utils.random_signs, ('signs', True): tf_utils.random_signs_cmwc,
           ('floats', False): tf_utils.random_floats, ('floats', True): tf_utils.random_floats_cmwc}[st, cm]
      s1, s2 = seed(), seed()
      if st == 'signs' and cm and dt == 'i32':
        pass
      a, b, c = f(k, s1, tfdt), f(k, s1, tfdt), f(k, s2, tfdt)
      g = tf.function(lambda s: f(k, s, tfdt))(s1)
      mon.check('seed', np.array_equal(a, b) and np.array_equal(a, g), 'same seed, different numbers')
      mon.check('shape-dtype', tuple(a.shape) == (k,) and a.dtype == tfdt, '%s %s' % (a.shape, a.dtype))
      a = a.numpy()
      if k >= 64:
        mon.check('seed', not np.array_equal(a, c), 'different seeds, same numbers')
      if st == 'signs':
        mon.check('signs', np.all((a == 1) | (a == -1)), 'signs %s' % np.unique(a))
        if k >= 100:
          mon.check('signs', abs(np.mean(a)) < 6 / np.sqrt(k), 'unbalanced signs: mean %s of %d' % (a.mean(), k))
      else:
        mon.check('floats', np.all((a >= 0) & (a < 1)), 'floats outside [0, 1)')
        if k >= 100:
          mon.check('floats', abs(np.mean(a) - .5) < 6 * .29 / np.sqrt(k), 'mean %s of %d' % (a.mean(), k))
    # the sign of very small and very many draws
    if st == 'signs':
      a = tf_utils.random_signs(200000, tf.constant([case['seed'], 1], tf.int64), tfdt).numpy()
      mon.check('signs', np.all(np.abs(a) == 1), '%d signs are not +1 or -1' % np.sum(np.abs(a) != 1))
  else:
    for b in (0, 17, 1.5, -1):
      mon.raises('rejects', lambda b=b: S.BitpackingEncodingStage(b), ValueError, 'bits %s' % b)
    mon.raises('rejects', lambda: tf_utils.fast_walsh_hadamard_transform(tf.zeros([2, 3 + 2 * rs.randint(5)])), ValueError, 'not a power of two')
    mon.raises('rejects', lambda: tf_utils.fast_walsh_hadamard_transform(tf.zeros([4])), ValueError, 'rank 1')
    mon.raises('rejects', lambda: S.HadamardEncodingStage().encode(tf.zeros([2, 2, 2]), S.HadamardEncodingStage().get_params()[0]), ValueError, 'rank 3')
    mon.raises('rejects', lambda: misc.DifferenceBetweenIntegersEncodingStage().encode(tf.zeros([3]), {}), TypeError, 'floats')
    mon.raises('rejects', lambda: misc.DifferenceBetweenIntegersEncodingStage().encode(tf.zeros([3, 2], tf.int32), {}), ValueError, 'rank 2')
    mon.raises('rejects', lambda: S.BitpackingEncodingStage(4).encode(tf.zeros([3], tf.int32), {}), TypeError, 'ints')
