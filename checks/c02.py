"""C02: magnitude pruning masks."""
import numpy as np

PROP = 'C02'
CLAUSES = ['mask-binary', 'order', 'count', 'threshold', 'applied', 'shape-dtype', 'traced']
RULE = ('one case = one weight tensor (shape, dtype, value distribution) and a sequence of target sparsities pushed '
        'through Pruning.conditional_mask_update and weight_mask_op, eagerly or traced; non-trivial = distinct '
        '(rank, size class, distribution, dtype, rounding class of size*(1-s))')
ASSUMPTIONS = ['weights are finite and not denormal']

DIST = ['normal', 'uniform', 'ties', 'zeros', 'const', 'signs', 'extreme', 'sparse', 'neg', 'sorted']


def cases(rng, tier):
  out = []
  n = 130 if tier == 'quick' else 2500
  for i in range(n):
    rank = rng.choice([1, 2, 2, 2, 3, 4, 4, 5])
    if i % 7 == 0:
      shape = [1] * rank
      shape[rng.randrange(rank)] = rng.choice([1, 2, 3, 5])
    else:
      shape = [rng.choice([1, 2, 3, 4, 5, 7, 8, 16]) for _ in range(rank)]
    if rng.random() < 0.1:
      shape = [rng.choice([64, 100, 33]), rng.choice([64, 50, 31])]
    out.append(dict(shape=shape, dist=DIST[i % len(DIST)], dtype=rng.choice(['float32', 'float32', 'float32', 'float64', 'float16']),
                    traced=bool(rng.random() < 0.4), seed=rng.randrange(10**9),
                    sched=rng.choice(['const', 'poly']),
                    s=[rng.choice([0.0, 0.1, 0.25, 0.5, 0.5, 0.75, 0.9, 0.99, 0.999, round(rng.random() * 0.999, 4)])
                       for _ in range(5)]))
  return out


def weights(case):
  r = np.random.RandomState(case['seed'])
  sh, d = case['shape'], case['dist']
  w = r.randn(*sh)
  if d == 'uniform':
    w = r.rand(*sh) - 0.5
  elif d == 'ties':
    w = r.randint(-3, 4, size=sh).astype(float)
  elif d == 'zeros':
    w = np.zeros(sh)
  elif d == 'const':
    w = np.full(sh, -0.75)
  elif d == 'signs':
    w = np.where(r.rand(*sh) < .5, 1., -1.) * r.choice([0.5, 1.0, 1.5], size=sh)
  elif d == 'extreme':
    lo, hi = (-4, 4) if case['dtype'] == 'float16' else (-30, 30)
    w = np.sign(w) * 10.0 ** r.uniform(lo, hi, size=sh)
  elif d == 'sparse':
    w = w * (r.rand(*sh) < 0.3)
  elif d == 'neg':
    w = -np.abs(w) - 0.1
  elif d == 'sorted':
    w = np.sort(w.reshape(-1)).reshape(sh)
  w = w.astype(case['dtype'])
  w[np.abs(w) < np.finfo(case['dtype']).tiny] = 0
  return w


def check_mask(mon, w, mask, thr, s, label, clause_prefix=''):
  """Oracle for an element-wise magnitude mask (also used by C05)."""
  a = np.abs(w.astype(np.float64)).reshape(-1)
  m = np.asarray(mask, np.float64).reshape(-1)
  if not mon.check('mask-binary', np.all((m == 0) | (m == 1)), lambda: '%s: mask values %r' % (label, np.unique(m)[:6])):
    return
  keep = m == 1
  size = a.size
  x = size * (1.0 - s)
  if abs((x % 1) - 0.5) > 1e-5 * max(1, size):
    ks = [max(1, int(round(x)))]
  elif s in (0.0, 0.5, 0.25, 0.75) and size < 4096:  # exact: halves go to even
    ks = [max(1, int(round(x)))]
  else:
    ks = [max(1, int(np.floor(x))), max(1, int(np.ceil(x)))]
  srt = np.sort(a)[::-1]
  expect = {k: int(np.sum(a >= srt[k - 1])) for k in ks}
  mon.check('count', int(keep.sum()) in expect.values(),
            lambda: '%s: kept %d of %d at sparsity %r, expected %r' % (label, keep.sum(), size, s, sorted(set(expect.values()))))
  if keep.any() and (~keep).any():
    mon.check('order', a[keep].min() > a[~keep].max(),
              lambda: '%s: pruned |w|=%r but kept |w|=%r' % (label, a[~keep].max(), a[keep].min()))
  else:
    mon.check('order', keep.any(), lambda: '%s: everything pruned' % label)
  if thr is not None and keep.any():
    mon.check('threshold', float(thr) == a[keep].min(),
              lambda: '%s: threshold %r, smallest kept magnitude %r' % (label, float(thr), a[keep].min()))


def run(case, mon):
  import tensorflow as tf
  from tensorflow_model_optimization.python.core.sparsity.keras import pruning_impl, pruning_schedule
  w0 = weights(case)
  w = tf.Variable(w0)
  mask = tf.Variable(tf.ones_like(w0))
  thr = tf.Variable(tf.zeros([], dtype=w.dtype))
  w2_0 = weights(dict(case, seed=case['seed'] + 1, shape=[3, 5]))
  w2, mask2, thr2 = tf.Variable(w2_0), tf.Variable(tf.ones_like(w2_0)), tf.Variable(tf.zeros([], dtype=w.dtype))
  for j, s in enumerate(case['s']):
    step = tf.Variable(0, dtype=tf.int64)
    if case['sched'] == 'const':
      sched = pruning_schedule.ConstantSparsity(s, 0, -1, 1)
      steps = [(0, s)]
    else:
      s0 = s / 2
      sched = pruning_schedule.PolynomialDecay(s0, s, 0, 4, 1, 1)
      steps = [(k, s0 + (s - s0) * k / 4 + 1e-12) for k in (1, 2, 4)]  # not exact in single precision
    p = pruning_impl.Pruning(training_step_fn=lambda: step, pruning_vars=[(w, mask, thr), (w2, mask2, thr2)],
                             pruning_schedule=sched, block_size=(1, 1), block_pooling_type='AVG')
    upd, app = lambda: [p.conditional_mask_update()] and None, lambda: [p.weight_mask_op()] and None
    if case['traced']:
      upd, app = tf.function(upd), tf.function(app)
      mon.check('traced', True)
      mon.event('traced-updates')
    for k, sp in steps:
      step.assign(k)
      w.assign(w0)
      w2.assign(w2_0)
      upd()
      for ww, mm, tt, wv in ((w0, mask, thr, w), (w2_0, mask2, thr2, w2)):
        mn = mm.numpy()
        mon.check('shape-dtype', mn.shape == ww.shape and mn.dtype == ww.dtype and tt.numpy().dtype == ww.dtype
                  and np.array_equal(wv.numpy(), ww), 'mask update changed shape, dtype or the weights themselves')
        check_mask(mon, ww, mn, tt.numpy(), sp, 's=%g' % sp)
      app()
      for ww, mm, wv in ((w0, mask, w), (w2_0, mask2, w2)):
        mn, got = mm.numpy(), wv.numpy()
        mon.check('applied', np.array_equal(got[mn == 1], ww[mn == 1]) and np.all(got[mn == 0] == 0),
                  'weights after masking differ from weights*mask')
      x = w0.size * (1 - sp)
      mon.nontrivial(len(case['shape']), min(w0.size, 20), case['dist'], case['dtype'], case['traced'],
                     x < 1, round(x % 1, 1), round(sp, 2))
      mon.event('masks', 2)
      mon.event('pruned-elements', int((mask.numpy() == 0).sum()))
