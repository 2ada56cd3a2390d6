"""C03: block pruning."""
import numpy as np

PROP = 'C03'
CLAUSES = ['blocks-whole', 'strongest-survive', 'block-count', 'applied', 'rejects', 'wrapper']
RULE = ('one case = (rank-2 shape, block size, pooling, sparsity, weight distribution), through Pruning or through a '
        'trained PruneLowMagnitude layer; non-trivial = distinct (dividing?, oversized?, block, pooling, kept fraction)')


def cases(rng, tier):
  out = []
  n = 150 if tier == 'quick' else 3000
  for i in range(n):
    bh, bw = rng.choice([(1, 2), (2, 1), (2, 2), (4, 1), (1, 4), (3, 2), (4, 4), (1, 8), (2, 3), (5, 7), (8, 1), (1, 16), (3, 1)])
    m = rng.random()
    if m < 0.35:
      sh = [bh * rng.randrange(1, 7), bw * rng.randrange(1, 7)]
    elif m < 0.9:
      sh = [rng.randrange(1, 20), rng.randrange(1, 20)]
    else:
      sh = [rng.randrange(1, bh + 1), rng.randrange(1, bw + 1)]
    out.append(dict(kind='impl', shape=sh, block=[bh, bw], pool=rng.choice(['AVG', 'MAX']),
                    s=rng.choice([0.0, 0.25, 0.5, 0.5, 0.6, 0.75, 0.9, 0.99, round(rng.random() * .99, 3)]),
                    dist=rng.choice(['normal', 'heavy', 'edge', 'ints', 'neg']), traced=bool(rng.random() < .5),
                    seed=rng.randrange(10**9)))
  for i in range(6 if tier == 'quick' else 60):
    bh, bw = rng.choice([(2, 2), (4, 1), (1, 4), (3, 2)])
    out.append(dict(kind='layer', shape=[rng.randrange(3, 12), rng.randrange(3, 12)], block=[bh, bw],
                    pool=rng.choice(['AVG', 'MAX']), s=rng.choice([0.3, 0.5, 0.8]), dist='normal',
                    seed=rng.randrange(10**9), cost=6))
  out.append(dict(kind='reject'))
  return out


def weights(case):
  r = np.random.RandomState(case['seed'])
  sh = case['shape']
  w = r.randn(*sh)
  d = case['dist']
  if d == 'heavy':
    w = np.sign(w) * np.exp(2 * r.randn(*sh))
  elif d == 'edge':
    w = w * 0.1
    w[-1, :] += 1.0
    w[:, -1] -= 1.0
  elif d == 'ints':
    w = r.randint(-4, 5, size=sh).astype(float)
  elif d == 'neg':
    w = -np.abs(w)
  return w.astype(np.float32)


def oracle(mon, w, mask, block, pool, s):
  bh, bw = block
  a = np.abs(w.astype(np.float64))
  rows, cols = w.shape
  scores, kept, whole = [], [], True
  for i in range(0, rows, bh):
    for j in range(0, cols, bw):
      b = a[i:i + bh, j:j + bw]
      mb = mask[i:i + bh, j:j + bw]
      scores.append(b.mean() if pool == 'AVG' else b.max())
      whole &= bool(np.all(mb == mb.flat[0]) and mb.flat[0] in (0, 1))
      kept.append(bool(mb.flat[0] == 1))
  if not mon.check('blocks-whole', whole, lambda: 'mask splits a block: shape %s block %s\n%s' % (w.shape, block, mask)):
    return
  scores, kept = np.array(scores), np.array(kept)
  n = len(scores)
  x = n * (1 - s)
  near = abs(x % 1 - .5) < 1e-5 * n
  ks = {max(1, int(round(x)))} | ({max(1, int(np.floor(x))), max(1, int(np.ceil(x)))} if near else set())
  srt = np.sort(scores)[::-1]
  eps = 1e-5 * max(1e-12, srt[0])
  ok = False
  for k in ks:
    t = srt[min(k, n) - 1]
    must, may = scores > t + eps, scores >= t - eps
    # Ties with the weakest survivor may be kept beyond the count.
    extra_ok = kept.sum() <= k or np.sum(np.abs(scores[kept] - t) <= eps) >= kept.sum() - k + 1
    ok |= bool(np.all(kept[must]) and not np.any(kept[~may]) and kept.sum() >= k and extra_ok)
  c = lambda: 'shape %s block %s pool %s s=%g: kept %d of %d blocks (expected %s); weakest kept %g strongest pruned %g' % (
      w.shape, block, pool, s, kept.sum(), n, sorted(ks), scores[kept].min() if kept.any() else -1,
      scores[~kept].max() if (~kept).any() else -1)
  mon.check('block-count', kept.sum() >= min(ks), c)
  mon.check('strongest-survive', ok, c)
  mon.event('blocks', n)
  mon.event('cut-blocks', int(rows % bh > 0) + int(cols % bw > 0))
  mon.nontrivial(rows % bh == 0, cols % bw == 0, rows < bh, cols < bw, tuple(block), pool, kept.sum(), n)


def run(case, mon):
  import tensorflow as tf
  from tensorflow_model_optimization.python.core.sparsity.keras import (
      pruning_impl, pruning_schedule, prune, pruning_callbacks, pruning_wrapper)
  from tensorflow_model_optimization.python.core.keras.compat import keras
  if case['kind'] == 'reject':
    sched = pruning_schedule.ConstantSparsity(0.5, 0, -1, 1)
    for sh in [(3,), (2, 2, 3), (3, 3, 2, 4), (2, 2, 2, 2, 2)]:
      w = tf.Variable(tf.ones(sh))
      mon.raises('rejects', lambda: pruning_impl.Pruning(
          training_step_fn=lambda: tf.constant(0), pruning_vars=[(w, tf.Variable(tf.ones(sh)), tf.Variable(0.))],
          pruning_schedule=sched, block_size=(2, 2), block_pooling_type='AVG'), ValueError, 'rank %d' % len(sh))
    for bad in ['MIN', 'avg', 'max', '', 'SUM']:
      mon.raises('rejects', lambda: prune.prune_low_magnitude(keras.layers.Dense(3), sched, block_size=(2, 2),
                                                              block_pooling_type=bad), ValueError, bad)
    m = lambda: keras.Sequential([prune.prune_low_magnitude(
        keras.layers.Conv2D(4, 3), sched, block_size=(2, 2), input_shape=(8, 8, 3))])
    mon.raises('rejects', m, ValueError, 'conv with blocks')
    return
  w0 = weights(case)
  sched = pruning_schedule.ConstantSparsity(case['s'], 0, -1, 1)
  if case['kind'] == 'layer':
    rows, cols = case['shape']
    m = prune.prune_low_magnitude(
        keras.Sequential([keras.layers.Dense(cols, input_shape=(rows,))]), sched,
        block_size=tuple(case['block']), block_pooling_type=case['pool'])
    m.layers[0].set_weights([w0, np.zeros(cols, 'f')])
    m.compile('sgd', 'mse')
    m.optimizer.learning_rate.assign(0.0)
    x = np.random.RandomState(1).randn(8, rows).astype('f')
    m.fit(x, np.zeros((8, cols), 'f'), batch_size=8, epochs=1, verbose=0,
          callbacks=[pruning_callbacks.UpdatePruningStep()])
    lay = pruning_wrapper.collect_prunable_layers(m)[0]
    mask = lay.pruning_vars[0][1].numpy()
    oracle(mon, w0, mask, case['block'], case['pool'], case['s'])
    mon.check('wrapper', np.array_equal(m.layers[0].get_weights()[0], w0 * mask),
              'kernel after training is not kernel*mask')
    return
  w = tf.Variable(w0)
  mask, thr = tf.Variable(tf.ones_like(w0)), tf.Variable(0.)
  p = pruning_impl.Pruning(training_step_fn=lambda: tf.constant(0, tf.int64), pruning_vars=[(w, mask, thr)],
                           pruning_schedule=sched, block_size=tuple(case['block']),
                           block_pooling_type=case['pool'])
  if case['traced']:
    tf.function(lambda: [p.conditional_mask_update()] and None)()
    tf.function(lambda: [p.weight_mask_op()] and None)()
  else:
    p.conditional_mask_update()
    p.weight_mask_op()
  oracle(mon, w0, mask.numpy(), case['block'], case['pool'], case['s'])
  mon.check('applied', np.array_equal(w.numpy(), w0 * mask.numpy()), 'weights after masking')
