"""C04: m-by-n structured sparsity."""
import io
import contextlib
import os
import re
import tempfile
import numpy as np

PROP = 'C04'
CLAUSES = ['groups', 'fixed-after-first-step', 'only-at-first-step', 'round-trip', 'checker', 'checker-tflite', 'rejects', 'weights-masked']
RULE = ('one case = (weight shape, m, n, distribution) through the mask update, a training history of a wrapped layer with '
        'save/clone points, or a (sparse tensor, pattern) fed to the checkers; non-trivial = distinct (rank, m, n, '
        'width mod n, distribution)')

PAT = [(1, 2), (2, 4), (1, 4), (3, 4), (2, 3), (1, 3), (4, 8), (5, 7), (7, 8), (2, 5), (1, 16)]


def cases(rng, tier):
  out = []
  for i in range(90 if tier == 'quick' else 2000):
    m, n = PAT[i % len(PAT)]
    cin = rng.choice([n, 2 * n, 3 * n, n + 1, 2 * n - 1, n - 1 or 1, rng.randrange(1, 20), 1])
    sh = [cin, rng.randrange(1, 7)] if rng.random() < .5 else [rng.randrange(1, 4), rng.randrange(1, 4), cin, rng.randrange(1, 5)]
    out.append(dict(kind='mask', m=m, n=n, shape=sh, dist=rng.choice(['normal', 'ints', 'zeros', 'neg', 'extreme']),
                    seed=rng.randrange(10**9)))
  for i in range(60 if tier == 'quick' else 1500):
    m, n = PAT[i % len(PAT)]
    cin, cout = rng.randrange(1, 3 * n + 2), rng.randrange(1, 6)
    sh = [cin, cout] if rng.random() < .5 else [rng.randrange(1, 3), rng.randrange(1, 3), cin, cout]
    out.append(dict(kind='checker', m=m, n=n, shape=sh, order=rng.choice(['C_OUT', 'C_IN']), p=rng.choice([.2, .5, .8, 1.]),
                    make=bool(rng.random() < .6), spoil=bool(rng.random() < .5), seed=rng.randrange(10**9)))
  for i in range(8 if tier == 'quick' else 80):
    m, n = PAT[rng.randrange(7)]
    out.append(dict(kind='train', m=m, n=n, layer=['dense', 'conv', 'tconv'][i % 3], cin=rng.randrange(n, 3 * n + 1), cout=rng.randrange(2, 6),
                    how=['h5', 'clone', 'config', 'tf'][i % 4], epochs=rng.choice([1, 2]), sched=rng.choice(['const0', 'poly', 'const5']),
                    opt=rng.choice(['adam', 'sgd', 'rmsprop']), seed=rng.randrange(10**6), cost=8))
  out.append(dict(kind='tflite', seed=rng.randrange(10**6), cost=10))
  if tier == 'thorough':
    out += [dict(kind='tflite', seed=rng.randrange(10**6), cost=10) for _ in range(10)]
  out.append(dict(kind='reject'))
  return out


def groups(w, n):
  """Yields 1-D groups of n consecutive values along input channels."""
  a = w.T if w.ndim == 2 else np.transpose(w, (3, 0, 1, 2)).reshape(-1, w.shape[2])
  for row in a.reshape(-1, a.shape[-1]):
    for c in range(0, len(row), n):
      yield row[c:c + n]


def check_mask(mon, w, mask, m, n, label=''):
  bad = None
  if mask.shape != w.shape or not np.all((mask == 0) | (mask == 1)):
    bad = 'mask shape/values'
  else:
    for gw, gm in zip(groups(np.abs(w.astype('float64')), n), groups(mask, n)):
      kept = int(gm.sum())
      mon.event('groups')
      if kept != min(len(gm), n - m):
        bad = 'group %s mask %s keeps %d' % (gw, gm, kept)
      elif 0 < kept < len(gm) and gw[gm == 1].min() < gw[gm == 0].max():
        bad = 'group %s mask %s prunes a larger element' % (gw, gm)
      if bad:
        break
  mon.check('groups', bad is None, lambda: '%s shape %s %d:%d %s' % (label, w.shape, m, n, bad))


def vals(r, sh, dist):
  w = r.randn(*sh)
  if dist == 'ints':
    w = r.randint(-3, 4, size=sh)
  elif dist == 'zeros':
    w = w * (r.rand(*sh) < .3)
  elif dist == 'neg':
    w = -np.abs(w)
  elif dist == 'extreme':
    w = np.sign(w) * 10. ** r.uniform(-20, 20, size=sh)
  return np.asarray(w, 'f')


def run(case, mon):
  globals()['run_' + case['kind']](case, mon)


def run_mask(case, mon):
  import tensorflow as tf
  from tensorflow_model_optimization.python.core.sparsity.keras import pruning_impl, pruning_schedule
  m, n = case['m'], case['n']
  w0 = vals(np.random.RandomState(case['seed']), case['shape'], case['dist'])
  w, mask, thr = tf.Variable(w0), tf.Variable(tf.ones_like(w0)), tf.Variable(0.)
  step = tf.Variable(0, dtype=tf.int64)
  p = pruning_impl.Pruning(training_step_fn=lambda: step, pruning_vars=[(w, mask, thr)],
                           pruning_schedule=pruning_schedule.ConstantSparsity(0.5, 0, -1, 1), block_size=(1, 1),
                           block_pooling_type='AVG', sparsity_m_by_n=(m, n))
  for st in (1, 2, 3, 50):
    step.assign(st)
    if st > 1:
      w.assign(vals(np.random.RandomState(case['seed'] + st), case['shape'], case['dist']))
    p.conditional_mask_update()
    if st == 1:
      first = mask.numpy()
      check_mask(mon, w0, first, m, n)
    mon.check('fixed-after-first-step', np.array_equal(mask.numpy(), first), lambda: 'mask changed at step %d' % st)
  w.assign(w0)
  p.weight_mask_op()
  mon.check('weights-masked', np.array_equal(w.numpy(), w0 * first), 'weights*mask')
  cin = case['shape'][0 if len(case['shape']) == 2 else 2]
  mon.nontrivial('mask', len(case['shape']), m, n, cin % n, cin < n, case['dist'])


def truth(w, m, n, order):
  a = np.asarray(w)
  if order == 'C_IN':
    rows = a.reshape(-1, a.shape[-1])
  else:
    rows = a.T if a.ndim == 2 else np.transpose(a, (3, 0, 1, 2)).reshape(-1, a.shape[2])
  return all(np.count_nonzero(r[c:c + n]) <= n - m for r in rows for c in range(0, rows.shape[1], n))


def run_checker(case, mon):
  import tensorflow as tf
  from tensorflow_model_optimization.python.core.sparsity.keras import pruning_utils
  r = np.random.RandomState(case['seed'])
  m, n, order = case['m'], case['n'], case['order']
  w = r.randn(*case['shape']).astype('f') * (r.rand(*case['shape']) < case['p'])
  if case['make']:  # force the pattern by zeroing m smallest of each group
    a = w.reshape(-1, w.shape[-1]) if order == 'C_IN' else None
    v = w.copy() if order == 'C_IN' else (w.T.copy() if w.ndim == 2 else np.transpose(w, (3, 0, 1, 2)).copy())
    flat = v.reshape(-1, v.shape[-1])
    for row in flat:
      for c in range(0, len(row), n):
        g = row[c:c + n]
        z = max(0, len(g) - (n - m))
        g[np.argsort(np.abs(g))[:z]] = 0
    if case['spoil']:
      row = flat[r.randint(len(flat))]
      c = r.randint(0, len(row))
      row[c] = 1.0
    v = flat.reshape(v.shape)
    w = v if order == 'C_IN' else (v.T if w.ndim == 2 else np.transpose(v, (1, 2, 3, 0)))
  want = truth(w, m, n, order)
  got = pruning_utils.is_pruned_m_by_n(tf.constant(w), (m, n), order)
  mon.event('checker-true' if want else 'checker-false')
  mon.check('checker', bool(got) == want, lambda: 'is_pruned_m_by_n %s %d:%d %s says %s' % (w.shape, m, n, order, got))
  mon.nontrivial('checker', w.ndim, m, n, order, want, w.shape[-1] % n)


def run_train(case, mon):
  import tensorflow as tf
  from tensorflow_model_optimization.python.core.keras.compat import keras
  from tensorflow_model_optimization.python.core.sparsity.keras import prune, pruning_schedule as ps, pruning_callbacks, pruning_wrapper
  L = keras.layers
  m, n, cin, cout = case['m'], case['n'], case['cin'], case['cout']
  r = np.random.RandomState(case['seed'])
  sched = dict(const0=ps.ConstantSparsity(0.5, 0, -1, 1), poly=ps.PolynomialDecay(0.1, 0.9, 0, 3, 3, 1),
               const5=ps.ConstantSparsity(0.5, 5, -1, 2))[case['sched']]
  if case['layer'] == 'dense':
    lay, sh = L.Dense(cout, input_shape=(cin,)), (cin,)
  elif case['layer'] == 'conv':
    lay, sh = L.Conv2D(cout, 2, input_shape=(4, 4, cin)), (4, 4, cin)
  else:
    lay, sh = L.Conv2D(cout, 1, use_bias=False, input_shape=(3, 3, cin)), (3, 3, cin)
  pm = keras.Sequential([prune.prune_low_magnitude(lay, sched, sparsity_m_by_n=(m, n)), L.Flatten()])
  x = r.randn(12, *sh).astype('f')
  y = r.randn(12, *pm.output_shape[1:]).astype('f')
  log = []

  class Mon(keras.callbacks.Callback):
    def on_train_batch_begin(self, batch, logs=None):
      wl = pruning_wrapper.collect_prunable_layers(self.model)[0]
      log.append(('b', wl.pruning_vars[0][0].numpy().copy(), wl.pruning_vars[0][1].numpy().copy()))

    def on_train_batch_end(self, batch, logs=None):
      wl = pruning_wrapper.collect_prunable_layers(self.model)[0]
      log.append(('e', wl.pruning_vars[0][0].numpy().copy(), wl.pruning_vars[0][1].numpy().copy()))

  def fit(mod, epochs):
    mod.compile(case['opt'], 'mse')
    mod.fit(x, y, batch_size=4, epochs=epochs, verbose=0, shuffle=False, callbacks=[pruning_callbacks.UpdatePruningStep(), Mon()])

  def verify(mod, first_training):
    wl = pruning_wrapper.collect_prunable_layers(mod)[0]
    masks = [e[2] for e in log if e[0] == 'e']
    if first_training:
      mon.check('only-at-first-step', np.all(log[0][2] == 1), 'mask set before training')
      check_mask(mon, log[0][1], masks[0], m, n, 'after first batch')
    for k in masks:
      mon.check('fixed-after-first-step', np.array_equal(k, masks[0]), 'mask changed during training')
    wv = wl.pruning_vars[0][0].numpy()
    mon.check('weights-masked', np.all(wv[masks[-1] == 0] == 0), 'weights not masked at the end of the epoch')
    from tensorflow_model_optimization.python.core.sparsity.keras import pruning_utils
    mon.check('checker', pruning_utils.is_pruned_m_by_n(tf.constant(wv), (m, n), 'C_OUT'), 'trained weight not recognised')
    mon.event('batches', len(masks))
    return masks[-1]

  fit(pm, case['epochs'])
  last = verify(pm, True)
  mon.nontrivial('train', case['layer'], m, n, cin % n, case['how'], case['sched'], case['opt'])
  d = tempfile.mkdtemp()
  try:
    if case['how'] in ('h5', 'tf'):
      path = os.path.join(d, 'm.h5' if case['how'] == 'h5' else 'm.keras')
      pm.save(path)
      with prune.prune_scope():
        q = keras.models.load_model(path)
      fresh = False
    else:
      if case['how'] == 'clone':
        with prune.prune_scope():
          q = keras.models.clone_model(pm)
      else:
        with prune.prune_scope():
          q = keras.Sequential.from_config(pm.get_config())
      fresh = True
    wl = pruning_wrapper.collect_prunable_layers(q)[0]
    mon.check('round-trip', wl.sparsity_m_by_n is not None and tuple(wl.sparsity_m_by_n) == (m, n),
              lambda: '%s: structure became %r' % (case['how'], wl.sparsity_m_by_n))
    del log[:]
    fit(q, 1)
    end = verify(q, fresh)
    if not fresh:
      mon.check('round-trip', np.array_equal(end, last), 'mask differs after reload and training')
  finally:
    import shutil
    shutil.rmtree(d)


def run_tflite(case, mon):
  import tensorflow as tf
  from tensorflow_model_optimization.python.core.keras.compat import keras
  from tensorflow_model_optimization.python.core.sparsity.keras.tools import check_sparsity_m_by_n as tool
  r = np.random.RandomState(case['seed'])
  L = keras.layers
  mod = keras.Sequential([L.Conv2D(5, 2, use_bias=False, input_shape=(5, 5, 8), name='ca'), L.Flatten(), L.Dense(6, name='da', use_bias=False),
                          L.Dense(9, name='db', use_bias=False)])
  ws = mod.get_weights()
  m, n = 2, 4
  for i, w in enumerate(ws):
    a = np.array(w)
    v = (a.T if a.ndim == 2 else np.transpose(a, (3, 0, 1, 2))).copy()
    v[...] = r.randn(*v.shape)
    if i != 1:
      flat = v.reshape(-1, v.shape[-1])
      for row in flat:
        for c in range(0, len(row), n):
          g = row[c:c + n]
          g[np.argsort(np.abs(g))[:max(0, len(g) - (n - m))]] = 0
      v = flat.reshape(v.shape)
    ws[i] = v.T if a.ndim == 2 else np.transpose(v, (1, 2, 3, 0))
  mod.set_weights(ws)
  d = tempfile.mkdtemp()
  try:
    p = os.path.join(d, 'm.tflite')
    with open(p, 'wb') as f:
      f.write(tf.lite.TFLiteConverter.from_keras_model(mod).convert())
    for mm, nn in ((2, 4), (1, 4), (3, 4), (1, 2)):
      buf = io.StringIO()
      with contextlib.redirect_stdout(buf):
        tool.run(p, [str(mm), str(nn)])
      lines = [l for l in buf.getvalue().splitlines() if '_by_' in l]
      seen = {}
      for l in lines:
        g = re.search(r'shape: \[([\d ]+)\], sparsity: ([\d.e+-]+), (\d+)_by_(\d+) sparsity: (\w+)', l)
        if g:
          seen[tuple(int(t) for t in g.group(1).split())] = (float(g.group(2)), g.group(5) == 'True', (int(g.group(3)), int(g.group(4))))
      for w in ws:
        v = w.T if w.ndim == 2 else np.transpose(w, (3, 0, 1, 2))
        got = seen.get(v.shape)
        want = (1 - np.count_nonzero(v) / v.size, truth(v, mm, nn, 'C_IN'), (mm, nn))
        mon.check('checker-tflite', got is not None and abs(got[0] - want[0]) < 1e-6 and got[1:] == want[1:],
                  lambda: 'tool says %r for kernel %s, expected %r' % (got, v.shape, want))
  finally:
    import shutil
    shutil.rmtree(d)
  mon.nontrivial('tflite')


def run_reject(case, mon):
  import tensorflow as tf
  from tensorflow_model_optimization.python.core.keras.compat import keras
  from tensorflow_model_optimization.python.core.sparsity.keras import prune, pruning_schedule as ps, pruning_utils, pruning_impl
  for bad in [(1,), (1, 2, 3), 5, ('a', 'b'), (1.5, 2), (2, None)]:
    mon.raises('rejects', lambda: prune.prune_low_magnitude(keras.layers.Dense(3), ps.ConstantSparsity(0.5, 0), sparsity_m_by_n=bad),
               ValueError, 'm_by_n=%r' % (bad,))
  for bad in [(4, 4), (5, 4), (2, 1)]:
    mon.raises('rejects', lambda: pruning_utils.generate_m_by_n_mask(tf.ones((4, 8)), bad), Exception, '%r' % (bad,))
  mon.raises('rejects', lambda: pruning_utils.is_pruned_m_by_n(tf.ones((4, 8)), (5, 4)), ValueError)
  mon.raises('rejects', lambda: pruning_utils.is_pruned_m_by_n(tf.ones((4, 8)), (2, 4), 'OUT'), ValueError)
  for sh in [(3,), (2, 3, 4), (2, 2, 2, 3, 4)]:
    mon.raises('rejects', lambda: pruning_utils.weights_rearrange(tf.ones(sh)), ValueError, 'rank %d' % len(sh))
  mon.nontrivial('reject')
