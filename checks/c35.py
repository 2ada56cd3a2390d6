"""C35: summaries written during training report the state of the model at that step.

Random (nested, recurrent, convolutional) pruned and clustered models are trained by fit, in one or
several runs or in a custom loop, next to a recorder callback which copies masks, thresholds, cluster
variables and the number of steps at the moments the summaries are due. Afterwards the event files
are parsed: every record has to match what the recorder saw, nothing may be missing or superfluous,
and a twin trained without the summaries has to end with the same weights."""
import glob
import os
import shutil
import tempfile

import numpy as np

from lib import zoo

PROP = 'C35'
CLAUSES = ['sparsity', 'threshold', 'prune-steps', 'prune-complete', 'histogram', 'cluster-steps', 'cluster-complete', 'transparent', 'rejects']
RULE = ('one case = one random model, pruned or clustered, trained with summaries over one or more runs; update frequency, epochs and batch counts vary; '
        'non-trivial = distinct (model family, method, frequency, history)')
PRUNED = ['mlp', 'conv', 'conv_sep', 'nested', 'lstm', 'stacked', 'same', 'same']
CLUSTERED = ['mlp', 'conv', 'lstm', 'nested', 'same', 'bn', 'deep']


def cases(rng, tier):
  out = [dict(kind='rejects')]
  for i in range(14 if tier == 'quick' else 160):
    out.append(dict(kind='prune', fam=PRUNED[i % len(PRUNED)], loop=i % 4 == 3, runs=[rng.randrange(1, 4) for _ in range(rng.choice([1, 1, 2]))], batches=rng.randrange(1, 5),
                    begin=rng.randrange(0, 3), freq=rng.randrange(1, 4), final=rng.choice([.3, .6, .9]), block=rng.choice([[1, 1], [1, 1], [2, 2]]), seed=rng.randrange(10**6)))
    out.append(dict(kind='cluster', fam=CLUSTERED[i % len(CLUSTERED)], runs=[rng.randrange(1, 4) for _ in range(rng.choice([1, 1, 2]))], batches=rng.randrange(1, 6),
                    upd=rng.choice(['epoch', 'batch', 1, 2, 3, 4, 7]), n=rng.randrange(2, 6), extra=rng.choice([None, None, 'histogram', 'steps', 'trace']), seed=rng.randrange(10**6)))
  return out


def build(fam, seed):
  k = zoo.K()
  L = k.layers
  r = np.random.RandomState(seed)
  n = lambda: int(r.randint(3, 7))
  if fam == 'mlp':
    m = k.Sequential([L.InputLayer((n(),)), L.Dense(n(), activation='relu'), L.Dense(n()), L.Dense(2)])
  elif fam == 'conv':
    m = k.Sequential([L.InputLayer((5, 5, 2)), L.Conv2D(n(), 3), L.ReLU(), L.Conv2D(n(), 2), L.Flatten(), L.Dense(2)])
  elif fam == 'conv_sep':
    m = k.Sequential([L.InputLayer((5, 5, 2)), L.SeparableConv2D(n(), 3), L.BatchNormalization(), L.Flatten(), L.Dense(2)])
  elif fam == 'bn':
    m = k.Sequential([L.InputLayer((5, 5, 2)), L.Conv2D(n(), 3), L.BatchNormalization(), L.Flatten(), L.Dense(2)])
  elif fam == 'lstm':
    m = k.Sequential([L.InputLayer((4, 3)), L.LSTM(n()), L.Dense(2)])
  elif fam == 'stacked':
    m = k.Sequential([L.InputLayer((4, 3)), L.RNN(L.StackedRNNCells([L.LSTMCell(n()), L.GRUCell(n())])), L.Dense(2)])
  else:
    # models inside models; the layers of "same" share their names, those of "deep" are two levels down
    a = n()
    one = k.Sequential([L.InputLayer((a,)), L.Dense(a, name='d'), L.ReLU()], name='one')
    two = k.Sequential([L.InputLayer((a,)), L.Dense(a, name='d' if fam == 'same' else 'e')], name='two')
    if fam == 'deep':
      two = k.Sequential([k.layers.InputLayer((a,)), two], name='outer')
    i = k.Input((a,))
    o = two(one(i))
    if r.rand() < .5:
      o = L.Add()([o, i])
    m = k.Model(i, L.Dense(2, name='d' if fam == 'same' else 'last')(o))
  for w in m.weights:
    if not w.name.endswith('moving_variance:0'):
      w.assign(r.uniform(-1, 1, w.shape))
  return m


def layers(m):
  """Layers, those of models inside included."""
  k = zoo.K()
  for l in m.layers:
    if isinstance(l, k.Model):
      yield from layers(l)
    else:
      yield l


def records(d):
  """(directory, step, tag, plugin, value) of every summary below d."""
  import tensorflow as tf
  from tensorflow.core.util import event_pb2
  out = []
  for p in sorted(glob.glob(d + '/**/events*', recursive=True)):
    for raw in tf.data.TFRecordDataset(p).as_numpy_iterator():
      e = event_pb2.Event.FromString(raw)
      for v in e.summary.value:
        if v.HasField('tensor') and v.metadata.plugin_data.plugin_name != 'graph_keras_model':
          out.append((os.path.relpath(os.path.dirname(p), d), int(e.step), v.tag, v.metadata.plugin_data.plugin_name, tf.make_ndarray(v.tensor)))
  return out


def run(case, mon):
  from tensorflow_model_optimization.python.core.clustering.keras import clustering_callbacks as cc
  from tensorflow_model_optimization.python.core.sparsity.keras import pruning_callbacks as pc
  if case['kind'] == 'rejects':
    for cls in (pc.PruningSummaries, cc.ClusteringSummaries):
      for bad in ('', 3, []):
        mon.raises('rejects', lambda: cls(log_dir=bad), (ValueError, TypeError), '%s(%r)' % (cls.__name__, bad))
    return
  d = tempfile.mkdtemp()
  try:
    (prune_case if case['kind'] == 'prune' else cluster_case)(case, mon, d)
  finally:
    shutil.rmtree(d, ignore_errors=True)


def data(case, m):
  r = np.random.RandomState(case['seed'] + 1)
  n = case['batches'] * 4 - int(r.randint(4))
  return r.randn(n, *m.input_shape[1:]).astype('f'), r.randn(n, 2).astype('f')


def prune_case(case, mon, d):
  import tensorflow as tf
  from tensorflow_model_optimization.python.core.sparsity.keras import prune, pruning_callbacks as pc, pruning_schedule as ps, pruning_wrapper as pw
  k = zoo.K()
  blk = tuple(case['block']) if case['fam'] in ('mlp', 'same', 'nested', 'lstm') else (1, 1)
  seen = []

  def make():
    tf.random.set_seed(1)
    p = prune.prune_low_magnitude(build(case['fam'], case['seed']), ps.PolynomialDecay(.1, case['final'], case['begin'], case['begin'] + 6, frequency=case['freq']), block_size=blk)
    p.compile(k.optimizers.SGD(.005), 'mse')
    return p

  def look(p):
    v = [(m.numpy(), t.numpy()) for l in layers(p) if isinstance(l, pw.PruneLowMagnitude) for _, m, t in l.pruning_vars]
    seen.append((int(p.optimizer.iterations.numpy()), v))

  def fit(p, x, y, cbs, rec):
    up = pc.UpdatePruningStep()
    if not case['loop']:
      for e in case['runs']:
        class Rec(k.callbacks.Callback):
          def on_epoch_begin(self, epoch, logs=None):
            if rec: look(p)
        p.fit(x, y, batch_size=4, epochs=e, shuffle=False, verbose=0, callbacks=[up, Rec()] + cbs)
      return
    for c in [up] + cbs:
      c.set_model(p)
    up.on_train_begin()
    for _ in range(sum(case['runs'])):
      for c in cbs:
        c.on_epoch_begin(epoch=-1)
      if rec: look(p)
      for a in range(0, len(x), 4):
        up.on_train_batch_begin(batch=-1)
        with tf.GradientTape() as t:
          loss = tf.reduce_mean((p(x[a:a + 4], training=True) - y[a:a + 4])**2)
        p.optimizer.apply_gradients(zip(t.gradient(loss, p.trainable_variables), p.trainable_variables))
      up.on_epoch_end(batch=-1)

  p = make()
  x, y = data(case, p)
  fit(p, x, y, [pc.PruningSummaries(d)], True)
  t = make()
  fit(t, x, y, [], False)
  mon.check('transparent', all(np.array_equal(a, b, equal_nan=True) for a, b in zip(p.get_weights(), t.get_weights())), 'the weights differ from those trained without summaries')
  got = [r for r in records(d) if r[0] == 'metrics']
  steps = {}
  for _, s, tag, _, v in got:
    steps.setdefault(s, []).append((tag, float(v)))
  mon.check('prune-steps', sorted(steps) == sorted({s for s, _ in seen}), lambda: 'summaries at steps %s, epochs began at %s' % (sorted(steps), [s for s, _ in seen]))
  names = [tag for tag, _ in steps.get(seen[0][0], [])]
  mon.check('prune-complete', len(names) == len(set(names)), lambda: 'a summary is written twice: %s' % names)
  for s, want in seen:
    # a second run begins at the step at which the first one ended, nothing in between
    sp = sorted(v for tag, v in steps.get(s, []) if 'sparsity' in tag)
    th = sorted(v for tag, v in steps.get(s, []) if 'sparsity' not in tag)
    ws = sorted(1 - float(np.mean(m == 1)) for m, _ in want)
    wt = sorted(float(t) for _, t in want)
    again = sum(a == s for a, _ in seen)
    mon.check('prune-complete', len(sp) == len(ws) * again and len(th) == len(wt) * again, lambda: 'step %d: %d sparsities and %d thresholds for %d pruned weights' % (s, len(sp), len(th), len(ws)))
    mon.check('sparsity', np.allclose(sp, sorted(ws * again), atol=1e-6), lambda: 'step %d: sparsities %s, really %s' % (s, sp, ws))
    mon.check('threshold', np.allclose(th, sorted(wt * again), rtol=1e-6), lambda: 'step %d: thresholds %s, really %s' % (s, th, wt))
    mon.event('summaries', len(sp) + len(th))
    # by name, where names are not shared
    by = dict(steps.get(s, []))
    if again == 1 and case['fam'] != 'same':
      for l in layers(p):
        if isinstance(l, pw.PruneLowMagnitude):
          for i, (_, m, t) in enumerate(l.pruning_vars):
            a = [v for tag, v in by.items() if tag.startswith(m.name)]
            j = [id(z) for q in layers(p) if isinstance(q, pw.PruneLowMagnitude) for _, z, _ in q.pruning_vars].index(id(m))
            mon.check('sparsity', len(a) == 1 and abs(a[0] - (1 - np.mean(want[j][0]))) < 1e-6, lambda: 'step %d: %s reported as %s, really %s' % (s, m.name, a, 1 - np.mean(want[j][0])))
  mon.nontrivial('prune', case['fam'], case['loop'], str(case['runs']), case['batches'], case['freq'])
  mon.sample = dict(kind='prune', tags=names[:6], steps=sorted(steps))


def cluster_case(case, mon, d):
  import tensorflow as tf
  from tensorflow_model_optimization.python.core.clustering.keras import cluster, cluster_config, clustering_callbacks as cc
  k = zoo.K()
  freq = {'batch': 1}.get(case['upd'], case['upd'])
  seen, count = [], [0]

  def make():
    tf.random.set_seed(1)
    c = cluster.cluster_weights(build(case['fam'], case['seed']), case['n'], cluster_config.CentroidInitialization.LINEAR)
    c.compile(k.optimizers.SGD(.005), 'mse')
    return c

  def wrapped(c):
    return [l for l in layers(c) if hasattr(l, 'clustering_algorithms') or hasattr(l, 'original_clusterable_weights')]

  def look(c):
    for l in wrapped(c):
      if l.get_clusterable_weights_count():
        for v in l.variables:
          seen.append((count[0], v.name, v.numpy()))

  class Rec(k.callbacks.Callback):
    def on_train_batch_end(self, batch, logs=None):
      count[0] += 1
      if freq != 'epoch' and count[0] % freq == 0:
        look(self.model)

    def on_epoch_end(self, epoch, logs=None):
      if freq == 'epoch':
        look(self.model)

  c = make()
  for l in wrapped(c):
    l.get_clusterable_weights_count = lambda l=l: len(l.layer.get_clusterable_weights())
  x, y = data(case, c)
  kw = {'histogram': dict(histogram_freq=1), 'steps': dict(write_steps_per_second=True), 'trace': {}, None: {}}[case['extra']]
  cb = cc.ClusteringSummaries(d, cluster_update_freq=case['upd'], **kw)
  for e in case['runs']:
    c.fit(x, y, batch_size=4, epochs=e, shuffle=False, verbose=0, callbacks=[Rec(), cb])
  cb.writer.close()
  t = make()
  for e in case['runs']:
    t.fit(x, y, batch_size=4, epochs=e, shuffle=False, verbose=0)
  mon.check('transparent', all(np.array_equal(a, b, equal_nan=True) for a, b in zip(c.get_weights(), t.get_weights())), 'the weights differ from those trained without summaries')
  got = [(s, tag[len('clustering/'):], v) for _, s, tag, plugin, v in records(d) if tag.startswith('clustering/') and plugin == 'histograms']
  mon.check('cluster-steps', sorted({s for s, _, _ in got}) == sorted({s for s, _, _ in seen}), lambda: 'histograms at steps %s, due at %s' % (sorted({s for s, _, _ in got}), sorted({s for s, _, _ in seen})))
  mon.check('cluster-complete', sorted((s, n) for s, n, _ in got) == sorted((s, n) for s, n, _ in seen), lambda: 'histograms of %s, expected %s' % (sorted({n for _, n, _ in got}), sorted({n for _, n, _ in seen})))
  left = {}
  for s, n, v in seen:
    left.setdefault((s, n), []).append(v)
  for s, n, h in got:
    why = [histogram(h, v) for v in left.get((s, n), [])]
    mon.check('histogram', not why or not all(why), lambda: 'step %d %s: %s' % (s, n, why))
    mon.event('histograms')
  mon.event('due', len(seen))
  mon.nontrivial('cluster', case['fam'], str(case['upd']), str(case['runs']), case['batches'])
  mon.sample = dict(kind='cluster', steps=sorted({s for s, _, _ in got}), tags=sorted({n for _, n, _ in got})[:6])


def histogram(h, v):
  """Why the buckets (left, right, count) do not describe the values, or None."""
  v = np.sort(np.asarray(v, np.float64).ravel())
  if not np.isfinite(v).all():
    return None
  h = np.asarray(h, np.float64)
  h = h[h[:, 2] > 0]
  if h[:, 2].sum() != v.size:
    return 'counts %g of %d values' % (h[:, 2].sum(), v.size)
  e = 1e-5 * (1 + np.abs(v).max())
  at = 0
  for a, b, n in h:
    part = v[at:at + int(n)]
    if part[0] < a - e - (.5 if a == b else 0) or part[-1] > b + e + (.5 if a == b else 0):
      return 'bucket %g..%g (%d) holds %g..%g' % (a, b, n, part[0], part[-1])
    at += int(n)
  return None
