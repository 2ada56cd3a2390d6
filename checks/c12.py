"""C12: sparsity-preserving clustering never resurrects pruned weights."""
import os
import shutil
import tempfile
import numpy as np
from lib import clus, zoo

PROP = 'C12'
CLAUSES = ['initially-sparse', 'zeros-kept', 'zero-centroid', 'count', 'output', 'predict-output', 'stripped-zeros', 'stripped-count', 'reload-zeros']
RULE = ('one case = a model with random zero patterns, clustered with sparsity preservation (whole tensor or per channel), driven through '
        'random training actions; after each, every position zero at wrapping time must be zero in the kernel in use and outputs must be those '
        'of a twin with the masked nearest-centroid weights; then stripped, or saved, reloaded and trained further; non-trivial = distinct '
        '(family, options, actions) with zeros and non-zeros')
FAMS = clus.FAMS
ACTS = ['fit', 'batch', 'traincall', 'assign', 'evaluate', 'predict']


def cases(rng, tier):
  out = []
  for i in range(32 if tier == 'quick' else 700):
    sp = zoo.spec(rng, [FAMS[i % len(FAMS)]])
    pc = sp['fam'] in ('conv', 'convs') and rng.random() < .6
    out.append(dict(sp=sp, n=rng.choice([3, 4, 5, 6, 8]), init=rng.choice(['LINEAR', 'RANDOM', 'DENSITY_BASED', 'KMEANS_PLUS_PLUS']),
                    pc=pc, agg='SUM', zeros=rng.choice([.2, .5, .5, .8]), opt=rng.choice(['sgd', 'adam', 'momentum']),
                    acts=[rng.choice(ACTS) for _ in range(2 if tier == 'quick' else 6)], end=rng.choice(['strip', 'strip', 'h5', 'keras', 'weights']),
                    seed=rng.randrange(10**6), cost=3))
  return out


def room(rig_base, n, pc):
  """Largest count k-means++ can draw from every sign group."""
  best = n
  for l in zoo.all_layers(rig_base):
    for v in clus.clusterable(l).values():
      a = v.numpy()
      groups = [a[..., j].ravel() for j in range(a.shape[-1])] if pc and type(l).__name__ in ('Conv2D', 'Conv2DTranspose') else [a.ravel()]
      for g in groups:
        neg, pos = int((g < 0).sum()), int((g > 0).sum())
        if neg + pos:
          best = min([best] + [q for q in range(n, 2, -1) if np.floor((q - 1) * neg / (neg + pos) + .5) <= neg and
                               np.floor((q - 1) * pos / (neg + pos) + .5) <= pos][:1] or [0])
  return best


def run(case, mon):
  import tensorflow as tf
  from tensorflow_model_optimization.python.core.keras.compat import keras
  from tensorflow_model_optimization.python.core.clustering.keras import cluster
  init = case['init']
  if init == 'KMEANS_PLUS_PLUS':
    init = 'LINEAR'                       # (drawn without replacement: needs as many points as clusters; see C11)
    if case['sp']['fam'] in ('lstm', 'gru', 'rnn', 'stacked', 'mha', 'bidir', 'conv3d', 'conv') and not case['pc'] and case['zeros'] < .8 and min(case['sp']['u']) > 3:
      init, case = 'KMEANS_PLUS_PLUS', dict(case, n=3)
  rig = clus.Rig(case['sp'], case['n'], init, preserve=True, per_channel=case['pc'], zeros=case['zeros'])
  items = rig.items()
  if not items:
    return
  m, x = rig.model, rig.x
  zero = {id(it[3]): it[3].numpy() == 0 for it in items}
  n0 = sum(int(z.sum()) for z in zero.values())
  n1 = sum(int((~z).sum()) for z in zero.values())
  opt = dict(sgd=lambda: keras.optimizers.legacy.SGD(.03), adam=lambda: keras.optimizers.legacy.Adam(.03),
             momentum=lambda: keras.optimizers.legacy.SGD(.02, momentum=.9))[case['opt']]
  m.compile(opt(), 'mse')
  r = np.random.RandomState(case['seed'])
  xs = x if isinstance(x, list) else [x]
  # elements that start on the zero centroid stay zero; elements never zero and
  # not on it are masked out of nothing
  m(x)
  start = {}
  for l, w, path, v, c, key in items:
    got = np.asarray(w.get_weight_from_layer(key))
    start[id(v)] = got == 0
    mon.check('initially-sparse', not (got[zero[id(v)]] != 0).any(), lambda: '%s %s: pruned weights are non-zero right after clustering' % (l.name, path))

  def verify(rig, model, where, clause='zeros-kept'):
    got_y = zoo.outputs(model, x)
    values = {}
    for l, w, path, v, c, key in rig.items():
      got = np.asarray(w.get_weight_from_layer(key))
      pc = clus.is_pc(rig, l)
      z = zero[id(v)] if id(v) in zero else zero_by_path[(l.name, path)]
      s = start[id(v)] if id(v) in start else start_by_path[(l.name, path)]
      mon.check(clause, not (got[z] != 0).any(), lambda: '%s %s: %d of %d pruned weights resurrected %s' % (l.name, path, (got[z] != 0).sum(), z.sum(), where))
      cn = c.numpy()
      mon.check('zero-centroid', (cn == 0).any(-1).all(), lambda: '%s %s: no zero centroid %s: %s' % (l.name, path, where, cn))
      mon.check('count', clus.distinct(got, pc) <= rig.n, lambda: '%s %s: %d values for %d clusters %s' % (l.name, path, clus.distinct(got, pc), rig.n, where))
      want, tie, _ = clus.nearest(v.numpy() * ~s, cn)
      mon.event('pruned elements', int(z.sum()))
      values[id(v)] = np.where(tie, got, want)
    rig.sync(values)
    ref = zoo.outputs(rig.twin, x)
    mon.check('output', zoo.close(got_y, ref, 2e-5), lambda: 'outputs are not those of the sparse clustered weights %s' % where)
    p = model.predict(x, verbose=0)
    mon.check('predict-output', zoo.close(p if isinstance(p, list) else [p], ref, 2e-5), lambda: 'predictions are not those of the sparse clustered weights %s' % where)

  def act(model, a, step):
    y = zoo.targets(model, len(xs[0]), case['seed'] + step)
    if a == 'fit':
      model.fit(x, y, batch_size=4, epochs=1, shuffle=False, verbose=0)
    elif a == 'batch':
      model.train_on_batch(x, y)
    elif a == 'traincall':
      with tf.GradientTape() as tape:
        o = model(x, training=True)
        o = o if isinstance(o, (list, tuple)) else [o]
        loss = tf.add_n([tf.reduce_mean(v**2) for v in o])
      tv = model.trainable_variables
      model.optimizer.apply_gradients([(g, v) for g, v in zip(tape.gradient(loss, tv), tv) if g is not None])
    elif a == 'assign':
      for it in rig.items():
        it[3].assign(it[3].numpy() + r.randn(*it[3].shape) * .3)
    elif a == 'evaluate':
      model.evaluate(x, y, verbose=0)
    else:
      model.predict(x, verbose=0)
    mon.event('actions')

  def sane(model):
    return all(np.isfinite(v).all() and np.abs(v).max(initial=0) < 1e4 for v in model.get_weights())

  verify(rig, m, 'at the start')
  for step, a in enumerate(case['acts']):
    act(m, a, step)
    if not sane(m):
      mon.event('diverged')
      return
    verify(rig, m, 'after %s' % case['acts'][:step + 1])
  if n0 and n1:
    mon.nontrivial(case['sp']['fam'], case['pc'], case['init'], tuple(case['acts']), case['end'])
  mon.sample = dict(fam=case['sp']['fam'], acts=case['acts'], pruned=n0, kept=n1, end=case['end'])
  end = case['end']
  flat = {}
  for i, (l, vs, cl, t, _) in enumerate(rig.leaves):
    for path, v in cl.items():
      flat[(i, path)] = v
  if end == 'strip' or case['sp']['fam'] == 'nested':
    s = cluster.strip_clustering(m)
    for i, l in enumerate(zoo.all_layers(s)):
      for path, v in clus.clusterable(l).items():
        o = flat.get((i, path))
        if o is None:
          continue
        a = v.numpy()
        z = zero[id(o)]
        mon.check('stripped-zeros', a.shape == z.shape and not (a[z] != 0).any(), lambda: '%s %s: pruned weights are non-zero after stripping' % (l.name, path))
        pc = clus.is_pc(rig, l)
        mon.check('stripped-count', clus.distinct(a, pc) <= rig.n, lambda: '%s %s: %d values' % (l.name, path, clus.distinct(a, pc)))
    return
  d = tempfile.mkdtemp(prefix='c12_')
  try:
    if end == 'weights':
      p = os.path.join(d, 'w.h5')
      m.save_weights(p)
      back = clus.Rig(case['sp'], case['n'], init, preserve=True, per_channel=case['pc'], zeros=0.)
      try:
        same = [w.shape for w in back.model.weights] == [w.shape for w in m.weights]
      except Exception:  # pylint: disable=broad-except
        same = False
      if not same:
        return
      back.model(x)
      back.model.load_weights(p)
      m2 = back.model
    else:
      p = os.path.join(d, 'm.' + end)
      m.save(p)
      with cluster.cluster_scope():
        m2 = keras.models.load_model(p, custom_objects={'ModeProbe': clus.mode_probe()})
    m2.compile(opt(), 'mse')
    for a in ('batch', 'fit'):
      act(m2, a, 77)
    if not sane(m2):
      return
    m2(x)
    from tensorflow_model_optimization.python.core.clustering.keras import cluster_wrapper as cw
    ws = [l for l in zoo.all_layers(m2) if isinstance(l, cw.ClusterWeights)]
    old = [l for l in zoo.all_layers(m) if isinstance(l, cw.ClusterWeights)]
    for w, o in zip(ws, old):
      for key, v in o.original_clusterable_weights.items():
        if id(v) in zero and key in w.original_clusterable_weights:
          got = np.asarray(w.get_weight_from_layer(key))
          z = zero[id(v)]
          mon.check('reload-zeros', not (got[z] != 0).any(), lambda: '%s %s: %d pruned weights resurrected after reloading (%s) and training' % (w.name, key, (got[z] != 0).sum(), end))
  finally:
    shutil.rmtree(d)
