"""C13: clustering gradients reach centroids and weights as configured."""
import numpy as np
from lib import clus, zoo

PROP = 'C13'
CLAUSES = ['centroid-sum', 'centroid-avg', 'unused-zero', 'weight-gradient', 'other-gradient', 'per-channel', 'graph-step', 'lookup']
RULE = ('one case = a clustered model (sum or average aggregation, whole tensor or per channel, some clusters left empty) differentiated '
        'eagerly and trained one plain SGD step in graph mode; gradients are compared with those of a plain twin at the clustered weights, '
        'summed or averaged per cluster in numpy; or a lookup object alone under an arbitrary upstream gradient; non-trivial = distinct '
        '(family, options) with non-zero gradients')
FAMS = clus.FAMS


def cases(rng, tier):
  out = []
  for i in range(34 if tier == 'quick' else 700):
    fams = [f for f in FAMS if f in clus.STEADY]
    sp = zoo.spec(rng, [fams[i % len(fams)] if i % 5 else 'convs'])
    pc = sp['fam'] in ('conv', 'convs') and rng.random() < .7
    out.append(dict(sp=sp, n=rng.choice([2, 3, 4, 6, 8]), init=rng.choice(['LINEAR', 'RANDOM', 'DENSITY_BASED']), pc=pc,
                    agg=rng.choice(['SUM', 'AVG']), empty=rng.random() < .5, train=rng.random() < .5, seed=rng.randrange(10**6), cost=3))
  for i in range(60 if tier == 'quick' else 2000):
    out.append(dict(kind='lookup', pc=rng.random() < .5, agg=rng.choice(['SUM', 'AVG']), n=rng.choice([2, 3, 5, 9]), nd=rng.choice([1, 2, 3, 4]),
                    fn=rng.random() < .5, dt=rng.choice(['float32', 'float32', 'float64']), scale=rng.choice([1, 1, 30, 1000, 1e8, 1e-4, 1e-20]), seed=rng.randrange(10**6)))
  return out


def aggregate(g, idx, c, avg):
  out = np.zeros(c.shape, 'f8')
  cnt = np.zeros(c.shape, 'f8')
  if c.ndim == 1:
    np.add.at(out, idx, g)
    np.add.at(cnt, idx, 1)
  else:
    ch = np.broadcast_to(np.arange(c.shape[0]), g.shape)
    np.add.at(out, (ch, idx), g)
    np.add.at(cnt, (ch, idx), 1)
  return (np.where(cnt > 0, out / np.maximum(cnt, 1), 0) if avg else out), cnt


def near(a, b, tol=2e-4, mag=0.):
  """mag: the size of the terms summed in b, where they may cancel."""
  return a.shape == b.shape and bool(np.all(np.abs(a - b) <= tol * (np.abs(b) + np.maximum(mag, max(1e-3, float(np.abs(b).max(initial=0)))))))


def dense(g, v):
  import tensorflow as tf
  if g is None:
    return np.zeros(v.shape)
  return np.asarray(tf.convert_to_tensor(g))


def run_lookup(case, mon):
  import tensorflow as tf
  from tensorflow_model_optimization.python.core.clustering.keras import cluster_config as cc, clustering_algorithm as ca
  r = np.random.RandomState(case['seed'])
  nd = 4 if case['pc'] else case['nd']
  shape = [int(r.randint(1, 6)) for _ in range(nd)]
  n = case['n']
  dt = case['dt']
  scale = float(case['scale'])
  w = tf.Variable((r.randn(*shape) * scale).astype(dt))
  cen = (r.randn(*((shape[-1], n) if case['pc'] else (n,))) * scale).astype(dt)
  cen[..., -1] = 40. * scale
  c = tf.Variable(cen)
  agg = getattr(cc.GradientAggregation, case['agg'])
  al = (ca.ClusteringAlgorithmPerChannel if case['pc'] else ca.ClusteringAlgorithm)(c, agg, 'channels_last')
  g = r.randn(*shape).astype(dt)

  def go():
    with tf.GradientTape() as tape:
      idx = al.get_pulling_indices(w)
      cw = al.get_clustered_weight(idx, w)
      loss = tf.reduce_sum(cw * g)
    gc, gw = tape.gradient(loss, [c, w])
    return idx, cw, tf.convert_to_tensor(gc), gw
  idx, cw, gc, gw = [np.asarray(v) for v in (tf.function(go) if case['fn'] else go)()]
  val, tie, want = clus.nearest(w.numpy(), cen)
  if tie.any():
    return
  ref, cnt = aggregate(g, want, cen, case['agg'] == 'AVG')
  d = lambda: 'pc=%s agg=%s shape=%s n=%d scale=%g' % (case['pc'], case['agg'], shape, n, scale)
  mon.check('lookup', np.array_equal(idx, want) and np.allclose(cw, val, rtol=1e-6, atol=0), d)
  mon.check('centroid-sum' if case['agg'] == 'SUM' else 'centroid-avg', near(gc, ref, mag=aggregate(np.abs(g), want, cen, case['agg'] == 'AVG')[0]), lambda: '%s: centroid gradient %s, expected %s' % (d(), gc, ref))
  mon.check('unused-zero', not np.any(gc[cnt == 0]), d)
  mon.check('weight-gradient', near(gw, g), d)
  if case['pc']:
    mon.check('per-channel', gc.shape == (shape[-1], n), d)
  mon.event('gradients', g.size)
  mon.nontrivial('lookup', case['pc'], case['agg'], nd, case['fn'], dt)


def run(case, mon):
  import tensorflow as tf
  from tensorflow_model_optimization.python.core.keras.compat import keras
  if case.get('kind') == 'lookup':
    return run_lookup(case, mon)
  rig = clus.Rig(case['sp'], case['n'], case['init'], per_channel=case['pc'], agg=case['agg'])
  m, x, t = rig.model, rig.x, rig.twin
  items = rig.items()
  if not items:
    return
  if case['empty']:
    for it in items:
      c = it[4].numpy()
      c[..., 0] = -35.
      it[4].assign(c)
  xs = x if isinstance(x, list) else [x]
  y = zoo.targets(m, len(xs[0]), case['seed'])
  ys = y if isinstance(y, list) else [y]

  def loss_of(model):
    o = model(x, training=case['train'])
    o = o if isinstance(o, (list, tuple)) else [o]
    return tf.add_n([tf.reduce_mean((v - w)**2) for v, w in zip(o, ys)])

  def expected(train):
    """Twin gradients at the present clustered weights: id(variable) -> gradient."""
    rig.sync()
    keep = t.get_weights()
    with tf.GradientTape() as tape:
      o = t(x, training=train)
      o = o if isinstance(o, (list, tuple)) else [o]
      loss = tf.add_n([tf.reduce_mean((v - w)**2) for v, w in zip(o, ys)])
    tv = [w for _, vs, _, l, _ in rig.leaves for w in l.weights]
    gs = tape.gradient(loss, tv)
    out = {}
    for (l, vs, cl, tl, _) in rig.leaves:
      for v, w in zip(vs, tl.weights):
        g = gs[next(i for i, q in enumerate(tv) if q is w)]
        out[id(v)] = dense(g, w)
    t.set_weights(keep)
    return out

  ref = expected(case['train'])
  before = {id(v): v.numpy() for _, vs, _, _, _ in rig.leaves for v in vs}
  cbefore = [it[4].numpy() for it in items]
  assign = [rig.assigned(it) for it in items]
  with tf.GradientTape() as tape:
    loss = loss_of(m)
  tv = list(m.trainable_variables)
  grads = {id(v): dense(g, v) for v, g in zip(tv, tape.gradient(loss, tv))}
  wherefrom = '%s agg=%s pc=%s n=%d' % (case['sp']['fam'], case['agg'], case['pc'], case['n'])
  avg = case['agg'] == 'AVG'
  covered = set()
  live = False
  cref = {}
  for it, (val, tie, idx), cb in zip(items, assign, cbefore):
    l, w, path, v, c, key = it
    covered.add(id(v))
    G = ref[id(v)]
    ok = id(c) in grads and id(v) in grads
    if not mon.check('weight-gradient', ok and near(grads[id(v)], G), lambda: '%s %s %s: gradient of the unclustered weight %s, expected %s' % (wherefrom, l.name, path, grads.get(id(v)), G)):
      continue
    if tie.any():
      mon.event('tensors with ties skipped')
      continue
    want, cnt = aggregate(G, idx, cb, avg)
    cref[id(c)] = want
    got = grads[id(c)]
    mon.check('centroid-avg' if avg else 'centroid-sum', near(got, want, mag=aggregate(np.abs(G), idx, cb, avg)[0]), lambda: '%s %s %s: centroid gradient %s, expected %s' % (wherefrom, l.name, path, got, want))
    mon.check('unused-zero', not np.any(got[cnt == 0]), lambda: '%s %s %s: unused centroids have gradients' % (wherefrom, l.name, path))
    if clus.is_pc(rig, l):
      mon.check('per-channel', got.ndim == 2, lambda: '%s %s' % (wherefrom, l.name))
    mon.event('gradients', G.size)
    mon.event('empty clusters', int((cnt == 0).sum()))
    live = live or bool(np.abs(G).max() > 1e-7)
  for _, vs, cl, _, _ in rig.leaves:
    for v in vs:
      if v.trainable and id(v) not in covered and id(v) in ref:
        mon.check('other-gradient', id(v) in grads and near(grads[id(v)], ref[id(v)]), lambda: '%s: gradient of %s %s, expected %s' % (wherefrom, v.name, grads.get(id(v)), ref[id(v)]))
  if live:
    mon.nontrivial(case['sp']['fam'], case['agg'], case['pc'], case['n'], case['empty'], case['train'])
  # one plain SGD step in graph mode moves every variable by -lr * its gradient
  if any(t_.any() for _, t_, _ in assign):
    return
  ref = expected(True)
  before = {id(v): v.numpy() for _, vs, _, _, _ in rig.leaves for v in vs}
  cbefore = [it[4].numpy() for it in items]
  m.compile(keras.optimizers.legacy.SGD(.01), 'mse')
  m.train_on_batch(x, y)
  for it, (val, tie, idx), cb in zip(items, assign, cbefore):
    want, _ = aggregate(ref[id(it[3])], idx, cb, avg)
    got = it[4].numpy() - cb
    s = 1e-3 * float(np.abs(want).max()) * .01 + 4e-6 * float(np.abs(cb).max()) + 1e-7
    mon.check('graph-step', np.allclose(got, -.01 * want, atol=s), lambda: '%s %s %s: centroids moved by %s, expected %s' % (wherefrom, it[0].name, it[2], got, -.01 * want))
    got = it[3].numpy() - before[id(it[3])]
    want = ref[id(it[3])]
    s = 1e-3 * float(np.abs(want).max()) * .01 + 4e-6 * float(np.abs(before[id(it[3])]).max()) + 1e-7
    mon.check('graph-step', np.allclose(got, -.01 * want, atol=s), lambda: '%s %s %s: unclustered weights did not follow their gradient' % (wherefrom, it[0].name, it[2]))
