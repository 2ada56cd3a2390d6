"""C10: clustered weights stay on their nearest centroid throughout training."""
import numpy as np
from lib import clus, dist, zoo

PROP = 'C10'
CLAUSES = ['format', 'count', 'on-centroid', 'nearest', 'eager-output', 'graph-output', 'step-loss', 'others-train', 'replicas']
setup = dist.setup
RULE = ('one case = a clustered model driven through a random history (fit, train_on_batch, eager call, predict, evaluate, '
        'assigning weights; two replicas training together); after every action the kernel the layers use, and the outputs and losses in eager and graph mode, '
        'are compared with a plain twin holding the numpy nearest-centroid weights; non-trivial = distinct (family, options, action '
        'sequence) with weights that changed cluster')
FAMS = clus.FAMS
ACTS = ['fit', 'batch', 'call', 'predict', 'evaluate', 'assign', 'traincall', 'centroid']


def cases(rng, tier):
  out = []
  for i in range(48 if tier == 'quick' else 800):
    sp = zoo.spec(rng, [FAMS[i % len(FAMS)]])
    pc = sp['fam'] in ('conv', 'convs') and rng.random() < .6
    out.append(dict(sp=sp, n=rng.choice([2, 3, 4, 4, 5, 8]), init=rng.choice(['LINEAR', 'RANDOM', 'DENSITY_BASED', 'KMEANS_PLUS_PLUS']),
                    pc=pc, agg=rng.choice(['SUM', 'SUM', 'AVG']), opt=rng.choice(['sgd', 'adam']),
                    acts=[rng.choice(ACTS) for _ in range(4 if tier == 'quick' else 8)], seed=rng.randrange(10**6), cost=3))
  for i in range(3 if tier == 'quick' else 30):
    out.append(dict(kind='format', pc=i % 3 < 2, n=rng.choice([2, 3, 4]), init=rng.choice(['LINEAR', 'RANDOM', 'DENSITY_BASED']), preserve=rng.random() < .3,
                    transposed=rng.random() < .4, u=[rng.randrange(2, 6) for _ in range(4)], seed=rng.randrange(10**6), cost=3))
  for i in range(3 if tier == 'quick' else 30):
    out.append(dict(kind='dist', u=[rng.randrange(3, 7) for _ in range(4)], conv=bool(i % 2), pc=rng.random() < .5, n=rng.choice([2, 3, 4, 6]), init=rng.choice(['LINEAR', 'RANDOM', 'DENSITY_BASED']),
                    agg=rng.choice(['SUM', 'AVG']), policy=['', '', 'float64'][i % 3], bs=[rng.choice([2, 4, 3]) for _ in range(2)], lr=rng.choice([.02, .1]), seed=rng.randrange(10**6), cost=3))
  return out


def run_dist(case, mon):
  """Two replicas training together hold the same centroids, and weights on them; also in double precision on one."""
  import tensorflow as tf
  from tensorflow_model_optimization.python.core.clustering.keras import cluster, cluster_config as cc
  from tensorflow_model_optimization.python.core.clustering.keras.experimental import cluster as xcluster
  k = zoo.K()
  L = k.layers
  alone = bool(case['policy'])
  u, n, r = case['u'], case['n'], np.random.RandomState(case['seed'])

  def make():
    first = [L.Conv2D(u[1], 3, activation='tanh', input_shape=(5, 5, u[0])), L.Flatten()] if case['conv'] else [L.Dense(u[1] + 3, activation='tanh', input_shape=(u[0],))]
    return k.Sequential(first + [L.Dense(u[2], activation='tanh'), L.Dense(u[3])])
  x = r.randn(8, *([5, 5] if case['conv'] else []), u[0]).astype('f')
  y = r.randn(8, u[3]).astype('f')
  with (tf.distribute.get_strategy() if alone else dist.strategy()).scope():
    base = make()
    base.set_weights([r.randn(*w.shape).astype('f') * .5 for w in base.get_weights()])
    m = xcluster.cluster_weights(base, n, getattr(cc.CentroidInitialization, 'LINEAR' if alone and case['init'] == 'DENSITY_BASED' else case['init']), cluster_per_channel=case['pc'],
                                 cluster_gradient_aggregation=getattr(cc.GradientAggregation, case['agg']))
    m.compile(k.optimizers.legacy.SGD(case['lr'], clipnorm=1.), 'mse')
  twin = make()
  prev = [dist.copies(v)[0] for v in m.trainable_variables]

  def plain_weights():
    """The weights of the layers in order, clustered ones on their nearest centroid."""
    out, tied = [], False
    for l in m.layers:
      if not getattr(l, 'cluster_centroids', None):
        out += [dist.copies(v)[0] for v in l.weights]
        continue
      w, c = dist.copies(l.original_clusterable_weights['kernel'])[0], dist.copies(l.cluster_centroids['kernel'])[0]
      v, t, _ = clus.nearest(w, c)
      t = np.any(t)
      tied = tied or t
      out += [v, dist.copies(l.layer.bias)[0]]
    return out, tied

  for step, bs in enumerate(case['bs']):
    for b in range(0, 8, bs):
      xb, yb = x[b:b + bs], y[b:b + bs]
      flat, tied = plain_weights()
      twin.set_weights(flat)
      want = float(np.mean((twin.predict(xb, verbose=0).astype('f8') - yb)**2))
      got = float(m.train_on_batch(xb, yb))
      if not tied:
        mon.check('step-loss', abs(got - want) <= 1e-4 * (1 + want), lambda: 'the replicas used other weights: loss %g, with nearest centroids %g' % (got, want))
      mon.event('replicated batches')
      for v in m.variables:
        mon.check('replicas', dist.agree(v, 2 - alone), lambda: '%s differs between the replicas' % v.name)
    out = m.predict(x, batch_size=4, verbose=0)
    flat, tied = plain_weights()
    twin.set_weights(flat)
    if not tied:
      mon.check('graph-output', np.allclose(out, twin.predict(x, verbose=0), atol=2e-5, rtol=2e-5), 'predictions of the replicas differ from the model with nearest-centroid weights')
  now = [dist.copies(v)[0] for v in m.trainable_variables]
  mon.check('others-train', all(np.any(a != b) for a, b in zip(prev, now)), lambda: 'not trained: %s' % [v.name for v, a, b in zip(m.trainable_variables, prev, now) if not np.any(a != b)])
  s = cluster.strip_clustering(m)
  flat, tied = plain_weights()
  for got, want in zip(s.get_weights(), flat):
    mon.check('count', got.ndim < 2 or clus.distinct(got, case['pc'] and got.ndim == 4) <= n, lambda: '%d distinct values for %d clusters' % (clus.distinct(got, False), n))
    mon.check('nearest', tied or np.array_equal(got, want), 'the stripped weights are not the nearest centroids')
  mon.nontrivial('dist', alone, case['conv'], case['pc'], case['agg'], case['init'], tuple(case['bs']))


def run_format(case, mon):
  """Convolutions with the channels first: the same as their twins with the channels last.

  Kernels are stored the same way in both. (XLA compiles what the CPU kernels cannot run.)
  """
  import tensorflow as tf
  from tensorflow_model_optimization.python.core.clustering.keras import cluster_config as cc, cluster
  from tensorflow_model_optimization.python.core.clustering.keras.experimental import cluster as xcluster
  k = zoo.K()
  L = k.layers
  u, n = case['u'], max(case['n'], 3 if case['preserve'] else 2)
  r = np.random.RandomState(case['seed'])

  def make(fmt):
    t = L.Conv2DTranspose if case['transposed'] else L.Conv2D
    m = k.Sequential([L.InputLayer((u[0], 6, 6) if fmt == 'channels_first' else (6, 6, u[0])), L.Conv2D(u[1], 3, activation='tanh', data_format=fmt), t(u[2], 2, data_format=fmt),
                      L.GlobalAveragePooling2D(data_format=fmt), L.Dense(u[3])])
    return m
  a, b = make('channels_first'), make('channels_last')
  b.set_weights([r.randn(*w.shape).astype('f') * .5 for w in b.get_weights()])
  a.set_weights(b.get_weights())
  x = r.randn(5, u[0], 6, 6).astype('f')
  xs = [tf.constant(x), tf.constant(x.transpose(0, 2, 3, 1))]
  both = []
  for m in (a, b):
    tf.random.set_seed(3)
    both.append(xcluster.cluster_weights(m, n, getattr(cc.CentroidInitialization, case['init']), preserve_sparsity=case['preserve'], cluster_per_channel=case['pc']))
  order = lambda m: [w for w in m.layers if hasattr(w, 'cluster_centroids')]
  for wa, wb in zip(order(both[0]), order(both[1])):
    if case['init'] == 'RANDOM':
      for key in wa.cluster_centroids:
        wa.cluster_centroids[key].assign(wb.cluster_centroids[key])
    for key in wb.cluster_centroids:
      mon.check('format', wa.cluster_centroids[key].shape == wb.cluster_centroids[key].shape and np.allclose(wa.cluster_centroids[key], wb.cluster_centroids[key]),
                lambda: '%s: other centroids with the channels first' % wb.name)

  def stepper(m):
    @tf.function(jit_compile=True)
    def step(v):
      with tf.GradientTape() as t:
        o = m(v, training=True)
        loss = tf.reduce_mean(tf.square(o - 1.))
      return o, [tf.convert_to_tensor(g) for g in t.gradient(loss, m.trainable_variables)]
    return step
  steps = [stepper(m) for m in both]
  for s in range(3):
    outs = []
    for m, f, v in zip(both, steps, xs):
      o, g = f(v)
      outs.append(o.numpy())
      for w, d in zip(m.trainable_variables, g):
        w.assign_sub(.3 * d)
    mon.check('format', np.allclose(outs[0], outs[1], atol=1e-4, rtol=1e-4), lambda: 'step %d: outputs differ by %g between the formats' % (s, np.abs(outs[0] - outs[1]).max()))
  va, vb = [sorted((w.name.split('/')[-1], tuple(w.shape), np.round(float(np.abs(w.numpy()).sum()), 2)) for w in m.weights if 'pulling' not in w.name) for m in both]
  mon.check('format', len(va) == len(vb) and all(p[:2] == q[:2] and abs(p[2] - q[2]) < .05 for p, q in zip(va, vb)), lambda: 'trained to %s with the channels first, %s with the channels last' % (va, vb))
  sa, sb = [cluster.strip_clustering(m) for m in both]
  for p, q, l in zip(sa.get_weights(), sb.get_weights(), [w.name for w in sa.weights]):
    d = [clus.distinct(w, case['pc'] and w.ndim == 4) for w in (p, q)]
    mon.check('format', p.shape == q.shape and (p.ndim < 2 or d[0] <= n + case['preserve'] and np.mean(np.abs(p - q) > 1e-3) < .05),
              lambda: '%s: %d distinct values (%d with the channels last), %g off' % (l, d[0], d[1], np.abs(p - q).max()))
  mon.event('formats compared')
  mon.nontrivial('format', case['pc'], case['transposed'], case['init'])


def make(case, **kw):
  n, init = case['n'], case['init']
  if init == 'KMEANS_PLUS_PLUS':
    n = max(2, min(n, clus.smallest(clus.build(case['sp'])[0], case['pc'])))
  return clus.Rig(case['sp'], n, init, per_channel=case['pc'], agg=case['agg'], **kw)


def check_kernels(rig, mon, where):
  """After an eager forward pass the layers hold eager clustered kernels."""
  moved = 0
  values = {}
  for it in rig.items():
    l, w, path, v, c, key = it
    got = w.get_weight_from_layer(key)
    got = np.asarray(got)
    want, tie, idx = rig.assigned(it)
    pc = clus.is_pc(rig, l)
    mon.check('count', clus.distinct(got, pc) <= rig.n, lambda: '%s %s: %d distinct values for %d clusters %s' % (l.name, path, clus.distinct(got, pc), rig.n, where))
    cn = c.numpy()
    if pc:
      on = all(np.isin(got[..., j], cn[j]).all() for j in range(got.shape[-1]))
      shape_ok = cn.ndim == 2 and cn.shape == (got.shape[-1], rig.n)
    else:
      on = np.isin(got, cn).all()
      shape_ok = cn.shape == (rig.n,)
    mon.check('count', shape_ok, lambda: '%s %s: %s centroids for %d clusters' % (l.name, path, cn.shape, rig.n))
    mon.check('on-centroid', on, lambda: '%s %s holds values that are no centroid %s' % (l.name, path, where))
    far = (got != want) & ~tie
    mon.check('nearest', not far.any(), lambda: '%s %s: %d elements not on the nearest centroid %s' % (l.name, path, far.sum(), where))
    mon.event('elements', got.size)
    values[id(v)] = np.where(tie, got, want)
    moved += int(idx.size)
  return values


def run(case, mon):
  import tensorflow as tf
  from tensorflow_model_optimization.python.core.keras.compat import keras
  if case.get('kind') == 'format':
    return run_format(case, mon)
  if case.get('kind') == 'dist':
    with dist.policy(case['policy']):
      return run_dist(case, mon)
  rig = make(case)
  m, x, sp = rig.model, rig.x, case['sp']
  r = np.random.RandomState(case['seed'])
  opt = keras.optimizers.legacy.SGD(.05) if case['opt'] == 'sgd' else keras.optimizers.legacy.Adam(.03)
  m.compile(opt, 'mse')
  n_items = len(rig.items())
  if not n_items:
    return
  steady = sp['fam'] in clus.STEADY and sp['fam'] != 'probe'
  bn = any(type(l).__name__ == 'BatchNormalization' for l in zoo.all_layers(m)) or 'atchNorm' in repr([type(getattr(l, 'layer', l)) for l in zoo.all_layers(m)])
  first = {id(it[3]): rig.assigned(it)[2] for it in rig.items()}
  xs = x if isinstance(x, list) else [x]
  for step, act in enumerate(case['acts']):
    y = zoo.targets(m, len(xs[0]), case['seed'] + step)
    if act == 'fit':
      m.fit(x, y, batch_size=4, epochs=1, shuffle=False, verbose=0)
    elif act == 'batch':
      before = {id(v): v.numpy() for l, vs, cl, _, _ in rig.leaves for v in vs if v.trainable}
      check = steady and not bn
      if check:
        rig.sync()
        want = float(np.sum([np.mean((np.asarray(a, 'f8') - b)**2) for a, b in zip(
            zoo.outputs(rig.twin, x), y if isinstance(y, list) else [y])]))
      loss = m.train_on_batch(x, y)
      loss = float(loss[0] if isinstance(loss, (list, tuple)) else loss)
      if check:
        mon.check('step-loss', abs(loss - want) <= 1e-4 * (1 + abs(want)), lambda: 'graph training step used other weights: loss %g, with nearest centroids %g' % (loss, want))
      # some unclustered trainable variable (bias, gamma, ...) must have followed its gradient
      others = [v for l, vs, cl, _, ch in rig.leaves for v in vs if v.trainable and id(v) not in {id(q) for q in cl.values()}]
      if others:
        mon.check('others-train', any(np.any(v.numpy() != before[id(v)]) for v in others), 'no unclustered weight changed in a training step')
    elif act == 'call':
      m(x)
    elif act == 'traincall':
      with tf.GradientTape() as tape:
        tape.watch(m.trainable_variables)
        o = m(x, training=True)
        o = o if isinstance(o, (list, tuple)) else [o]
        loss = tf.add_n([tf.reduce_mean(v**2) for v in o])
      gr = tape.gradient(loss, m.trainable_variables)
      opt.apply_gradients([(g, v) for g, v in zip(gr, m.trainable_variables) if g is not None])
    elif act == 'predict':
      m.predict(x, verbose=0)
    elif act == 'evaluate':
      m.evaluate(x, y, verbose=0)
    elif act == 'assign':
      for it in rig.items():
        it[3].assign(it[3].numpy() + r.randn(*it[3].shape) * .3)
    elif act == 'centroid':
      for it in rig.items():
        it[4].assign(it[4].numpy() + r.randn(*it[4].shape) * .1)
    if not all(np.isfinite(v).all() and np.abs(v).max(initial=0) < 1e4 for v in m.get_weights()):
      mon.event('diverged')
      break
    mon.event('actions')
    where = 'after %s' % case['acts'][:step + 1]
    got = zoo.outputs(m, x)          # an eager forward pass
    values = check_kernels(rig, mon, where)
    rig.sync(values)
    ref = zoo.outputs(rig.twin, x)
    mon.check('eager-output', zoo.close(got, ref, 2e-5), lambda: 'outputs differ from the model with nearest-centroid weights %s' % where)
    p = m.predict(x, verbose=0)
    p = p if isinstance(p, list) else [p]
    mon.check('graph-output', zoo.close(p, ref, 2e-5), lambda: 'predictions differ from the model with nearest-centroid weights %s' % where)
  # The lookup is about order, not size: rescale everything and look again.
  scale = [1e-25, 1e-10, 1e-4, 50., 1e7][case['seed'] % 5]
  for it in rig.items():
    it[3].assign(it[3].numpy() * scale)
    it[4].assign(it[4].numpy() * scale)
  m(x)
  check_kernels(rig, mon, 'with weights and centroids scaled by %g' % scale)
  mon.event('rescaled models')
  changed = sum(int((first[id(it[3])] != rig.assigned(it)[2]).sum()) for it in rig.items())
  mon.event('elements that changed cluster', changed)
  mon.event('clustered tensors', n_items)
  if changed:
    mon.nontrivial(sp['fam'], case['pc'], case['agg'], case['init'], tuple(case['acts']))
  mon.sample = dict(fam=sp['fam'], acts=case['acts'], tensors=n_items, changed=changed)
