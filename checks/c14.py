"""C14: clustering a model changes nothing but the clustered weights."""
import os
import shutil
import tempfile
import warnings
import numpy as np
from checks import c07
from lib import clus, zoo

PROP = 'C14'
CLAUSES = ['selection', 'rejects', 'inference', 'training-mode', 'statistics', 'config', 'topology', 'values-kept', 'reload-outputs',
           'reload-settings', 'reload-training', 'custom', 'skipped', 'losses']
RULE = ('one case = a random model clustered as a whole, partly or as a list of layers (or a custom, unsupported or too small layer), '
        'compared with a plain twin holding the clustered weights in inference and training mode, in layer configurations and graph, then '
        'saved, reloaded and trained one more step; non-trivial = distinct (family, options, format)')
FAMS = clus.FAMS
# (a SavedModel of some other layers is the known finding below)
TF_OK = ('mlp', 'mlp_mode', 'residual', 'two_in', 'nested', 'embed', 'mha', 'probe', 'crossmha')
FORMATS = {'recurrent': ['h5', 'keras', 'weights', 'json'], 'other': ['h5', 'keras', 'tf', 'weights', 'json', 'ckpt']}
KINDS = ['reject', 'reject', 'custom', 'list', 'small', 'frozen', 'again', 'dropout', 'builtin']


def cases(rng, tier):
  out = []
  for i in range(34 if tier == 'quick' else 700):
    sp = zoo.spec(rng, [FAMS[i % len(FAMS)]])
    pc = sp['fam'] in ('conv', 'convs') and rng.random() < .6
    out.append(dict(sp=sp, n=rng.choice([2, 3, 4, 4, 5, 8]), init=rng.choice(['LINEAR', 'RANDOM', 'DENSITY_BASED', 'KMEANS_PLUS_PLUS']),
                    pc=pc, agg=rng.choice(['SUM', 'SUM', 'AVG']), some=rng.random() < .3, preserve=rng.random() < .2,
                    fmt=rng.choice(FORMATS['other' if sp['fam'] in TF_OK else 'recurrent']),
                    when=rng.choice(['fresh', 'trained']), seed=rng.randrange(10**6), cost=3))
  out.append(dict(kind='savedmodel', cost=4))
  out += [dict(kind='losses', which=v, seed=rng.randrange(10**6)) for v in ('kernel', 'bias', 'activity')]
  for i in range(27 if tier == 'quick' else 300):
    out.append(dict(kind=KINDS[i % len(KINDS)], seed=rng.randrange(10**6), v=i // len(KINDS), u=[rng.randrange(2, 6) for _ in range(4)]))
  return out


CLUSTERED = {'kernel': ['Conv1D', 'Conv1DTranspose', 'Conv2D', 'Conv2DTranspose', 'Conv3D', 'Conv3DTranspose', 'Dense', 'LocallyConnected1D', 'LocallyConnected2D'],
             'pointwise_kernel': ['SeparableConv1D', 'SeparableConv2D'], 'embeddings': ['Embedding']}


def run_builtin(case, mon):
  """Every built-in layer that is documented to be supported."""
  from tensorflow_model_optimization.python.core.clustering.keras import cluster, cluster_config as cc
  k = zoo.K(); L = k.layers
  layers = list(zoo.builtin(case['seed'])) + [('Bidirectional', L.Bidirectional(L.GRU(3)), [c for n, _, c in zoo.builtin(case['seed']) if n == 'GRU'][0]),
                                              ('Conv1DTranspose', L.Conv1DTranspose(3, 2), [c for n, _, c in zoo.builtin(case['seed']) if n == 'Conv1D'][0])]
  for name, l, call in layers:
    m, x = call(l)
    zoo.randomize(m, case['seed'])
    if name == 'Lambda':
      continue
    try:
      c = cluster.cluster_weights(m, 3, cc.CentroidInitialization.LINEAR)
    except ValueError as e:
      mon.check('selection', False, lambda: '%s is not supported: %s' % (name, e))
      continue
    ws = wrappers(c)
    mon.event('built-in layers')
    want = next((1 for a in CLUSTERED.values() if name in a), {'GRU': 2, 'LSTM': 2, 'SimpleRNN': 2, 'Bidirectional': 4, 'MultiHeadAttention': 4}.get(name, 0))
    have = [w.original_clusterable_weights for w in ws]
    mon.check('selection', sum(len(h) for h in have) == want, lambda: '%s: clustered %s' % (name, [list(h) for h in have]))
    for attr, names in CLUSTERED.items():
      if name in names:
        mon.check('selection', [list(h) for h in have] == [[attr]], lambda: '%s: clustered %s' % (name, [list(h) for h in have]))
    y = zoo.outputs(c, x)
    if not want:
      mon.check('inference', zoo.close(y, zoo.outputs(m, x), 1e-6), lambda: '%s: another function' % name)
    st = cluster.strip_clustering(c)
    mon.check('inference', zoo.close(zoo.outputs(st, x), y, 1e-5), lambda: '%s: another function after stripping' % name)
    vals = [len(np.unique(w.numpy())) for w in st.weights if 'kernel' in w.name or 'embeddings' in w.name]
    mon.check('selection', sum(v <= 3 for v in vals) >= want, lambda: '%s: %s distinct values after stripping' % (name, vals))
  mon.nontrivial('builtin', case['seed'])


def wrappers(model):
  from tensorflow_model_optimization.python.core.clustering.keras import cluster_wrapper as cw
  return [l for l in zoo.all_layers(model) if isinstance(l, cw.ClusterWeights)]


def renamed(o):
  if isinstance(o, (list, tuple)):
    return [renamed(v) for v in o]
  if isinstance(o, dict):
    return {a: renamed(b) for a, b in o.items()}
  if isinstance(o, str):
    return o.replace('cluster_', '')
  return o


def run(case, mon):
  kind = case.get('kind')
  if kind:
    return globals()['run_' + kind](case, mon)
  import tensorflow as tf
  from tensorflow_model_optimization.python.core.keras.compat import keras
  from tensorflow_model_optimization.python.core.clustering.keras import cluster
  sp, n, init = case['sp'], case['n'], case['init']
  if case['preserve']:
    n, init = max(n, 3), 'LINEAR' if init == 'KMEANS_PLUS_PLUS' else init
  if init == 'KMEANS_PLUS_PLUS':
    n = max(2, min(n, clus.smallest(clus.build(sp)[0], case['pc'])))
  subset = None
  if case['some'] and sp['fam'] != 'nested':
    r = np.random.RandomState(case['seed'])
    names = {l.name: r.rand() < .5 for l in zoo.all_layers(clus.build(sp)[0])}
    order = list(names)
    pick = {i: names[q] for i, q in enumerate(order)}
    box = []
    def subset(l):
      if id(l) not in [q for q, _ in box]:
        box.append((id(l), pick.get(len(box), True)))
      return dict(box)[id(l)]
  rig = clus.Rig(sp, n, init, per_channel=case['pc'], agg=case['agg'], preserve=case['preserve'], subset=subset)
  m, x, t = rig.model, rig.x, rig.twin
  fam = sp['fam']
  # --- selection
  for l, vs, cl, tl, chosen in rig.leaves:
    w = rig.wrappers.get(id(l))
    if not chosen:
      mon.check('selection', w is None, lambda: '%s %s clustered though not asked' % (fam, l.name))
      continue
    have = list(w.original_clusterable_weights.values()) if w is not None else []
    mon.check('selection', len(have) == len(cl) and all(any(v is h for h in have) for v in cl.values()),
              lambda: '%s %s (%s): clustered %s, expected %s' % (fam, l.name, type(l).__name__, [v.name for v in have], list(cl)))
    if w is not None:
      mon.check('config', w.name == 'cluster_' + l.name and w.trainable == tl.trainable, lambda: '%s %s: wrapper %s' % (fam, l.name, w.name))
  for l, _, _, tl, _ in rig.leaves:
    a, b = l.get_config(), tl.get_config()
    a.pop('name'), b.pop('name')
    mon.check('config', repr(renamed(a)).replace(l.name, tl.name) == repr(renamed(b)) or a == b or type(l).__name__ in ('RNN', 'Bidirectional', 'LSTM', 'GRU', 'SimpleRNN', 'MultiHeadAttention'),
              lambda: '%s %s: configuration changed from %s to %s' % (fam, l.name, b, a))
  if all(not a.name[-1].isdigit() or fam in ('residual', 'two_in', 'probe', 'crossmha') for a in m.layers) and fam in ('residual', 'two_in', 'probe', 'crossmha'):
    mon.check('topology', renamed(c07.topology(m)) == renamed(c07.topology(t)), lambda: '%s: %s became %s' % (fam, c07.topology(t), c07.topology(m)))
  tv = t.get_weights()       # the values both had before wrapping
  i = 0
  same = True
  for l, vs, cl, tl, _ in rig.leaves:
    for v, q in zip(vs, tl.weights):
      same = same and np.array_equal(v.numpy(), q.numpy())
  mon.check('values-kept', same, lambda: '%s: wrapping changed weights' % fam)
  # --- history
  lr = .01
  m.compile(keras.optimizers.legacy.SGD(lr), 'mse')
  xs = x if isinstance(x, list) else [x]
  y = zoo.targets(m, len(xs[0]), case['seed'])
  if case['when'] == 'trained':
    m.fit(x, y, batch_size=4, epochs=2, verbose=0)
  if not all(np.isfinite(v).all() and np.abs(v).max(initial=0) < 1e4 for v in m.get_weights()):
    return
  # --- modes
  got = zoo.outputs(m, x)
  values = {}
  for it in rig.items():
    want, tie, _ = rig.assigned(it)
    if case['preserve']:
      values[id(it[3])] = np.asarray(it[1].get_weight_from_layer(it[5]))   # C12 judges these
    else:
      values[id(it[3])] = np.where(tie, np.asarray(it[1].get_weight_from_layer(it[5])), want)
  rig.sync(values)
  ref = zoo.outputs(t, x)
  mon.check('inference', zoo.close(got, ref, 2e-5), lambda: '%s: inference outputs differ from the plain model with the clustered weights' % fam)
  if fam in clus.STEADY:
    got = zoo.outputs(m, x, training=True)
    refp = zoo.outputs(t, x, training=True)
    mon.check('training-mode', zoo.close(got, refp, 2e-5), lambda: '%s: training-mode outputs differ from the plain model with the clustered weights' % fam)
    for l, vs, cl, tl, _ in rig.leaves:
      for v, q in zip(vs, tl.weights):
        if 'moving' in v.name:
          mon.check('statistics', np.allclose(v.numpy(), q.numpy(), atol=1e-5), lambda: '%s %s: batch statistics differ after a training-mode call' % (fam, l.name))
  got = zoo.outputs(m, x)
  mon.nontrivial(fam, case['pc'], case['agg'], init, case['when'], case['fmt'], case['some'], case['preserve'])
  mon.event('models')
  # --- save and load
  fmt = case['fmt']
  d = tempfile.mkdtemp(prefix='c14_')
  try:
    with cluster.cluster_scope(), keras.utils.custom_object_scope({'ModeProbe': clus.mode_probe()}):
      if fmt in ('h5', 'keras', 'tf'):
        p = os.path.join(d, 'm' if fmt == 'tf' else 'm.' + fmt)
        m.save(p, save_format=fmt)
        m2 = keras.models.load_model(p)
      elif fmt == 'json':
        m2 = keras.models.model_from_json(m.to_json())
        m2.set_weights(m.get_weights())
        old, new = wrappers(m), wrappers(m2)
        for a, b in zip(old, new):
          for v, q in zip(a.variables, b.variables):
            if v.shape == q.shape:
              q.assign(v)
      else:
        p = os.path.join(d, 'w.h5' if fmt == 'weights' else 'ck')
        m.save_weights(p)
        m2 = clus.Rig(sp, n, init, per_channel=case['pc'], agg=case['agg'], preserve=case['preserve'], subset=None).model if subset is None else None
        if m2 is None:
          return
        m2(x)
        m2.load_weights(p)
      m2.compile(keras.optimizers.legacy.SGD(lr), 'mse')
    old, new = wrappers(m), wrappers(m2)
    if mon.check('reload-settings', len(old) == len(new), lambda: '%s %s: %d clustered layers, %d after reloading' % (fam, fmt, len(old), len(new))):
      for a, b in zip(old, new):
        mon.check('reload-settings', type(a) is type(b) and a.name == b.name or fmt in ('weights', 'ckpt'), lambda: '%s %s: %s became %s' % (fam, fmt, a, b))
        mon.check('reload-settings', (a.number_of_clusters, a.cluster_centroids_init, a.preserve_sparsity, a.cluster_gradient_aggregation, a.cluster_per_channel) ==
                  (b.number_of_clusters, b.cluster_centroids_init, b.preserve_sparsity, b.cluster_gradient_aggregation, b.cluster_per_channel) and a.number_of_clusters == n
                  and b.cluster_centroids_init == rig.init, lambda: '%s %s %s: cluster settings changed' % (fam, fmt, a.name))
        for key, c in a.cluster_centroids.items():
          mon.check('reload-outputs', np.array_equal(c.numpy(), b.cluster_centroids[key].numpy()), lambda: '%s %s %s: centroids changed' % (fam, fmt, a.name))
          mon.check('reload-outputs', np.array_equal(a.original_clusterable_weights[key].numpy(), b.original_clusterable_weights[key].numpy()), lambda: '%s %s %s: unclustered weights changed' % (fam, fmt, a.name))
    back = zoo.outputs(m2, x)
    mon.check('reload-outputs', zoo.close(back, got, 1e-5), lambda: '%s %s: outputs changed by saving and loading' % (fam, fmt))
    if fam in clus.STEADY:
      l1, l2 = m.train_on_batch(x, y), m2.train_on_batch(x, y)
      mon.check('reload-training', np.allclose(l1, l2, rtol=1e-4, atol=1e-5), lambda: '%s %s: training loss %s, %s after reloading' % (fam, fmt, l1, l2))
      mon.check('reload-training', zoo.close(zoo.outputs(m2, x), zoo.outputs(m, x), 1e-3), lambda: '%s %s: a training step has another effect after reloading' % (fam, fmt))
    mon.event('reloads')
  finally:
    shutil.rmtree(d)


def run_reject(case, mon):
  from tensorflow_model_optimization.python.core.keras.compat import keras
  from tensorflow_model_optimization.python.core.clustering.keras import cluster, cluster_config as cc
  from tensorflow_model_optimization.python.core.clustering.keras.experimental import cluster as xc
  L = keras.layers
  CI = cc.CentroidInitialization
  u = case['u']

  class Own(L.Layer):
    def build(self, s):
      self.w = self.add_weight('w', (int(s[-1]), 3))
    def call(self, v):
      return v @ self.w

  class Cell(L.SimpleRNNCell):
    pass

  class Sub(keras.Model):
    def __init__(self):
      super().__init__()
      self.d = L.Dense(2)
    def call(self, v):
      return self.d(v)

  dense = lambda: keras.Sequential([L.Dense(u[0], input_shape=(u[1],)), L.Dense(u[2])])
  for n in (1, 0, -3):
    mon.raises('rejects', lambda: cluster.cluster_weights(dense(), n, CI.LINEAR), ValueError, '%d clusters' % n)
  for n in (2.5, '4', None, 4.0):
    mon.raises('rejects', lambda: cluster.cluster_weights(dense(), n, CI.LINEAR), (ValueError, TypeError), '%r clusters' % (n,))
  mon.raises('rejects', lambda: xc.cluster_weights(dense(), 2, CI.LINEAR, preserve_sparsity=True), ValueError, '2 clusters with sparsity')
  for bad in ('NO_SUCH', None, 7):
    mon.raises('rejects', lambda: cluster.cluster_weights(dense(), 4, bad), ValueError, 'initialisation %r' % (bad,))
  own = keras.Sequential([L.Dense(3, input_shape=(4,)), Own()])
  mon.raises('rejects', lambda: cluster.cluster_weights(own, 4, CI.LINEAR), ValueError, 'model with an unsupported layer')
  lay = Own()
  lay.build((None, 4))
  mon.raises('rejects', lambda: cluster.cluster_weights(lay, 4, CI.LINEAR), ValueError, 'unsupported layer')
  mon.raises('rejects', lambda: cluster.cluster_weights(L.RNN(Cell(4)), 4, CI.LINEAR), ValueError, 'unsupported cell')
  mon.raises('rejects', lambda: cluster.cluster_weights(L.RNN([L.GRUCell(2), Cell(4)]), 4, CI.LINEAR), ValueError, 'unsupported cell in a stack')
  mon.raises('rejects', lambda: cluster.cluster_weights(L.ConvLSTM2D(2, 2), 4, CI.LINEAR), ValueError, 'ConvLSTM2D')
  dw = keras.Sequential([L.PReLU(input_shape=(3,))])
  mon.raises('rejects', lambda: cluster.cluster_weights(dw, 4, CI.LINEAR), ValueError, 'PReLU')
  s = Sub()
  s(np.ones((1, 3), 'f'))
  mon.raises('rejects', lambda: cluster.cluster_weights(s, 4, CI.LINEAR), ValueError, 'subclassed model')
  mon.nontrivial('reject', tuple(u))


def run_custom(case, mon):
  """A layer that declares its clusterable weights, possibly with its own lookup."""
  import tensorflow as tf
  from tensorflow_model_optimization.python.core.keras.compat import keras
  from tensorflow_model_optimization.python.core.clustering.keras import cluster, cluster_config as cc, clusterable_layer, clustering_algorithm as ca
  L = keras.layers
  u, n = case['u'], 3
  own = case['v'] % 2

  class Shifted(ca.ClusteringAlgorithm):
    def get_pulling_indices(self, weight):
      idx = super().get_pulling_indices(weight)
      return (idx + 1) % n

  class Mine(L.Layer, clusterable_layer.ClusterableLayer):
    def build(self, s):
      self.a = self.add_weight('a', (int(s[-1]), u[0]), initializer='glorot_uniform')
      self.c = self.add_weight('c', (u[0],), initializer='glorot_uniform') if False else self.add_weight('c', (u[0],), initializer='ones')
      self.e = self.add_weight('e', (u[0], u[1]), initializer='glorot_uniform')
      super().build(s)
    def call(self, v):
      return ((v @ self.a) * self.c) @ self.e
    def get_clusterable_weights(self):
      return [('a', self.a)]
    def get_clusterable_algorithm(self, name):
      return Shifted if own else None
    def compute_output_shape(self, s):
      return tuple(s[:-1]) + (u[1],)

  x = np.random.RandomState(case['seed']).randn(6, u[2]).astype('f')
  m = keras.Sequential([Mine(input_shape=(u[2],), name='mine')])
  lay = m.layers[0]
  a, c, e = lay.a, lay.c, lay.e
  cm = cluster.cluster_weights(m, n, cc.CentroidInitialization.LINEAR)
  cm.compile(keras.optimizers.legacy.SGD(.05), 'mse')
  for step in range(3):
    got = np.asarray(cm(x))
    w = wrappers(cm)[0]
    mon.check('selection', list(w.original_clusterable_weights) == ['a'] and w.original_clusterable_weights['a'] is a, 'custom layer: %s' % list(w.original_clusterable_weights))
    cen = w.cluster_centroids['a'].numpy()
    _, tie, idx = clus.nearest(a.numpy(), cen)
    if tie.any():
      return
    if own:
      idx = (idx + 1) % n
    want = ((x @ cen[idx]) * c.numpy()) @ e.numpy()
    mon.check('custom', np.allclose(got, want, atol=1e-4 * (1 + np.abs(want).max())), lambda: 'custom layer (own lookup: %s): outputs differ after %d steps' % (own, step))
    e0, a0 = e.numpy(), a.numpy()
    cm.train_on_batch(x, np.random.RandomState(step).randn(6, u[1]))
    mon.check('custom', np.any(e.numpy() != e0) and np.any(a.numpy() != a0), 'custom layer: weights do not train')
  s = cluster.strip_clustering(cm) if case['v'] % 3 else None
  if s is not None:
    mon.check('custom', np.allclose(np.asarray(s(x)), np.asarray(cm(x)), atol=1e-4) and type(s.layers[0]).__name__ == 'Mine', 'custom layer: stripping changes outputs')
  mon.nontrivial('custom', own, tuple(u))


def run_list(case, mon):
  from tensorflow_model_optimization.python.core.keras.compat import keras
  from tensorflow_model_optimization.python.core.clustering.keras import cluster, cluster_config as cc, cluster_wrapper as cw
  L = keras.layers
  u = case['u']
  layers = [L.Dense(u[0], input_shape=(u[1],)), L.ReLU(), L.Dense(u[2], use_bias=False)]
  out = cluster.cluster_weights(layers, 3, cc.CentroidInitialization.LINEAR)
  mon.check('selection', isinstance(out, list) and len(out) == 3 and all(isinstance(o, cw.ClusterWeights) and o.layer is l for o, l in zip(out, layers)), 'list of layers')
  m = keras.Sequential(out)
  x = np.random.RandomState(case['seed']).randn(5, u[1]).astype('f')
  got = np.asarray(m(x))
  ks = []
  for o in (out[0], out[2]):
    v = o.original_clusterable_weights['kernel'].numpy()
    val, tie, _ = clus.nearest(v, o.cluster_centroids['kernel'].numpy())
    if tie.any():
      return
    ks.append(val)
  h = np.maximum(x @ ks[0] + layers[0].bias.numpy(), 0) @ ks[1]
  mon.check('inference', np.allclose(got, h, atol=1e-4), 'list of clustered layers: outputs')
  one = cluster.cluster_weights(L.Dense(u[0]), 4, cc.CentroidInitialization.LINEAR)
  mon.check('selection', isinstance(one, cw.ClusterWeights) and one.number_of_clusters == 4, 'single layer')
  mon.nontrivial('list', tuple(u))


def run_small(case, mon):
  """A Conv2D with no more weights than clusters is left alone, with a warning."""
  from tensorflow_model_optimization.python.core.keras.compat import keras
  from tensorflow_model_optimization.python.core.clustering.keras import cluster_config as cc, cluster_wrapper as cw
  from tensorflow_model_optimization.python.core.clustering.keras.experimental import cluster as xc
  L = keras.layers
  u, pc = case['u'], case['v'] % 2
  bias = case['seed'] % 2 == 0
  m = keras.Sequential([L.Conv2D(u[0], 2, use_bias=bias, input_shape=(4, 4, u[1])), L.Flatten(), L.Dense(2)])
  per = 4 * u[1] if pc else 4 * u[1] * u[0]
  for n in (per - 1, per, per + 1):
    m = keras.models.clone_model(m)
    with warnings.catch_warnings(record=True) as seen:
      warnings.simplefilter('always')
      c = xc.cluster_weights(m, n, cc.CentroidInitialization.LINEAR, cluster_per_channel=bool(pc))
    clustered = isinstance(c.layers[0], cw.ClusterWeights)
    mon.check('skipped', clustered == (per > n), lambda: 'Conv2D with %d weights%s (bias %s) for %d clusters: clustered=%s' % (per, ' per channel' if pc else '', bias, n, clustered))
    if not clustered:
      mon.check('skipped', any('enough weights' in str(w.message) for w in seen), 'no warning about the skipped layer')
    x = np.random.RandomState(case['seed']).randn(3, 4, 4, u[1]).astype('f')
    mon.check('skipped', np.isfinite(np.asarray(c(x))).all())
  mon.nontrivial('small', pc, bias, tuple(u))


def run_frozen(case, mon):
  from tensorflow_model_optimization.python.core.keras.compat import keras
  from tensorflow_model_optimization.python.core.clustering.keras import cluster, cluster_config as cc
  L = keras.layers
  u = case['u']
  x = np.random.RandomState(case['seed']).randn(5, u[1]).astype('f')
  m = keras.Sequential([L.Dense(u[0] + 3, trainable=False, input_shape=(u[1],)), L.Dense(u[2] + 1)])
  k0 = m.layers[0].kernel.numpy()
  c = cluster.cluster_weights(m, 3, cc.CentroidInitialization.LINEAR)
  c(x)
  w = wrappers(c)[0]
  mon.check('selection', not w.original_clusterable_weights and not w.trainable, 'frozen layer clustered')
  mon.check('values-kept', np.array_equal(np.asarray(w.layer.kernel), k0), 'frozen layer changed')
  c.compile('sgd', 'mse')
  c.fit(x, np.zeros((5, u[2] + 1)), verbose=0)
  mon.check('values-kept', np.array_equal(np.asarray(w.layer.kernel), k0), 'frozen layer trained')
  mon.nontrivial('frozen', tuple(u))


def run_again(case, mon):
  """Clustered layers inside a model are left alone when the model is clustered."""
  from tensorflow_model_optimization.python.core.keras.compat import keras
  from tensorflow_model_optimization.python.core.clustering.keras import cluster, cluster_config as cc
  L = keras.layers
  u = case['u']
  CI = cc.CentroidInitialization
  first = cluster.cluster_weights(L.Dense(u[0] + 2, input_shape=(u[1],)), 2, CI.LINEAR)
  again = cluster.cluster_weights(first, 5, CI.RANDOM)
  mon.check('selection', again is first, 'a clustered layer was clustered again')
  mon.nontrivial('again', tuple(u))


def run_dropout(case, mon):
  """Random layers are random in training, silent in inference."""
  from tensorflow_model_optimization.python.core.keras.compat import keras
  from tensorflow_model_optimization.python.core.clustering.keras import cluster, cluster_config as cc
  L = keras.layers
  u = case['u']
  which = [L.Dropout(.5), L.GaussianNoise(1.), L.SpatialDropout1D(.5), L.GaussianDropout(.5), L.AlphaDropout(.5)][case['v'] % 5]
  m = keras.Sequential([L.Dense(16, input_shape=(6, u[1])), which, L.LSTM(u[0], dropout=.3, recurrent_dropout=.2) if case['seed'] % 2 else L.Flatten(), L.Dense(4)])
  x = np.random.RandomState(case['seed']).randn(16, 6, u[1]).astype('f')
  c = cluster.cluster_weights(m, 4, cc.CentroidInitialization.LINEAR)
  a, b, e = np.asarray(c(x, training=True)), np.asarray(c(x, training=True)), np.asarray(c(x, training=False))
  name = type(which).__name__
  mon.check('training-mode', np.any(a != b) and np.any(a != e), '%s is silent in training' % name)
  mon.check('inference', np.array_equal(e, np.asarray(c(x, training=False))) and np.array_equal(e, np.asarray(c(x))), '%s is random in inference' % name)
  p = c.predict(x, verbose=0)
  mon.check('inference', np.allclose(p, e, atol=1e-5), '%s: predict differs from inference' % name)
  mon.nontrivial('dropout', name, case['seed'] % 2)


def run_losses(case, mon):
  """Regularization losses of clustered layers (the weights are two values, which two centroids keep)."""
  from tensorflow_model_optimization.python.core.keras.compat import keras
  from tensorflow_model_optimization.python.core.clustering.keras import cluster, cluster_config as cc
  L = keras.layers
  r = np.random.RandomState(case['seed'])
  x, y = r.randn(4, 3).astype('f'), np.zeros((4, 2), 'f')
  m = keras.Sequential([L.Dense(5, input_shape=(3,), **{case['which'] + '_regularizer': keras.regularizers.L2(.1)}), L.Dense(2)])
  m.set_weights([np.where(r.rand(*v.shape) < .5, -.5, 1.).astype('f') if v.ndim == 2 else r.randn(*v.shape).astype('f') for v in m.get_weights()])
  m.compile('sgd', 'mse', run_eagerly=True)
  want = m.evaluate(x, y, verbose=0)
  c = cluster.cluster_weights(m, number_of_clusters=2, cluster_centroids_init=cc.CentroidInitialization.LINEAR)
  c.compile('sgd', 'mse', run_eagerly=True)
  try:
    got = c.evaluate(x, y, verbose=0)
  except TypeError as e:
    got = repr(e)[:300]
  mon.check('losses', not isinstance(got, str) and np.isclose(got, want, rtol=1e-4), lambda: 'a model with a %s regularizer has loss %s after clustering instead of %s' % (case['which'], got, want),
            mechanism='activity-regularizer' if case['which'] == 'activity' else None)
  mon.nontrivial('losses', case['which'])


def run_savedmodel(case, mon):
  """SavedModels of clustered layers whose call is traced on its own."""
  from tensorflow_model_optimization.python.core.keras.compat import keras
  from tensorflow_model_optimization.python.core.clustering.keras import cluster, cluster_config as cc
  L = keras.layers
  makers = dict(SeparableConv2D=lambda: L.SeparableConv2D(4, 2, input_shape=(4, 4, 2)), Conv2DTranspose=lambda: L.Conv2DTranspose(3, 2, input_shape=(4, 4, 2)),
                LSTM=lambda: L.LSTM(3, input_shape=(4, 3)), Conv2D=lambda: L.Conv2D(3, 2, input_shape=(4, 4, 2)), Dense=lambda: L.Dense(4, input_shape=(5,)))
  d = tempfile.mkdtemp(prefix='c14_')
  try:
    for name, mk in makers.items():
      c = cluster.cluster_weights(keras.Sequential([mk()]), 4, cc.CentroidInitialization.LINEAR)
      x = np.random.RandomState(3).randn(2, *c.input_shape[1:]).astype('f')
      want = np.asarray(c(x))
      try:
        p = os.path.join(d, name)
        c.save(p, save_format='tf')
        with cluster.cluster_scope():
          r = keras.models.load_model(p)
        ok, err = np.allclose(np.asarray(r(x)), want, atol=1e-5), 'other outputs'
      except ValueError as e:
        ok, err = False, str(e)[:300]
      mech = 'savedmodel:captured-kernel:' + name if 'captures graph tensor' in str(err) else None
      mon.check('reload-outputs', ok, lambda: 'SavedModel of a clustered %s: %s' % (name, err), mechanism=mech)
      mon.nontrivial('savedmodel', name)
  finally:
    shutil.rmtree(d)
