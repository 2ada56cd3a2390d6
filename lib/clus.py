"""Shared pieces of the clustering monitors (C10-C15).

The oracle never uses the clustering code: it reads the unclustered weights and
the centroids, assigns each element to its nearest centroid in numpy and feeds
the result to an independently built, never clustered twin model.
"""
import numpy as np
from lib import zoo

FAMS = ['mlp', 'mlp_mode', 'conv', 'conv_sep', 'conv1d', 'conv3d', 'residual', 'two_in', 'nested', 'lstm', 'gru', 'rnn',
        'stacked', 'embed', 'mha', 'bidir', 'probe', 'convs', 'masked', 'crossmha', 'convx']
RECURRENT = ('lstm', 'gru', 'rnn', 'stacked', 'bidir', 'masked')
# families whose training step is deterministic (no dropout)
STEADY = [f for f in FAMS if f not in ('mlp_mode', 'conv')]

_KERNEL = {'Conv1D': 'kernel', 'Conv1DTranspose': 'kernel', 'Conv2D': 'kernel', 'Conv2DTranspose': 'kernel', 'Conv3D': 'kernel',
           'Conv3DTranspose': 'kernel', 'Dense': 'kernel', 'LocallyConnected1D': 'kernel', 'LocallyConnected2D': 'kernel',
           'SeparableConv1D': 'pointwise_kernel', 'SeparableConv2D': 'pointwise_kernel', 'Embedding': 'embeddings'}
_PROBE = None


def mode_probe():
  """A weightless layer that shows which mode it is called in."""
  global _PROBE
  if _PROBE is None:
    k = zoo.K()
    import tensorflow as tf

    class ModeProbe(k.layers.Layer):

      def call(self, inputs, training=None):
        if training is None:
          training = k.backend.learning_phase()
        return inputs * (1. + 2. * tf.cast(training, inputs.dtype))

      def compute_output_shape(self, s):
        return s

    _PROBE = ModeProbe
  return _PROBE


def build(sp):
  k = zoo.K()
  L = k.layers
  u, b, fam = sp['u'], sp['b'], sp['fam']
  r = np.random.RandomState(sp['seed'] + 11)
  if fam == 'bidir':
    cell = [L.LSTM, L.GRU, L.SimpleRNN][u[5] % 3]
    m = k.Sequential([L.Bidirectional(cell(u[0], return_sequences=b[0], use_bias=b[1]), merge_mode='sum' if b[2] else 'concat',
                                      input_shape=(4, u[1])), L.Flatten(), L.Dense(u[2])])
    x = r.randn(8, 4, u[1])
  elif fam == 'probe':
    P = mode_probe()
    i = L.Input((u[0],), name='pi')
    t = L.Dense(u[1], name='p1', activation='tanh')(i)
    t = P(name='pp')(t)
    t = L.BatchNormalization(name='pbn', momentum=.7)(t)
    t = L.Dense(u[2], name='p2', use_bias=b[0])(t)
    if b[1]:
      t = L.LayerNormalization(name='pln')(t)
    m = k.Model(i, L.Dense(u[3], name='p3')(t))
    x = r.randn(8, u[0])
  elif fam == 'convs':
    m = k.Sequential([L.Conv2D(u[0], 3, strides=1 + b[0], padding='same', use_bias=b[1], activation='tanh', input_shape=(6, 6, u[1])),
                      L.Conv2D(u[2], 1 + b[2], use_bias=b[3]), L.BatchNormalization(momentum=.6), L.ReLU(6.),
                      L.Conv2DTranspose(u[3], 2, use_bias=b[4]), L.DepthwiseConv2D(2), L.GlobalAveragePooling2D(), L.Dense(u[4])])
    x = r.randn(8, 6, 6, u[1])
  elif fam == 'masked':
    m = k.Sequential([L.Embedding(9, u[0], mask_zero=True, input_length=6), L.Dense(u[1]),
                      [L.LSTM, L.GRU, L.SimpleRNN][u[2] % 3](u[3]), L.Dense(u[4])])
    x = r.randint(1, 9, size=(8, 6))
    x[np.arange(6)[None] >= r.randint(1, 6, size=(8, 1))] = 0
  elif fam == 'crossmha':
    i, j = L.Input((4, u[0]), name='xi'), L.Input((3, u[1]), name='xj')
    o = L.MultiHeadAttention(2, u[2], value_dim=u[3], use_bias=b[1], name='xmha')(i, j)
    m = k.Model([i, j], L.Dense(u[4], name='xo')(L.Add(name='xa')([o, i])))
    x = [r.randn(8, 4, u[0]), r.randn(8, 3, u[1])]
  elif fam == 'convx':
    m = k.Sequential([L.LocallyConnected2D(u[0], 2, input_shape=(5, 5, u[1])), L.Reshape((16, u[0])),
                      L.Conv1DTranspose(u[2], 2, use_bias=b[0]), L.GlobalAveragePooling1D(), L.Dense(u[3])])
    x = r.randn(8, 5, 5, u[1])
  else:
    return zoo.build(sp)
  zoo.randomize(m, sp['seed'])
  x = [np.asarray(v, 'f') for v in x] if isinstance(x, list) else np.asarray(x, 'f')
  return m, x


def clusterable(layer, n=0, per_channel=False):
  """Independent table: path -> variable of the weights that get clustered."""
  k = zoo.K()
  name = type(layer).__name__
  if name == 'Bidirectional':
    cells = [layer.forward_layer.cell, layer.backward_layer.cell]
  elif isinstance(layer, k.layers.RNN):
    cells = list(layer.cell.cells) if type(layer.cell).__name__ == 'StackedRNNCells' else [layer.cell]
  else:
    cells = []
  if cells:
    return {'%s/%d' % (a, i): getattr(c, a) for i, c in enumerate(cells) for a in ('kernel', 'recurrent_kernel')}
  if name == 'MultiHeadAttention':
    return {'%s/kernel' % a: getattr(layer, a).kernel for a in ('_query_dense', '_key_dense', '_value_dense', '_output_dense')}
  if not layer.trainable_weights or name not in _KERNEL:
    return {}
  v = getattr(layer, _KERNEL[name])
  if name in ('Conv2D', 'Conv2DTranspose'):
    have = int(np.prod(v.shape)) / (int(v.shape[-1]) if per_channel else 1)
    if have <= n:
      return {}
  return {_KERNEL[name]: v}


class Rig:
  """A clustered model, how it was made, and its plain twin."""

  def __init__(self, sp, n, init='LINEAR', preserve=False, per_channel=False, agg='SUM', zeros=0., subset=None, built_twin=True):
    from tensorflow_model_optimization.python.core.clustering.keras import cluster_config as cc
    from tensorflow_model_optimization.python.core.clustering.keras import cluster
    from tensorflow_model_optimization.python.core.clustering.keras.experimental import cluster as xcluster
    k = zoo.K()
    self.n, self.per_channel, self.preserve, self.agg = n, per_channel, preserve, agg
    self.base, self.x = build(sp)
    self.twin, _ = build(sp)
    r = np.random.RandomState(sp['seed'] + 5)
    self.leaves = []                 # (plain layer, its variables in order, path -> clustered variable, twin layer)
    for l, t in zip(zoo.all_layers(self.base), zoo.all_layers(self.twin)):
      chosen = subset is None or subset(l)
      clus = clusterable(l, n, per_channel and type(l).__name__ in ('Conv2D', 'Conv2DTranspose')) if chosen else {}
      self.leaves.append((l, list(l.weights), clus, t, chosen))
      if zeros:
        for v in clus.values():
          a = v.numpy()
          a[r.rand(*a.shape) < zeros] = 0
          v.assign(a)
    self.twin.set_weights(self.base.get_weights())
    ini = getattr(cc.CentroidInitialization, init)
    kw = {}
    if agg != 'SUM':
      kw['cluster_gradient_aggregation'] = getattr(cc.GradientAggregation, agg)
    if preserve or per_channel:
      fn = lambda o: xcluster.cluster_weights(o, n, ini, preserve_sparsity=preserve, cluster_per_channel=per_channel, **kw)
    else:
      fn = lambda o: cluster.cluster_weights(o, n, ini, **kw)
    self.init = ini
    if subset is None:
      self.model = fn(self.base)
    else:
      def clone(l):
        if isinstance(l, k.Model):
          return k.models.clone_model(l, clone_function=clone)
        if subset(l):
          return fn(l)
        return l
      self.model = k.models.clone_model(self.base, clone_function=clone)
    self._find()

  def _find(self):
    """Matches the wrappers to the plain layers they hold."""
    from tensorflow_model_optimization.python.core.clustering.keras import cluster_wrapper as cw
    self.wrappers = {}
    for l in zoo.all_layers(self.model):
      if isinstance(l, cw.ClusterWeights):
        self.wrappers[id(l.layer)] = l

  def items(self):
    """(plain layer, wrapper, path, unclustered variable, centroid variable, key)."""
    out = []
    for l, _, clus, _, _ in self.leaves:
      w = self.wrappers.get(id(l))
      for path, v in clus.items():
        if w is None:
          continue
        for key, o in w.original_clusterable_weights.items():
          if o is v:
            out.append((l, w, path, v, w.cluster_centroids[key], key))
    return out

  def assigned(self, item, masks=None):
    """(nearest-centroid tensor, near-tie mask, index tensor) from the current variables, in numpy."""
    l, w, path, v, c, key = item
    a, c = v.numpy(), c.numpy()
    if masks is not None:
      a = a * masks[id(v)]
    return nearest(a, c)

  def sync(self, values=None):
    """Gives the twin the clustered weights and the current other weights."""
    eff = {}
    for it in self.items():
      eff[id(it[3])] = values[id(it[3])] if values is not None else self.assigned(it)[0]
    for l, vs, _, t, _ in self.leaves:
      if vs:
        t.set_weights([eff[id(v)] if id(v) in eff else v.numpy() for v in vs])
    return eff


def nearest(a, c):
  """Nearest centroid of every element; c is (n,) or (channels, n) for the last axis."""
  wide = np.asarray(a, np.float64)[..., None]
  if c.ndim == 1:
    d = np.abs(wide - c)
    i = np.argmin(d, -1)
    val = c[i]
    s = np.sort(d, -1)
  else:
    d = np.abs(wide - c)            # (..., ch, n)
    i = np.argmin(d, -1)
    ch = np.broadcast_to(np.arange(c.shape[0]), a.shape)
    val = c[ch, i]
    s = np.sort(d, -1)
  tie = (s[..., 1] - s[..., 0] <= 1e-6 * (s[..., 1] + s[..., 0])) if s.shape[-1] > 1 else np.zeros(a.shape, bool)
  return val, tie, i


def distinct(a, per_channel):
  if per_channel:
    return max(len(np.unique(a[..., j])) for j in range(a.shape[-1]))
  return len(np.unique(a))


def is_pc(rig, layer):
  return rig.per_channel and type(layer).__name__ in ('Conv2D', 'Conv2DTranspose')


def smallest(sp_model, per_channel=False):
  sizes = []
  for l in zoo.all_layers(sp_model):
    for v in clusterable(l).values():
      pc = per_channel and type(l).__name__ in ('Conv2D', 'Conv2DTranspose')
      sizes.append(int(np.prod(v.shape)) // (int(v.shape[-1]) if pc else 1))
  return min(sizes) if sizes else 0
