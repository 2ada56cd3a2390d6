"""C08: wrapping for pruning selects prunable weights and is transparent."""
import numpy as np
from checks import c05
from lib import zoo

PROP = 'C08'
CLAUSES = ['selection', 'rejects', 'function', 'training-mode', 'trainables', 'losses', 'shapes', 'values-kept', 'training-same']
RULE = ('one case = a random model wrapped as a whole, layer by layer, or as a list (or a custom / recurrent-cell / unsupported '
        'layer), compared with an independently built unwrapped twin: selection of masked variables against an independent '
        'table, inference and training outputs, losses and a few training steps; non-trivial = distinct (family, options, mode)')

FAMS = ['mlp', 'mlp_mode', 'conv', 'conv_sep', 'conv1d', 'conv3d', 'residual', 'two_in', 'nested', 'lstm', 'gru', 'rnn',
        'stacked', 'embed', 'mha', 'masked', 'regular', 'misc', 'statefulrnn', 'rnnstate', 'crossmha']
KINDS = ['custom', 'cell', 'unsupported', 'list', 'subclassed', 'badcell', 'bidir', 'ducktyped', 'layerkw', 'actreg', 'builtin']

KERNEL = {'kernel': ['Conv1D', 'Conv2D', 'Conv2DTranspose', 'Conv3D', 'Conv3DTranspose', 'Dense', 'LocallyConnected1D',
                     'LocallyConnected2D'],
          'pointwise_kernel': ['SeparableConv1D', 'SeparableConv2D'], 'embeddings': ['Embedding']}


def cases(rng, tier):
  out = []
  for i in range(63 if tier == 'quick' else 1000):
    sp = zoo.spec(rng, [FAMS[i % len(FAMS)]])
    out.append(dict(kind='model', sp=sp, how=rng.choice(['model', 'model', 'layers']), opt=rng.choice(['sgd', 'adam']), cost=3))
  for i in range(22 if tier == 'quick' else 200):
    out.append(dict(kind=KINDS[i % len(KINDS)], seed=rng.randrange(10**6), u=[rng.randrange(2, 6) for _ in range(4)], v=rng.randrange(4)))
  return out


def build(sp):
  """zoo.build plus families only used here."""
  k = zoo.K()
  L = k.layers
  u, b, fam = sp['u'], sp['b'], sp['fam']
  r = np.random.RandomState(sp['seed'] + 1)
  if fam == 'masked':
    if b[0]:
      m = k.Sequential([L.Embedding(9, u[0], mask_zero=True, input_length=6), L.Dense(u[1]) if b[1] else L.Activation('tanh'),
                        [L.LSTM, L.GRU, L.SimpleRNN][u[2] % 3](u[3], return_sequences=b[2]),
                        L.GlobalAveragePooling1D() if b[2] else L.ReLU(), L.Dense(u[4])])
      x = r.randint(1, 9, size=(8, 6))
      x[np.arange(6)[None] >= r.randint(1, 6, size=(8, 1))] = 0
    else:
      m = k.Sequential([L.Masking(0., input_shape=(6, u[0])), L.Dense(u[1]) if b[1] else L.Dropout(.3), L.GRU(u[2]), L.Dense(u[3])])
      x = r.randn(8, 6, u[0])
      x[np.arange(6)[None] >= r.randint(1, 6, size=(8, 1))] = 0
  elif fam == 'regular':
    m = k.Sequential([L.Dense(u[0], input_shape=(u[1],), kernel_regularizer=k.regularizers.L1(0.1), bias_regularizer='l2',
                              kernel_constraint='non_neg' if b[0] else None),
                      L.BatchNormalization(gamma_regularizer='l2'), L.Dense(u[2], kernel_regularizer='l2', trainable=b[1]), L.Dense(u[3], use_bias=b[2])])
    x = r.randn(8, u[1])
  elif fam == 'misc':
    i = L.Input((6, 6, u[0]))
    t = L.ZeroPadding2D()(i)
    t = L.Cropping2D(1)(t)
    t = L.LocallyConnected2D(u[1], 2)(t) if b[0] else L.Conv2D(u[1], 2)(t)
    t = L.UpSampling2D()(t)
    t = L.Maximum()([t, L.LeakyReLU()(t)]) if b[1] else L.Average()([t, L.ELU()(t)])
    t = L.Softmax()(t)
    t = L.SpatialDropout2D(.2)(t) if b[2] else L.GaussianNoise(.1)(t)
    t = L.Reshape((-1, u[1]))(t)
    t = L.Permute((2, 1))(t)
    t = L.Subtract()([t, L.AlphaDropout(.1)(t)]) if b[3] else L.Minimum()([t, L.ThresholdedReLU()(t)])
    t = L.Flatten()(t)
    t = L.RepeatVector(2)(t) if b[4] else L.Lambda(lambda v: v * 2.)(t)
    m = k.Model(i, L.Dense(u[2])(t))
    x = r.randn(8, 6, 6, u[0])
  elif fam == 'statefulrnn':
    m = k.Sequential([[L.LSTM, L.GRU][b[0]](u[0], stateful=True, go_backwards=b[1], unroll=b[2], dropout=.2 * b[3], batch_input_shape=(8, 4, u[1])), L.Dense(u[2])])
    x = r.randn(8, 4, u[1])
  elif fam == 'rnnstate':
    i, h = L.Input((4, u[0])), L.Input((u[1],))
    o, s = L.GRU(u[1], return_state=True, return_sequences=b[0])(i, initial_state=h)
    m = k.Model([i, h], [o, L.Dense(u[2])(s)])
    x = [r.randn(8, 4, u[0]), r.randn(8, u[1])]
  elif fam == 'crossmha':
    i, j = L.Input((4, u[0])), L.Input((3, u[1]))
    o = L.MultiHeadAttention(2, u[2], value_dim=u[3], dropout=.3 * b[0], use_bias=b[1])(i, j, return_attention_scores=b[2])
    m = k.Model([i, j], o)
    x = [r.randn(8, 4, u[0]), r.randn(8, 3, u[1])]
  else:
    return zoo.build(sp)
  zoo.randomize(m, sp['seed'])
  if fam == 'regular' and b[0]:
    m.layers[0].kernel.assign(np.abs(m.layers[0].kernel))
  x = [np.asarray(v, 'f') for v in x] if isinstance(x, list) else np.asarray(x, 'f')
  return m, x


def cell_weights(cell):
  if hasattr(cell, 'cells'):
    return [w for c in cell.cells for w in cell_weights(c)]
  return [cell.kernel, cell.recurrent_kernel]


def expected(layer):
  """Independent statement of which variables are pruned."""
  n = type(layer).__name__
  for attr, names in KERNEL.items():
    if n in names:
      return [getattr(layer, attr)]
  if n in ('LSTM', 'GRU', 'SimpleRNN', 'RNN'):
    return cell_weights(layer.cell)
  if n == 'MultiHeadAttention':
    return [w for w in layer.weights if w.name.endswith('kernel:0')]
  return []


def run(case, mon):
  import tensorflow as tf
  from tensorflow_model_optimization.python.core.keras.compat import keras
  from tensorflow_model_optimization.python.core.sparsity.keras import prune, pruning_callbacks, pruning_schedule as ps, pruning_wrapper, prunable_layer
  sch = ps.ConstantSparsity(0.5, 10**6)
  wrapper = pruning_wrapper.PruneLowMagnitude
  L = keras.layers
  if case['kind'] == 'model':
    sp = case['sp']
    base, x = build(sp)
    twin, _ = build(sp)
    for v, w in zip(twin.weights, base.weights):
      v.assign(w)
    originals = zoo.all_layers(base)
    if case['how'] == 'model':
      model = prune.prune_low_magnitude(base, sch)
    else:
      def fn(l):
        if isinstance(l, keras.Model):
          return keras.models.clone_model(l, clone_function=fn)
        return prune.prune_low_magnitude(l, sch) if not isinstance(l, L.InputLayer) else l
      model = keras.models.clone_model(base, clone_function=fn)
    wrapped = [l for l in zoo.all_layers(model) if not isinstance(l, L.InputLayer)]
    plain = [l for l in originals if not isinstance(l, L.InputLayer)]
    tplain = [l for l in zoo.all_layers(twin) if not isinstance(l, L.InputLayer)]
    mon.check('selection', len(wrapped) == len(plain) and all(isinstance(l, wrapper) for l in wrapped), 'every layer is wrapped')
    for l, p in zip(wrapped, plain):
      mon.check('selection', type(l.layer) is type(p) and l.layer.name == p.name, lambda: '%s wraps %s' % (l.name, p.name))
      want = [id(w) for w in expected(l.layer)]
      got = [id(w) for w, _, _ in l.pruning_vars]
      mon.check('selection', sorted(want) == sorted(got), lambda: '%s prunes %s' % (l.name, [w.name for w, _, _ in l.pruning_vars]))
      for w, m_, t_ in l.pruning_vars:
        mon.event('masked-variables')
        mon.check('selection', m_.shape == w.shape and np.all(m_.numpy() == 1) and not m_.trainable and not t_.trainable, lambda: '%s: initial mask' % l.name)
    tv = [(v.shape, v.dtype) for v in twin.trainable_variables]
    mon.check('trainables', [(v.shape, v.dtype) for v in model.trainable_variables] == tv and all(
        np.array_equal(a, b) for a, b in zip(model.trainable_variables, twin.trainable_variables)), 'trainable variables differ')
    iv = [w for l in wrapped for w in l.layer.weights]
    pv = [w for l in tplain for w in l.weights]
    mon.check('values-kept', len(iv) == len(pv) and all(np.array_equal(a, b) for a, b in zip(iv, pv)), 'weight values changed by wrapping')
    mon.check('shapes', [o.shape.as_list() for o in model.outputs] == [o.shape.as_list() for o in twin.outputs]
              and [o.shape.as_list() for o in model.inputs] == [o.shape.as_list() for o in twin.inputs], 'input or output shapes differ')
    for l, p in zip(wrapped, plain):
      if hasattr(p, 'input_shape') and isinstance(p.input_shape, tuple) and type(p).__name__ != 'MultiHeadAttention':
        mon.check('shapes', tuple(l.compute_output_shape(p.input_shape)) == tuple(p.compute_output_shape(p.input_shape)), 'compute_output_shape')
    for _ in range(2 if sp['fam'] == 'statefulrnn' else 1):
      tf.random.set_seed(sp['seed']); a = zoo.outputs(model, x)
      tf.random.set_seed(sp['seed']); b = zoo.outputs(twin, x)
      mon.check('function', zoo.close(a, b, 1e-6), 'inference outputs differ')
      mon.event('inference-compared')
    if not all(l.pruning_vars == [] for l in wrapped) and sp['fam'] != 'stacked':
      pass
    for l in wrapped:
      l.pruning_step.assign(0)
    tf.random.set_seed(sp['seed']); a = zoo.outputs(model, x, training=True)
    tf.random.set_seed(sp['seed']); b = zoo.outputs(twin, x, training=True)
    mon.check('training-mode', zoo.close(a, b, 1e-6), 'training-mode outputs differ')
    iv = [w for l in wrapped for w in l.layer.weights]
    mon.check('training-mode', zoo.close([w.numpy() for w in iv], [w.numpy() for w in pv], 1e-6), 'weights or statistics after a training call differ')
    la, lb = [float(v) for v in model.losses], [float(v) for v in twin.losses]
    mon.check('losses', np.allclose(sorted(la), sorted(lb), rtol=1e-5, atol=1e-6), lambda: 'losses %r vs %r' % (la, lb))
    # A few training steps: no mask is ever computed, so both must agree.
    y = zoo.targets(twin, 8, sp['seed'])
    for m in (model, twin):
      tf.random.set_seed(sp['seed'] + 1)
      m.compile(dict(sgd=lambda: keras.optimizers.SGD(0.05, clipnorm=1.), adam=lambda: keras.optimizers.Adam(0.01))[case['opt']](), 'mse', run_eagerly=True)
      if m is model:
        h1 = m.fit(x, y, batch_size=8, epochs=2, verbose=0, shuffle=False, callbacks=[pruning_callbacks.UpdatePruningStep()])
      else:
        h2 = m.fit(x, y, batch_size=8, epochs=2, verbose=0, shuffle=False)
    mon.check('training-same', np.allclose(h1.history['loss'], h2.history['loss'], rtol=1e-4, atol=1e-5), lambda: 'losses %r vs %r' % (h1.history, h2.history))
    mon.check('training-same', zoo.close([w.numpy() for w in iv], [w.numpy() for w in pv], 3e-4), 'weights after training differ')
    mon.event('training-steps', 2)
    mon.nontrivial(sp['fam'], sp['b'], sp['act'], case['how'], case['opt'])
    mon.sample = dict(fam=sp['fam'], layers=[type(l.layer).__name__ for l in wrapped][:8])
    return
  u, v = case['u'], case['v']
  r = np.random.RandomState(case['seed'])

  class Plain(L.Layer):
    def build(self, s):
      self.a = self.add_weight('a', (int(s[-1]), u[0]))
      self.c = self.add_weight('c', (u[0], u[1]))
      self.bias = self.add_weight('bias', (u[1],))
    def call(self, t):
      return tf.matmul(tf.matmul(t, self.a), self.c) + self.bias

  class Declared(Plain, prunable_layer.PrunableLayer):
    def get_prunable_weights(self):
      return [[self.a], [self.c], [self.a, self.c], []][v]

  class Duck(Plain):
    def get_prunable_weights(self):
      return [[self.c], [self.a], [self.c, self.a], []][v]

  class Cell(L.SimpleRNNCell, prunable_layer.PrunableLayer):
    def get_prunable_weights(self):
      return [[self.kernel], [self.recurrent_kernel], [self.kernel, self.recurrent_kernel], []][v]

  class BadCell(L.SimpleRNNCell):
    pass

  class Sub(keras.Model):
    def __init__(self):
      super().__init__()
      self.d = L.Dense(2)
    def call(self, t):
      return self.d(t)

  P = lambda l, **kw: prune.prune_low_magnitude(l, sch, **kw)
  kind = case['kind']
  x = r.randn(5, u[2]).astype('f')
  if kind in ('custom', 'ducktyped'):
    layer = (Declared if kind == 'custom' else Duck)()
    w = P(layer)
    m = keras.Sequential([w])
    out = m(x).numpy()
    want = [[layer.a], [layer.c], [layer.a, layer.c], []] if kind == 'custom' else [[layer.c], [layer.a], [layer.c, layer.a], []]
    mon.check('selection', [id(p) for p, _, _ in w.pruning_vars] == [id(p) for p in want[v]], 'custom layer prunes other weights than declared')
    mon.check('function', zoo.close([out], [x @ layer.a.numpy() @ layer.c.numpy() + layer.bias.numpy()], 1e-5), 'custom layer output')
  elif kind == 'cell':
    layer = L.RNN([Cell(u[0]), L.GRUCell(u[1])] if v % 2 else Cell(u[0]))
    w = P(layer)
    m = keras.Sequential([w])
    m(r.randn(2, 3, u[2]).astype('f'))
    c = layer.cell.cells[0] if v % 2 else layer.cell
    want = [[c.kernel], [c.recurrent_kernel], [c.kernel, c.recurrent_kernel], []][v]
    if v % 2:
      want = want + [layer.cell.cells[1].kernel, layer.cell.cells[1].recurrent_kernel]
    mon.check('selection', [id(p) for p, _, _ in w.pruning_vars] == [id(p) for p in want], 'recurrent cells prune other weights than declared')
  elif kind == 'builtin':
    for name, l, call in zoo.builtin(case['seed']):
      m, xs = call(l)
      want = zoo.outputs(m, xs)
      try:
        w = P(l)
        pm, _ = call(w)
      except ValueError as e:
        mon.check('selection', False, '%s is not supported: %s' % (name, e))
        continue
      mon.event('built-in layers')
      mon.check('selection', isinstance(w, wrapper) and w.layer is l and sorted(id(p) for p, _, _ in w.pruning_vars) == sorted(id(p) for p in expected(l)), lambda: '%s prunes %s' % (name, [p.name for p, _, _ in w.pruning_vars]))
      mon.check('function', zoo.close(zoo.outputs(pm, xs), want, 1e-6), lambda: '%s: another function when wrapped' % name)
  elif kind == 'unsupported':
    mon.raises('rejects', lambda: P(Plain()), ValueError, 'undeclared custom layer')
    mon.raises('rejects', lambda: P(keras.Sequential([L.Dense(2, input_shape=(3,)), Plain()])), ValueError, 'model with undeclared custom layer')
    mon.raises('rejects', lambda: P(L.TimeDistributed(L.Dense(2))), ValueError, 'TimeDistributed')
    mon.raises('rejects', lambda: P('layer'), ValueError, 'not a layer')
    mon.raises('rejects', lambda: P([Plain()]), ValueError, 'list with undeclared layer')
  elif kind == 'bidir':
    mon.raises('rejects', lambda: P(L.Bidirectional(L.LSTM(2))), ValueError, 'Bidirectional')
    class MyDense(L.Dense):
      pass
    mon.raises('rejects', lambda: P(MyDense(3)), ValueError, 'undeclared subclass of a known layer')
  elif kind == 'badcell':
    mon.raises('rejects', lambda: P(L.RNN(BadCell(3))), ValueError, 'undeclared cell')
    mon.raises('rejects', lambda: P(L.RNN([L.LSTMCell(2), BadCell(3)])), ValueError, 'stack with undeclared cell')
  elif kind == 'subclassed':
    mon.raises('rejects', lambda: P(Sub()), ValueError, 'subclassed model')
    s = Sub(); s(x)
    mon.raises('rejects', lambda: P(s), ValueError, 'built subclassed model')
    i = L.Input((u[2],))
    mon.raises('rejects', lambda: P(keras.Model(i, Sub()(i))), ValueError, 'nested subclassed model')
  elif kind == 'list':
    done = P(L.Dense(u[0]))
    src = [L.InputLayer(input_shape=(u[2],)), L.Dense(u[1], activation='relu'), done, L.BatchNormalization()]
    got = P(src)
    mon.check('selection', len(got) == 4 and isinstance(got[0], L.InputLayer) and got[2] is done and isinstance(got[1], wrapper)
              and got[1].layer is src[1] and isinstance(got[3], wrapper) and got[3].layer is src[3], 'list wrapping')
    m = keras.Sequential(got)
    mon.check('selection', [len(l.pruning_vars) for l in m.layers] == [1, 1, 0], 'list selection')
    # a model that already contains a pruned layer keeps it
    m2 = P(keras.Sequential([P(L.Dense(3, input_shape=(u[2],))), L.Dense(2)]))
    mon.check('selection', [type(l.layer).__name__ for l in m2.layers] == ['Dense', 'Dense'], 'double wrapping')
  elif kind == 'actreg':
    def loss(wrapped):
      m = keras.Sequential([L.Dense(u[0], input_shape=(u[2],), activity_regularizer=keras.regularizers.L2(0.1),
                                    kernel_initializer='ones'), L.Dense(u[1], kernel_initializer='ones')])
      m = P(m) if wrapped else m
      m.compile('sgd', 'mse', run_eagerly=True)
      return m.evaluate(x, np.zeros((5, u[1])), verbose=0)
    want = loss(False)
    try:
      got = loss(True)
    except TypeError as e:
      got = repr(e)[:300]
    mon.check('losses', not isinstance(got, str) and abs(got - want) < 1e-4 * max(1., abs(want)),
              'loss with an activity regularizer: %r, unwrapped %r' % (got, want), mechanism='activity-regularizer')
  elif kind == 'layerkw':
    w = P(L.Dense(u[0]), input_shape=(u[2],))
    m = keras.Sequential([w])
    mon.check('shapes', m.built and m.output_shape == (None, u[0]), 'input_shape keyword ignored')
    mon.check('selection', [id(p) for p, _, _ in w.pruning_vars] == [id(w.layer.kernel)], 'layer selection')
  mon.nontrivial(kind, u, v)
  mon.event('single-layer-cases')
