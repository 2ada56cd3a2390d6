"""C18: quantizing a model copies it and quantizes only what was annotated.

Snapshots of the model passed in (weights, outputs, configuration, layers, optimizer) are held
against it after annotating, quantizing, and training the result. The result is compared layer by
layer with what the annotation asks for, written from the documentation; a second quantization of
the same objects must be an equal and independent model. Requests that cannot be honoured must
raise."""
import copy

import numpy as np

from lib import qwatch, qzoo, zoo

PROP = 'C18'
RULE = ('one case = one random graph (as in C19) with a random annotation: whole model, or single layers, some with an own configuration; 8-bit or n-bit scheme, random name prefix, '
        'random frozen layers; one kind of case requests the impossible; non-trivial = distinct (graph, annotated layers)')
CLAUSES = ['input-model', 'annotated-model', 'float-weights', 'quantized', 'left-alone', 'feeding', 'input-quantizer', 'ends', 'frozen', 'independent', 'repeat', 'custom', 'rejected', 'names', 'losses', 'constraints']

EXTRA = dict(img=['dupcat', 'tfop', 'lambda', 'shared'], vec=['dupcat', 'tfop', 'lambda', 'shared'], seq=['dupcat', 'tfop', 'rnn', 'bidi', 'mha', 'lambda'])


def cases(rng, tier):
  out, turn = [], {}
  for i in range(60 if tier == 'quick' else 1500):
    kind = rng.choice(['img', 'img', 'vec', 'seq'])
    sp = qzoo.spec(rng, kind=kind, size=rng.randrange(1, 5 if tier == 'quick' else 8), nbit=True, extra=EXTRA[kind] * (i % 3 > 0), turn=turn)
    out.append(dict(kind='model', sp=sp, part=rng.choice([0, 1, 1, 1]), scheme=rng.choice(['8', '8', 'n']), prefix=rng.choice([None, 'quant_', '', 'zz_']), custom=rng.random() < .4,
                    freeze=rng.random() < .4, reg=i % 4 == 1, seed=rng.randrange(10**6)))
  out.append(dict(kind='rejected', seed=rng.randrange(10**6)))
  out.append(dict(kind='actreg', seed=rng.randrange(10**6)))
  return out


def own_config(bits):
  from tensorflow_model_optimization.python.core.quantization.keras import quantize_config, quantizers

  class OwnConfig(quantize_config.QuantizeConfig):
    def __init__(self, bits):
      self.bits = bits
    def get_weights_and_quantizers(self, layer):
      return [(layer.kernel, quantizers.LastValueQuantizer(num_bits=self.bits, per_axis=False, symmetric=True, narrow_range=False))] if hasattr(layer, 'kernel') else []
    def get_activations_and_quantizers(self, layer):
      return []
    def set_quantize_weights(self, layer, w):
      if w:
        layer.kernel = w[0]
    def set_quantize_activations(self, layer, a):
      pass
    def get_output_quantizers(self, layer):
      return []
    def get_config(self):
      return {'bits': self.bits}
  return OwnConfig, OwnConfig(bits)


def snapshot(m, x):
  m.use_legacy_config = True
  return dict(w=[v.copy() for v in m.get_weights()], y=[np.asarray(v) for v in flat(m(x, training=False))], cfg=None if any(type(l).__name__ == 'Lambda' for l in m.layers) else copy.deepcopy(m.get_config()),
              layers=[id(l) for l in m.layers], opt=id(getattr(m, 'optimizer', None)), train=[v.name for v in m.trainable_weights])


def flat(y):
  return list(y) if isinstance(y, (list, tuple)) else [y]


def differs(a, m, x):
  b = snapshot(m, x)
  return [k for k in a if not (a[k] == b[k] if k not in 'wy' else len(a[k]) == len(b[k]) and all(np.array_equal(p, q) for p, q in zip(a[k], b[k])))]


def bits_of(q):
  return getattr(q, 'num_bits', None)


def run(case, mon):
  if case['kind'] == 'rejected':
    return rejected(case, mon)
  if case['kind'] == 'actreg':
    return actreg(case, mon)
  from tf_keras.src.saving import serialization_lib
  with serialization_lib.SafeModeScope(False):
    run_model(case, mon)


def actreg(case, mon):
  """A layer with an activity regularizer."""
  from tensorflow_model_optimization.python.core.quantization.keras import quantize as Q
  k = zoo.K(); L = k.layers
  r = np.random.RandomState(case['seed'])
  x, y = r.randn(4, 3).astype('f'), np.zeros((4, 2), 'f')
  m = k.Sequential([L.Dense(5, input_shape=(3,), activity_regularizer=k.regularizers.L2(.1)), L.Dense(2)])
  m.compile('sgd', 'mse', run_eagerly=True)
  want = m.evaluate(x, y, verbose=0)
  q = Q.quantize_model(m)
  q(x, training=True)
  q.compile('sgd', 'mse', run_eagerly=True)
  try:
    got = q.evaluate(x, y, verbose=0)
  except TypeError as e:
    got = repr(e)[:300]
  mon.check('losses', not isinstance(got, str) and abs(got - want) < .1 * abs(want), lambda: 'a model with an activity regularizer has loss %s after quantization instead of %s' % (got, want), mechanism='activity-regularizer')
  mon.nontrivial('actreg')


def run_model(case, mon):
  from tensorflow_model_optimization.python.core.quantization.keras import quantize as Q
  k = zoo.K()
  m, x, groups = qzoo.build(case['sp'])
  if not qzoo.valid(m):
    return mon.event('unsupported')
  from checks import c19
  r = np.random.RandomState(case['seed'])
  m = c19.decorate(m, dict(seed=case['seed'], extras=case['reg']), skip=('activity_regularizer',))
  if case['freeze']:
    for l in m.layers:
      if l.weights and r.rand() < .4:
        l.trainable = False
  classes = {l.name: type(l).__name__ for l in m.layers}
  outside = {'TFOpLambda', 'SlicingOpLambda', 'LSTM', 'Bidirectional', 'MultiHeadAttention', 'RepeatVector', 'InputLayer', 'Lambda'}
  names = qwatch.annotate(case, m, groups)
  if names is None and any(c in outside - {'InputLayer', 'Lambda'} for c in classes.values()):
    names = list(classes)
  if names is not None:
    names = [n for n in names if classes[n] not in outside]
    if not names or not qwatch.supported(names, m, groups):
      return mon.event('unsupported')
    # a batch normalization can only be quantized with the layer it follows
  m.compile(k.optimizers.SGD(.01), loss='mse')
  before = snapshot(m, x)
  OwnConfig, cfg = own_config(5)
  own = {}
  if names is not None and case['custom']:
    own = {n: cfg for n in names if classes[n] in ('Dense', 'Conv2D') and not any(n in g[:-1] for g in groups) and r.rand() < .5}

  # 1. annotate
  if names is None:
    a = Q.quantize_annotate_model(m)
  else:
    a = k.models.clone_model(m, clone_function=lambda l: Q.quantize_annotate_layer(l, own.get(l.name)) if l.name in names else l)
  wrapped = lambda mm: [l for l in mm.layers if type(l).__name__ == 'QuantizeAnnotate']
  ann = {l.layer.name for l in wrapped(a)}
  want = set(names) if names is not None else {n for n in classes if classes[n] not in ('InputLayer', 'Lambda')}
  mon.check('annotated-model', ann == want and len(wrapped(a)) == len(want), lambda: 'annotated %s instead of %s' % (sorted(ann), sorted(want)))
  same = lambda p, q: len(p) == len(q) and all(u.shape == v.shape and np.allclose(u, v, atol=1e-5, rtol=1e-5) for u, v in zip(p, q))
  mon.check('annotated-model', same(before['y'], [np.asarray(v) for v in flat(a(x, training=False))]), 'the annotated model computes something else')
  mon.check('input-model', not differs(before, m, x), lambda: 'annotating changed %s' % differs(before, m, x))
  a_before = snapshot(a, x)

  # 2. quantize
  kw = {}
  if case['prefix'] is not None:
    kw['quantized_layer_name_prefix'] = case['prefix']
  if case['scheme'] == 'n':
    from tensorflow_model_optimization.python.core.quantization.keras.experimental.default_n_bit import default_n_bit_quantize_scheme as S
    kw['scheme'] = S.DefaultNBitQuantizeScheme(num_bits_weight=4, num_bits_activation=8)
  with Q.quantize_scope({'OwnConfig': OwnConfig}):
    q = Q.quantize_apply(a, **kw)
  mon.check('input-model', not differs(before, m, x), lambda: 'quantizing changed %s of the model' % differs(before, m, x))
  mon.check('annotated-model', not differs(a_before, a, x), lambda: 'quantizing changed %s of the annotated model' % differs(a_before, a, x))
  prefix = 'quant_' if case['prefix'] is None else case['prefix']

  is_q = lambda l: type(l).__name__.startswith('QuantizeWrapper')
  inner = {qzoo.inner(l).name: l for l in q.layers}
  sep = {n for n in want if classes[n].startswith('SeparableConv')}
  g = qzoo.Graph(m)
  for n, c in classes.items():
    if n in sep or c == 'InputLayer':
      mon.check('quantized', (n in inner) == (c == 'InputLayer') or type(m).__name__ == 'Sequential', lambda: '%s (%s) should %s' % (n, c, 'stay' if c == 'InputLayer' else 'be split'))
      continue
    if not mon.check('left-alone', n in inner, lambda: '%s (%s) is gone' % (n, c)):
      continue
    l, o = inner[n], m.get_layer(n)
    if n in want:
      mon.check('quantized', is_q(l), lambda: '%s was annotated and is a %s' % (n, type(l).__name__))
      mon.check('names', l.name == prefix + n, lambda: '%s is named %s' % (n, l.name))
      if n in own and is_q(l):
        mon.check('custom', type(l.quantize_config).__name__ == 'OwnConfig' and l.quantize_config.bits == 5 and l.quantize_config is not cfg, lambda: '%s does not use the configuration given (%s)' % (n, l.quantize_config))
    else:
      nodes = [v for v in g.nodes if v.layer is o]
      feeds = any(cc is not None and cc.layer.name in want and len(g.inputs(cc)) == 1 and sum(v.layer is cc.layer for v in g.nodes) == 1 for v in nodes for cc in g.consumers(v))
      if feeds and c in qzoo.SUPPORTED | {'LSTM', 'Bidirectional'}:
        ok = not is_q(l) or type(l.quantize_config).__name__ == 'OutputOnlyConfig' and not l.quantize_config.get_weights_and_quantizers(l.layer)
        must = c in qzoo.SUPPORTED
        mon.check('feeding', ok and (is_q(l) or not must), lambda: '%s (%s), which feeds a quantized layer, is %s with %s' % (n, c, type(l).__name__, getattr(l, 'quantize_config', None)))
      else:
        mon.check('left-alone', type(l) is type(o) and l is not o, lambda: '%s (%s) was not annotated and is a %s' % (n, c, type(l).__name__))
        mon.check('left-alone', type(o).__name__ == 'Lambda' or {a: b for a, b in l.get_config().items()} == {a: b for a, b in o.get_config().items()} or str(l.get_config()) == str(o.get_config()), lambda: '%s: configuration %s became %s' % (n, o.get_config(), l.get_config()))
    # float weights
    w = {v.name.split('/')[-1]: v.numpy() for v in l.weights} if c not in ('Bidirectional', 'MultiHeadAttention') else None
    if w is not None:
      mon.check('float-weights', all(v.name.split('/')[-1] in w and np.array_equal(w[v.name.split('/')[-1]], v.numpy()) for v in o.weights), lambda: 'the weights of %s were not carried over' % n)
    else:
      mon.check('float-weights', same([v.numpy() for v in o.weights], [v.numpy() for v in l.weights]), lambda: 'the weights of %s were not carried over' % n)
  pool = [v.numpy().ravel() for v in q.weights]
  for n in sep:
    mon.check('float-weights', all(any(np.array_equal(p, v.ravel()) for p in pool) for v in m.get_layer(n).get_weights()), lambda: 'the weights of %s were not carried over' % n)
  extra = set(inner) - set(classes)
  kinds = sorted(type(qzoo.inner(inner[n])).__name__ for n in extra)
  due = sorted([c for n in sep for c in ('DepthwiseConv2D', 'Conv2D')] + ['Lambda'] * (2 * sum(classes[n] == 'SeparableConv1D' for n in sep)) +
               ['QuantizeLayer'] * sum(any(c is not None and c.layer.name in want for c in g.consumers(v)) for v in g.nodes if type(v.layer).__name__ == 'InputLayer'))
  mon.check('input-quantizer', [v for v in kinds if v != 'InputLayer'] == due, lambda: 'new layers %s instead of %s' % (kinds, due))
  mon.check('ends', [tuple(v.shape) for v in m.inputs + m.outputs] == [tuple(v.shape) for v in q.inputs + q.outputs] and m.input_names == q.input_names, lambda: 'inputs or outputs changed: %s, %s' % (q.inputs, q.outputs))
  total = lambda mm: float(sum(float(v) for v in mm.losses))
  mon.check('losses', np.isclose(total(m), total(q), rtol=1e-3, atol=1e-5), lambda: 'regularization losses %s became %s' % (total(m), total(q)))
  a_t, b_t = [v.numpy() for v in m.trainable_weights], [v.numpy() for v in q.trainable_weights]
  mon.check('frozen', not c19.match(a_t, b_t, 0), lambda: 'trainable weights: %s' % c19.match(a_t, b_t, 0))
  ids = [id(v) for v in q.trainable_weights + q.non_trainable_weights]
  mon.check('frozen', len(set(ids)) == len(ids) and set(ids) == {id(v) for v in q.weights}, 'a weight is both trainable and not, or neither')
  for l in q.layers:
    o = qzoo.inner(l).name
    if o in classes and classes[o] != 'InputLayer':
      mon.check('frozen', l.trainable == m.get_layer(o).trainable and (l.trainable or not l.trainable_weights), lambda: 'trainable of %s is %s' % (l.name, l.trainable))

  # 3. independence
  mine = {id(v) for v in m.weights} | {id(v) for v in a.weights}
  mon.check('independent', not mine & {id(v) for v in q.weights}, 'the quantized model shares variables with the original')
  w0 = [v.copy() for v in q.get_weights()]
  y0 = [np.asarray(v) for v in flat(q(x, training=False))]
  q.compile(k.optimizers.SGD(.5), loss='mse', run_eagerly=True)
  old = {id(v): v.numpy() for v in q.trainable_weights}
  q.train_on_batch(x, [np.ones([6] + list(v.shape[1:]), 'f') for v in q.outputs] if len(q.outputs) > 1 else np.ones([6] + list(q.outputs[0].shape[1:]), 'f'))
  for v in q.trainable_weights:
    for o in m.trainable_weights:
      if o.name.split('/')[-1] == v.name.split('/')[-1] and o.shape == v.shape and np.array_equal(o.numpy(), old[id(v)]) and o.constraint is not None:
        mon.check('constraints', bool(np.all(v.numpy() >= 0)), lambda: '%s is not constrained any more' % v.name)
  mon.check('input-model', not differs(before, m, x), lambda: 'training the quantized model changed %s of the model' % differs(before, m, x))
  mon.check('annotated-model', not differs(a_before, a, x), lambda: 'training the quantized model changed %s of the annotated model' % differs(a_before, a, x))
  with Q.quantize_scope({'OwnConfig': OwnConfig}):
    q2 = Q.quantize_apply(a, **kw)
  mon.check('repeat', same(w0, q2.get_weights()) and len(q.layers) == len(q2.layers), 'quantizing again starts from other weights')
  mon.check('repeat', same(y0, [np.asarray(v) for v in flat(q2(x, training=False))]), 'quantizing again gives another model')
  w1, y1 = [v.copy() for v in q.get_weights()], [np.asarray(v) for v in flat(q(x, training=False))]
  m.set_weights([v + 1. for v in m.get_weights()])
  q2(x, training=True)
  mon.check('independent', same(w1, q.get_weights()) and same(y1, [np.asarray(v) for v in flat(q(x, training=False))]), 'changing the original or a second quantized model changed the quantized one')
  mon.nontrivial(str(qzoo.Graph(q).signature()), str(sorted(want)), case['scheme'])
  mon.event('annotated', len(want))
  mon.event('not annotated', len(classes) - len(want))
  mon.sample = dict(layers=[type(qzoo.inner(l)).__name__ for l in q.layers], annotated=len(want))


def rejected(case, mon):
  from tensorflow_model_optimization.python.core.quantization.keras import quantize as Q
  k = zoo.K(); L = k.layers
  A = Q.quantize_annotate_layer
  dense = lambda **kw: L.Dense(2, **kw)
  seq = lambda *ls: k.Sequential([L.InputLayer((4,))] + list(ls))

  class Own(L.Layer):
    def call(self, x):
      return x * 2.

  class Sub(k.Model):
    def __init__(self):
      super().__init__()
      self.d = dense()
    def call(self, x):
      return self.d(x)
  err = (ValueError, RuntimeError, TypeError)
  i = k.Input((4,))
  no = [
      ('None model', lambda: Q.quantize_model(None), err), ('None annotate', lambda: Q.quantize_annotate_model(None), err), ('None apply', lambda: Q.quantize_apply(None), err),
      ('None layer', lambda: A(None), err), ('subclassed', lambda: Q.quantize_model(Sub()), err), ('subclassed annotate', lambda: Q.quantize_annotate_model(Sub()), err),
      ('subclassed apply', lambda: Q.quantize_apply(Sub()), err), ('layer as model', lambda: Q.quantize_model(dense()), err), ('layer as model annotate', lambda: Q.quantize_annotate_model(dense()), err),
      ('model as layer', lambda: A(seq(dense())), err), ('nothing annotated', lambda: Q.quantize_apply(seq(dense())), err), ('unbuilt', lambda: Q.quantize_apply(k.Sequential([A(dense())])), err),
      ('unbuilt model', lambda: Q.quantize_model(k.Sequential([dense()])), err), ('nested', lambda: Q.quantize_model(k.Model(i, seq(dense())(i))), err),
      ('own layer', lambda: Q.quantize_model(seq(dense(), Own())), err), ('own annotated layer', lambda: apply(seq(A(Own()))), err), ('unsupported layer', lambda: Q.quantize_model(k.Sequential([L.InputLayer((4, 3)), L.LayerNormalization()])), err),
      ('double', lambda: apply(seq(A(A(dense())))), err), ('double quantized', lambda: Q.quantize_model(Q.quantize_model(seq(dense()))), err), ('not a layer', lambda: A('dense'), err),
      ('not a config', lambda: A(dense(), quantize_config='x'), err), ('config class', lambda: A(dense(), quantize_config=dict), err), ('loose normalization', lambda: Q.quantize_model(seq(L.BatchNormalization())), err),
      ('activation', lambda: Q.quantize_model(seq(L.Dense(2, activation='elu'))), err), ('activation layer', lambda: Q.quantize_model(seq(dense(), L.Activation('selu'))), err),
      ('causal', lambda: Q.quantize_model(k.Sequential([L.InputLayer((5, 2)), L.SeparableConv1D(2, 2, padding='causal')])), err),
  ]

  from tensorflow_model_optimization.python.core.quantization.keras.experimental.default_n_bit import default_n_bit_quantize_scheme as NS
  img = lambda *ls: k.Sequential([L.InputLayer((5, 5, 2))] + list(ls))
  BN = L.BatchNormalization
  loose = [('Dense relu', lambda: seq(dense(activation='relu'), BN())), ('Conv2D relu', lambda: img(L.Conv2D(2, 2, activation='relu'), BN())), ('DepthwiseConv2D tanh', lambda: img(L.DepthwiseConv2D(2, activation='tanh'), BN())),
           ('pooling', lambda: img(L.MaxPooling2D(), BN(), L.ReLU())), ('ReLU', lambda: img(L.Conv2D(2, 2), L.ReLU(), BN()))]

  def split(first):
    i = k.Input((5, 5, 2))
    t = first(i)
    return k.Model(i, [BN()(t), L.ReLU()(t)])
  loose.append(('a convolution used twice', lambda: split(L.Conv2D(2, 2))))
  for name, make in loose:
    for scheme in (None, NS.DefaultNBitQuantizeScheme()):
      no.append(('normalization after ' + name + ('' if scheme is None else ', n-bit'), lambda make=make, scheme=scheme: Q.quantize_apply(Q.quantize_annotate_model(make()), **({} if scheme is None else {'scheme': scheme})), err))

  def apply(m):
    with Q.quantize_scope({'Own': Own}):
      return Q.quantize_apply(m)
  for name, fn, types in no:
    mon.raises('rejected', fn, types, name)
  ok = [('own layer, not annotated', lambda: apply(seq(Own(), A(dense())))), ('own layer with a configuration', lambda: apply(seq(A(Own(), own_config(3)[1]), dense()))),
        ('annotated twice', lambda: Q.quantize_apply(Q.quantize_annotate_model(Q.quantize_annotate_model(seq(dense())))))]
  for name, fn in ok:
    if name.endswith('configuration'):
      O, c = own_config(3)
      with Q.quantize_scope({'Own': Own, 'OwnConfig': O}):
        q = Q.quantize_apply(seq(A(Own(), c), dense()))
    else:
      q = fn()
    mon.check('quantized', any(type(l).__name__ == 'QuantizeWrapperV2' for l in q.layers), name)
  mon.nontrivial('rejected')
