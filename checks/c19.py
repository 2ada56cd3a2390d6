"""C19: the layout rewrites applied before quantization keep the float function.

The rewrites of the 8-bit and n-bit schemes run on random models with random sets of candidate
layers; input quantizers are disabled in the result, and the two models are compared: outputs and
losses in inference, outputs, losses, gradients, and moving statistics in training mode, inputs and
outputs by name and position, the weights, and what is trainable."""
import copy

import numpy as np

from lib import qwatch, qzoo, zoo

PROP = 'C19'
RULE = ('one case = one random graph (fused chains, separable convolutions, concatenations with repeated and reordered inputs, shared layers, layers called with arguments, '
        'recurrent and TF operation layers, several inputs and outputs; random trainable flags and regularizers), a random set of candidate layers and a scheme; '
        'non-trivial = distinct (graph before, graph after) whose graph changed')
CLAUSES = ['outputs', 'training', 'losses', 'statistics', 'weights', 'trainable', 'signature', 'gradients', 'steps', 'surviving', 'original']

EXTRA = dict(img=['dupcat', 'tfop', 'frozen_bn', 'frozen_bn', 'dupcat', 'lambda', 'shared'], vec=['dupcat', 'tfop', 'frozen_bn', 'lambda', 'shared'],
             seq=['dupcat', 'tfop', 'rnn', 'bidi', 'mha', 'lambda', 'shared'])


def cases(rng, tier):
  out, turn = [], {}
  for i in range(90 if tier == 'quick' else 2500):
    kind = rng.choice(['img', 'img', 'vec', 'seq'])
    sp = qzoo.spec(rng, kind=kind, size=rng.randrange(1, 6 if tier == 'quick' else 9), ban=('dropout', 'sdrop', 'sdrop1'), extra=EXTRA[kind] * (i % 3 > 0), turn=turn)
    out.append(dict(sp=sp, scheme=rng.choice(['8', '8', 'n']), bits=[rng.choice([2, 4, 8]), rng.choice([4, 8])], keep=rng.choice([1., 1., .5, .8]), extras=rng.random() < .5, custom=rng.random() < .25,
                    seed=rng.randrange(10**6)))
  return out


def decorate(m, case, skip=()):
  """Random trainable flags and regularizers, through the configuration."""
  r = np.random.RandomState(case['seed'])
  if not case['extras']:
    return m
  cfg = m.get_config()
  for l in cfg['layers']:
    c = l['config']
    if r.rand() < .25 and 'trainable' in c and l['class_name'] != 'InputLayer':
      c['trainable'] = False
    for key in [v for v in c if v.endswith('_regularizer') and 'recurrent' not in v and v not in skip]:
      if r.rand() < .3:
        c[key] = {'class_name': 'L2', 'config': {'l2': float(r.choice([.1, .3]))}, 'module': 'tf_keras.regularizers', 'registered_name': None}
    for key in [v for v in c if v.endswith('_constraint') and 'recurrent' not in v and v not in skip]:
      if r.rand() < .3:
        c[key] = {'class_name': 'NonNeg', 'config': {}, 'module': 'tf_keras.constraints', 'registered_name': None}
  from tf_keras.src.saving import serialization_lib
  with serialization_lib.SafeModeScope(False):
    n = type(m).from_config(cfg)
  n.set_weights(m.get_weights())
  return n


def transformer(case):
  if case['scheme'] == '8':
    from tensorflow_model_optimization.python.core.quantization.keras.default_8bit import default_8bit_quantize_layout_transform as T
    return T.Default8BitQuantizeLayoutTransform()
  from tensorflow_model_optimization.python.core.quantization.keras.experimental.default_n_bit import default_n_bit_quantize_layout_transform as T
  return T.DefaultNBitQuantizeLayoutTransform(*case['bits'])


def observe(m, x, training):
  """Outputs, the sum of the losses, and the gradient norm of every trainable weight."""
  import tensorflow as tf
  with tf.GradientTape() as tape:
    y = m(x, training=training)
    ys = [tf.convert_to_tensor(v) for v in tf.nest.flatten(y)]
    extra = tf.add_n(m.losses) if m.losses else tf.constant(0.)
    loss = extra + tf.add_n([tf.reduce_sum(tf.sin(v)) for v in ys])
  g = tape.gradient(loss, m.trainable_weights)
  g = [np.zeros(v.shape, 'f') if d is None else np.asarray(tf.convert_to_tensor(d)) for d, v in zip(g, m.trainable_weights)]
  return [np.asarray(v) for v in ys], float(extra), g


def match(want, got, tol=2e-4):
  """Whether two lists of arrays are the same up to order and size-1 dimensions."""
  got = list(got)
  for a in want:
    for j, b in enumerate(got):
      if a.size == b.size and [s for s in a.shape if s != 1] == [s for s in b.shape if s != 1] and np.allclose(a.ravel(), b.ravel(), rtol=tol, atol=tol * max(1e-3, np.abs(a).max(initial=0))):
        got.pop(j)
        break
    else:
      return 'no counterpart for an array of shape %s' % (a.shape,)
  return 'arrays of shapes %s are new' % [g.shape for g in got] if got else None


def run(case, mon):
  import tensorflow as tf
  k = zoo.K()
  m, x, _ = qzoo.build(case['sp'])
  m = decorate(m, case)
  m.use_legacy_config = True
  before_cfg = copy.deepcopy(m.get_config())
  r = np.random.RandomState(case['seed'])
  names = [l.name for l in m.layers if case['keep'] == 1 or r.rand() < case['keep']] or [m.layers[-1].name]
  # Candidates are what quantize_apply makes them: annotated layers and input layers.
  metadata = {n: {'quantize_config': None} for n in names}
  if case['custom']:
    from tensorflow_model_optimization.python.core.quantization.keras.default_8bit import default_8bit_quantize_registry as C
    for n in names:
      if r.rand() < .3:
        metadata[n] = {'quantize_config': C.Default8BitQuantizeConfig([], [], True)}
  given = {n: dict(v) for n, v in metadata.items()}
  t, meta = transformer(case).apply(m, metadata)
  for l in t.layers:
    if type(l).__name__ == 'QuantizeLayer':
      l.quantizer = None

  ranges = {id(v) for l in t.layers if type(l).__name__ == 'QuantizeLayer' for v in l.weights}
  values = lambda ws: [v.numpy() for v in ws if id(v) not in ranges]
  mon.check('signature', len(m.inputs) == len(t.inputs) and len(m.outputs) == len(t.outputs) and m.input_names == t.input_names
            and [tuple(v.shape) for v in m.inputs + m.outputs] == [tuple(v.shape) for v in t.inputs + t.outputs],
            lambda: 'inputs/outputs changed: %s' % ([(v.name, tuple(v.shape)) for z in (m, t) for v in z.inputs + z.outputs],))
  mon.check('surviving', set(n for n in given if n in {l.name for l in t.layers}) <= set(meta) , lambda: 'metadata lost for %s' % (set(given) - set(meta)))
  mine = {l.name: l for l in t.layers}
  for l in m.layers:
    if l.name in mine and type(mine[l.name]) is type(l):
      a, b = l.get_weights(), mine[l.name].get_weights()
      mon.check('surviving', len(a) == len(b) and all(np.array_equal(p, q) for p, q in zip(a, b)) and l.trainable == mine[l.name].trainable,
                lambda: '%s: weights or trainable flag changed' % l.name)
    else:
      ok = type(l).__name__.startswith('SeparableConv') and l.name in given and given[l.name]['quantize_config'] is None
      mon.check('surviving', ok, lambda: '%s (%s) is gone' % (l.name, type(l).__name__))
  mon.check('weights', not match(values(m.weights), values(t.weights), 0), lambda: 'weights: %s' % match(values(m.weights), values(t.weights), 0))
  mon.check('trainable', not match(values(m.trainable_weights), values(t.trainable_weights), 0), lambda: 'trainable weights: %s' % match(values(m.trainable_weights), values(t.trainable_weights), 0))

  close = lambda a, b: len(a) == len(b) and all(u.shape == v.shape and np.allclose(u, v, rtol=1e-4, atol=1e-4 * max(1e-2, np.abs(u).max(initial=0))) for u, v in zip(a, b))
  diff = lambda a, b: [float(np.max(np.abs(u - v), initial=0)) if u.shape == v.shape else (u.shape, v.shape) for u, v in zip(a, b)]
  a, b = observe(m, x, False), observe(t, x, False)
  mon.check('outputs', close(a[0], b[0]), lambda: 'inference outputs differ by %s' % diff(a[0], b[0]))
  mon.check('losses', np.isclose(a[1], b[1], rtol=1e-3, atol=1e-4), lambda: 'losses %s became %s' % (a[1], b[1]))
  for s in range(2):
    xs = qzoo.batch(m, r)
    a, b = observe(m, xs, True), observe(t, xs, True)
    mon.check('training', close(a[0], b[0]), lambda: 'training outputs differ by %s' % diff(a[0], b[0]))
    mon.check('losses', np.isclose(a[1], b[1], rtol=1e-3, atol=1e-4), lambda: 'training losses %s became %s' % (a[1], b[1]))
    mon.check('gradients', not match(a[2], b[2], 5e-3), lambda: 'gradients: %s' % match(a[2], b[2], 5e-3))
  # one plain step, after which constraints apply
  for mm in (m, t):
    g = observe(mm, xs, True)[2]
    zoo.K().optimizers.legacy.SGD(.1).apply_gradients([(tf.constant(d), v) for d, v in zip(g, mm.trainable_weights)])
  mon.check('steps', not match(values(m.trainable_weights), values(t.trainable_weights), 5e-3), lambda: 'weights after one step: %s' % match(values(m.trainable_weights), values(t.trainable_weights), 5e-3))
  mon.event('constrained', sum(v.constraint is not None for v in m.trainable_weights))
  mon.check('statistics', not match(values(m.non_trainable_weights), values(t.non_trainable_weights)), lambda: 'after training passes: %s' % match(values(m.non_trainable_weights), values(t.non_trainable_weights)))
  a, b = observe(m, x, False), observe(t, x, False)
  mon.check('outputs', close(a[0], b[0]), lambda: 'inference outputs differ afterwards by %s' % diff(a[0], b[0]))
  if not any(type(l).__name__ == 'Lambda' for l in m.layers):
    mon.check('original', before_cfg == m.get_config(), 'the configuration of the model passed in changed')
  mon.check('original', {n: dict(v) for n, v in metadata.items()} == given, lambda: 'the metadata passed in changed')
  ga, gb = qzoo.Graph(m).signature(), qzoo.Graph(t).signature()
  if ga != gb:
    mon.nontrivial(str(ga), str(gb))
  for l in t.layers:
    if l.name not in {v.name for v in m.layers}:
      mon.event('new ' + type(l).__name__)
  mon.event('configs set', sum(1 for v in meta.values() if v.get('quantize_config') is not None))
  mon.sample = dict(before=str(ga), after=str(gb))
