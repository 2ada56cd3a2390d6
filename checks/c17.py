"""C17: quantization ranges track data only in training."""
import numpy as np

from lib import dist, quant

PROP = 'C17'
RULE = ('one case = one quantizer in a model (QuantizeLayer or bare) and a random history of training and inference calls (call, fit, '
        'train_on_batch, predict, evaluate, learning phase, traced, the mode as a tensor or variable) with changing data; a float64 range automaton runs alongside; or two replicas each fed half of every batch; or one pair of '
        'quantizer settings compared after round trips; non-trivial = distinct (class, flags, history word)')
CLAUSES = ['range', 'frozen', 'zero-inside', 'symmetric', 'output', 'round-trip', 'equal', 'different', 'replicas']
setup = dist.setup
OPS = ['train', 'train', 'infer', 'flag1', 'flag0', 'var1', 'var0', 'fit', 'tob', 'predict', 'evaluate', 'phase1', 'phase0', 'trainable', 'default']


def cases(rng, tier):
  out = []
  for i in range(90 if tier == 'quick' else 1500):
    kind = ['LastValue', 'MovingAverage', 'AllValues', 'Fixed', 'MovingAverage', 'AllValues', 'No'][i % 7]
    pa = kind not in ('Fixed', 'No') and rng.random() < .5
    nd = rng.choice([2, 4]) if pa else rng.choice([2, 3, 4])
    a, b = -rng.choice([0., .5, 6., 3.3]), rng.choice([.5, 1., 6.])
    out.append(dict(what='history', kind=kind, bits=rng.choice([8, 8, 4, 2, 16, 5]), pa=pa, sym=bool(rng.random() < .5),
                    narrow=bool(rng.random() < .5), shape=[rng.randrange(1, 6) for _ in range(nd - 1)], fixed=[a, b],
                    ops=[rng.choice(OPS) for _ in range(6)], seed=rng.randrange(10**6)))
  for i in range(40 if tier == 'quick' else 400):
    out.append(dict(what='config', seed=rng.randrange(10**6)))
  for i in range(5 if tier == 'quick' else 60):
    out.append(dict(what='dist', kind=['MovingAverage', 'AllValues', 'MovingAverage', 'AllValues', 'model'][i % 5], pa=bool(i % 3 == 2), sym=bool(rng.random() < .5), narrow=bool(rng.random() < .5),
                    bits=rng.choice([8, 4]), n=[rng.choice([4, 6, 8]) for _ in range(rng.choice([2, 3]))], width=rng.randrange(2, 6), seed=rng.randrange(10**6), cost=3))
  return out


def run_dist(case, mon):
  """Two replicas, each seeing half of every batch."""
  from tensorflow_model_optimization.python.core.keras.compat import keras
  from tensorflow_model_optimization.python.core.quantization.keras import quantize, quantize_layer
  rs = np.random.RandomState(case['seed'])
  d, kind = case['width'], case['kind']
  with dist.strategy().scope():
    if kind == 'model':
      m = quantize.quantize_model(keras.Sequential([keras.layers.Dense(4, activation='relu', input_shape=(d,)), keras.layers.Dense(2)]))
    else:
      m = keras.Sequential([quantize_layer.QuantizeLayer(quant.make(kind, case['bits'], case['pa'], case['sym'], case['narrow']), input_shape=(d,)), keras.layers.Dense(2)])
    m.compile(keras.optimizers.legacy.SGD(0.05 if kind == 'model' else 0.), 'mse')
  named = lambda e: [w for w in m.layers[0].weights if w.name.split(':')[0].endswith(e)]
  refs = [quant.Ref(kind if kind != 'model' else 'AllValues', case['bits'], case['pa'], case['sym'], case['narrow'], d) for _ in range(3)]
  if kind == 'model':
    refs = [quant.Ref('AllValues', 8) for _ in range(3)]
  for j, n in enumerate(case['n']):
    x = rs.randn(n, d).astype('f') * np.float32(rs.choice([.3, 1., 3.]))
    kernels = [(l, dist.copies(w)[0]) for l in m.layers for w in l.weights if kind == 'model' and w.name.endswith('/kernel:0')]
    m.fit(x, rs.randn(n, 2).astype('f'), batch_size=n, shuffle=False, verbose=0)
    mon.event('replicated batches')
    parts = [x[:n // 2], x[n // 2:]]
    refs[0].train(x)
    for r, v in zip(refs[1:], parts):
      r.train(v)
    (lo,), (hi,) = named('_min'), named('_max')
    got = [np.stack(dist.copies(v)) for v in (lo, hi)]
    near = lambda g, w: np.all(np.abs(g - w) <= 1e-5 * (1 + np.abs(w)))
    if kind == 'MovingAverage':
      # the average of what the replicas saw, on both
      want = [(refs[1].lo + refs[2].lo) / 2, (refs[1].hi + refs[2].hi) / 2]
      mon.check('replicas', all(near(g, w) for g, w in zip(got, want)), lambda: 'moving averages on the replicas are %s, expected %s' % (got, want))
    else:
      own = all(near(g[i], w) for i, r in enumerate(refs[1:]) for g, w in zip(got, (r.lo, r.hi)))
      mon.check('replicas', all(near(g, w) for g, w in zip(got, (refs[0].lo, refs[0].hi))), lambda: 'ranges of all values on the replicas are %s, expected %s' % (got, (refs[0].lo, refs[0].hi)),
                mechanism='all-values-per-replica' if own else None)
    for l, k in kernels:
      r = max(abs(k.min()), abs(k.max()))
      v = {w.name.split('/')[-1].split(':')[0]: dist.copies(w) for w in l.weights}
      mon.check('replicas', all(near(c, -r) for c in v['kernel_min']) and all(near(c, r) for c in v['kernel_max']), lambda: 'kernel of magnitude %g has the ranges %s' % (r, v))
    for l in m.layers[1:]:
      for w in l.weights:
        mon.check('replicas', dist.agree(w), lambda: '%s differs between the replicas' % w.name)
    before = [c for w in m.weights for c in dist.copies(w)]
    m.predict(x * 50., verbose=0)
    mon.check('frozen', all(np.array_equal(a, b) for a, b in zip(before, [c for w in m.weights for c in dist.copies(w)])), 'predict on two replicas moved ranges')
  mon.nontrivial('dist', kind, case['pa'], case['sym'], case['narrow'], tuple(case['n']))


def run_config(case, mon):
  import tensorflow as tf  # pylint: disable=unused-import
  from tensorflow_model_optimization.python.core.keras.compat import keras
  from tensorflow_model_optimization.python.core.quantization.keras import quantizers as Q
  from tensorflow_model_optimization.python.core.quantization.keras import quantize
  rs = np.random.RandomState(case['seed'])
  kinds = ['LastValue', 'MovingAverage', 'AllValues', 'Fixed', 'No']

  def settings():
    k = kinds[rs.randint(5)]
    s = dict(kind=k, bits=int(rs.choice([2, 4, 7, 8, 16])), narrow=bool(rs.rand() < .5), per_axis=bool(rs.rand() < .5),
             symmetric=bool(rs.rand() < .5), fixed=(float(rs.choice([-1., -6., 0.])), float(rs.choice([1., 6.]))))
    for k2 in {'Fixed': ['per_axis', 'symmetric'], 'No': ['bits', 'narrow', 'per_axis', 'symmetric', 'fixed']}.get(k, ['fixed']):
      s.pop(k2)
    return s

  from tensorflow_model_optimization.python.core.quantization.keras.default_8bit import default_8bit_quantize_configs as C8
  from tensorflow_model_optimization.python.core.quantization.keras.experimental.default_n_bit import default_n_bit_quantize_configs as CN
  layer = keras.layers.ReLU()
  width = int(rs.choice([3, 4, 8]))
  want = lambda b: quant.make('MovingAverage', b, per_axis=False, symmetric=False, narrow=False)
  for c, b in ((C8.Default8BitOutputQuantizeConfig(), 8), (C8.Default8BitOutputQuantizeConfig(quantize_output=True), 8), (C8.Default8BitOutputQuantizeConfig(quantize_output=False), None), (C8.NoOpQuantizeConfig(), None),
               (CN.DefaultNBitOutputQuantizeConfig(num_bits_activation=width), width), (CN.DefaultNBitOutputQuantizeConfig(quantize_output=False, num_bits_activation=width), None), (CN.DefaultNBitOutputQuantizeConfig(), 8)):
    for o in (c, type(c).from_config(c.get_config()) if hasattr(type(c), 'from_config') else c):
      got = o.get_output_quantizers(layer)
      mon.check('different', len(got) == (b is not None) and all(type(v).__name__ == 'MovingAverageQuantizer' and v == want(b) for v in got), lambda: '%s %s quantizes outputs with %s' % (type(o).__name__, o.get_config(), [v.get_config() for v in got]))
      mon.check('different', not list(o.get_weights_and_quantizers(layer)) and not list(o.get_activations_and_quantizers(layer)), 'an output configuration quantizes weights')
  for _ in range(12):
    s = settings()
    q = quant.make(**s)
    cfg = q.get_config()
    p = type(q).from_config(dict(cfg))
    with quantize.quantize_scope():
      r = keras.utils.deserialize_keras_object(keras.utils.serialize_keras_object(q))
    for o, how in ((p, 'from_config'), (r, 'deserialize')):
      mon.check('round-trip', type(o) is type(q) and o.get_config() == cfg and vars(o) == vars(q), '%s of %s gives %s' % (how, s, o.get_config()))
      mon.check('equal', o == q and q == o and not o != q, '%s of %s is not equal' % (how, s))
    mon.check('equal', quant.make(**s) == q, 'same settings not equal: %s' % s)
    # one setting changed
    t = dict(s)
    keys = [k for k in s if k != 'kind']
    if keys and rs.rand() < .7:
      k = keys[rs.randint(len(keys))]
      t[k] = {'bits': lambda v: v + 1, 'fixed': lambda v: (v[0] - (rs.rand() < .5), v[1] + 1.)}.get(k, lambda v: not v)(t[k])
    else:
      others = [k for k in kinds if k != s['kind']]
      t = dict(t, kind=others[rs.randint(4)])
      full = dict(dict(bits=8, narrow=False, per_axis=False, symmetric=False, fixed=(-1., 1.)), **t)
      t = {k: v for k, v in full.items()}
    o = quant.make(**t)
    mon.check('different', o != q and q != o and not o == q and not q == o, '%s and %s compare equal' % (s, t))
    mon.check('different', q != None and not q == 8, 'equal to something else')  # pylint: disable=singleton-comparison
    mon.nontrivial('config', s['kind'], t['kind'], tuple(k for k in t if k in s and t[k] != s[k])); mon.event('configs', 2)


def run(case, mon):
  if case['what'] == 'config':
    return run_config(case, mon)
  if case['what'] == 'dist':
    return run_dist(case, mon)
  import tensorflow as tf
  from tensorflow_model_optimization.python.core.keras.compat import keras
  from tensorflow_model_optimization.python.core.quantization.keras import quantize_layer
  rs = np.random.RandomState(case['seed'])
  kind, bits, pa = case['kind'], case['bits'], case['pa']
  sh = case['shape']
  q = quant.make(kind, bits, pa, case['sym'], case['narrow'], case['fixed'])
  lay = quantize_layer.QuantizeLayer(q, input_shape=tuple(sh))
  model = keras.Sequential([lay])
  model.compile('sgd', 'mse')
  ref = quant.Ref(kind, bits, pa, case['sym'], case['narrow'], sh[-1], case['fixed'])
  fn = {t: tf.function(lambda x, t=t: model(x, training=t)) for t in (True, False)}

  # the mode as a tensor known only when the graph runs, or as a variable
  mode = tf.Variable(False)
  by_flag = tf.function(lambda x, t: lay(x, training=t))
  by_var = tf.function(lambda x: lay(x, training=mode))

  def ranges():
    v = {w.name.split('/')[-1].split(':')[0]: w.numpy() for w in lay.weights}
    lo = [a for n, a in v.items() if n.endswith('_min')]
    hi = [a for n, a in v.items() if n.endswith('_max')]
    return (lo[0], hi[0]) if lo else None

  def look(where, frozen=None):
    got = ranges()
    if kind in ('Fixed', 'No'):
      mon.check('frozen', got is None, '%s quantizer has range weights' % kind)
      return
    tol = 1e-5 * (np.abs(ref.lo) + np.abs(ref.hi)) + 1e-7
    mon.check('range', got[0].shape == np.shape(ref.lo) and np.all(np.abs(got[0] - ref.lo) <= tol) and np.all(np.abs(got[1] - ref.hi) <= tol),
              lambda: '%s: range %s, expected %s..%s' % (where, got, ref.lo, ref.hi))
    mon.check('zero-inside', np.all(got[0] <= 0) and np.all(got[1] >= 0), '%s: %s' % (where, got))
    if case['sym'] and kind != 'MovingAverage':
      r = 1. if case['narrow'] else (2.**bits - 2) / 2.**bits
      if np.any(got[1] != 6.):
        mon.check('symmetric', np.allclose(-got[0] * r, got[1], rtol=1e-5), '%s: %s not mirrored' % (where, got))
    if frozen is not None:
      mon.check('frozen', np.array_equal(got[0], frozen[0]) and np.array_equal(got[1], frozen[1]), '%s: range moved %s -> %s' % (where, frozen, got))

  look('initially')
  for op in case['ops']:
    dist = quant.DISTS[rs.randint(len(quant.DISTS))]
    xs = [quant.tensor(rs, [4] + sh, dist) * np.float32(rs.choice([.3, 1., 2.5])) for _ in range(rs.randint(1, 3))]
    before = ranges()
    where = '%s/%s' % (op, dist)
    if op in ('train', 'phase1', 'flag1', 'var1'):
      for x in xs:
        if op == 'flag1':
          o = by_flag(tf.constant(x), tf.constant(True))
        elif op == 'var1':
          mode.assign(True); o = by_var(tf.constant(x))
        elif op == 'train':
          o = (model if rs.rand() < .5 else lay)(tf.constant(x), training=True) if rs.rand() < .6 else fn[True](tf.constant(x))
        else:
          keras.backend.set_learning_phase(1)
          try:
            o = lay(tf.constant(x))
          finally:
            keras.backend.set_learning_phase(0)
            keras.backend.clear_session()
        ref.train(x)
        mon.check('output', not ref.bad(x, o.numpy()), lambda: '%s: %s' % (where, ref.bad(x, o.numpy())))
      look(where)
    elif op in ('fit', 'tob'):
      for x in xs:
        if op == 'fit':
          model.fit(x, x, batch_size=4, epochs=1, verbose=0)
        else:
          model.train_on_batch(x, x)
        ref.train(x)
      look(where)
    elif op == 'trainable':
      # freezing the layer says nothing about ranges of the inference
      o = model(tf.constant(xs[0]), training=False)
      look(where, before)
      mon.check('output', not ref.bad(xs[0], o.numpy()), lambda: '%s: %s' % (where, ref.bad(xs[0], o.numpy())))
    else:
      for x in xs:
        if op == 'infer':
          o = model(tf.constant(x), training=False) if rs.rand() < .5 else fn[False](tf.constant(x))
        elif op == 'flag0':
          o = by_flag(tf.constant(x), tf.constant(False))
        elif op == 'var0':
          mode.assign(False); o = by_var(tf.constant(x))
        elif op == 'default':
          o = model(tf.constant(x))
        elif op == 'phase0':
          keras.backend.set_learning_phase(0)
          o = lay(tf.constant(x))
          keras.backend.clear_session()
        elif op == 'predict':
          o = model.predict(x, verbose=0)
        else:
          model.evaluate(x, x, verbose=0); o = None
        if o is not None:
          o = np.asarray(o)
          mon.check('output', not ref.bad(x, o), lambda: '%s: %s' % (where, ref.bad(x, o)))
        if kind in ('Fixed', 'No') and o is not None and kind == 'Fixed':
          mon.check('range', not ref.bad(x, o), lambda: 'fixed range: %s' % ref.bad(x, o))
      look(where, before)
    mon.event(op, len(xs))
  mon.nontrivial(kind, bits, pa, case['sym'], case['narrow'], tuple(case['ops']))
