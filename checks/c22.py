"""C22: quantization-aware models survive saving, loading and cloning.

Objects: every quantizer, quantization config, wrapper and quantization layer shipped, with random
settings, goes through its configuration (directly, through JSON, through the library's scope) and
is compared with the original setting by setting and by what it asks of a real layer; changing one
setting must make it unequal. Models: random graphs are trained for a random number of steps,
written and read back in every format, compared in structure, settings, variables and outputs, and
trained further beside the model that never stopped."""
import copy
import json
import os
import re
import shutil
import tempfile

import numpy as np

from lib import qwatch, qzoo, zoo

PROP = 'C22'
RULE = ('one case = one shipped class with random settings, or one random (partly annotated) graph, scheme, optimizer, interruption point and format (h5, .keras, SavedModel, JSON, '
        'configuration, clone, weights h5, weights checkpoint, checkpoint object; annotated models too), continued for two steps; non-trivial = distinct (class, settings) or (graph, format)')
CLAUSES = ['rebuilt', 'json', 'equal', 'unequal', 'independent', 'same-request', 'layers', 'settings', 'weights', 'outputs', 'continue', 'annotated', 'collab']

FORMATS = ['h5', 'h5', 'keras', 'keras', 'tf', 'json', 'config', 'clone', 'w.h5', 'w.tf', 'ckpt', 'pickle']


def cases(rng, tier):
  out = [dict(kind='objects', seed=rng.randrange(10**6)) for _ in range(4 if tier == 'quick' else 150)]
  for i in range(40 if tier == 'quick' else 900):
    kind = rng.choice(['img', 'img', 'vec', 'seq'])
    sp = qzoo.spec(rng, kind=kind, size=rng.randrange(1, 4 if tier == 'quick' else 7), nbit=True, ban=('dropout', 'sdrop', 'sdrop1'), extra=(['dupcat', 'tfop'] + ['shared'] * (kind != 'seq')) * (i % 3 > 0))
    out.append(dict(kind='model', sp=sp, part=rng.choice([0, 1, 1]), scheme=rng.choice(['8', '8', '8', 'n']), fmt=FORMATS[i % len(FORMATS)], opt=rng.choice(['sgd', 'momentum', 'adam', 'rmsprop']),
                    steps=rng.choice([0, 1, 2, 3]), freeze=rng.random() < .3, own=rng.random() < .3, after=rng.choice(['', '', '', 'fixed', 'noinput']), seed=rng.randrange(10**6)))
  sp = qzoo.spec(rng, kind='img', size=1)
  sp['prog'][0][0] = 'trans'
  out.append(dict(out[-1], kind='model', sp=dict(sp, n_in=1, n_out=1), part=0, scheme='8', fmt='tf', after=''))
  for i in range(10 if tier == 'quick' else 150):
    sp = qzoo.spec(rng, size=rng.randrange(1, 4), nbit=True, ban=('dropout', 'sdrop', 'sdrop1'))
    out.append(dict(kind='annotated', sp=sp, part=rng.choice([0, 1, 1]), fmt=['h5', 'keras', 'json', 'tf', 'clone'][i % 5], own=rng.random() < .5, seed=rng.randrange(10**6)))
  out += [dict(kind='collab', scheme=s) for s in ('prune', 'cluster')]
  return out


def run(case, mon):
  from tf_keras.src.saving import serialization_lib
  with serialization_lib.SafeModeScope(False):
    globals()['run_' + case['kind']](case, mon)


# --- objects ------------------------------------------------------------------

def makers(r):
  """(name, class, settings, alternatives): settings build an object, alternatives differ in one."""
  from tensorflow_model_optimization.python.core.quantization.keras import quantize_config as qc, quantizers as qz
  from tensorflow_model_optimization.python.core.quantization.keras.default_8bit import default_8bit_quantize_configs as c8, default_8bit_quantize_registry as r8, default_8bit_quantizers as z8
  from tensorflow_model_optimization.python.core.quantization.keras.experimental.default_n_bit import default_n_bit_quantize_configs as cn, default_n_bit_quantize_registry as rn, default_n_bit_quantizers as zn
  from tensorflow_model_optimization.python.core.quantization.keras.collab_opts.prune_preserve import prune_preserve_quantize_registry as pp
  from tensorflow_model_optimization.python.core.quantization.keras.collab_opts.cluster_preserve import cluster_preserve_quantize_registry as cp
  b = lambda: bool(r.rand() < .5)
  n = lambda: int(r.randint(2, 13))
  out = []

  def add(cls, s, **alts):
    out.append((cls, s, [dict(s, **{k: v}) for k, v in alts.items()]))
  for c in (qz.LastValueQuantizer, qz.MovingAverageQuantizer, qz.AllValuesQuantizer, pp.PrunePreserveDefaultWeightsQuantizer):
    s = dict(num_bits=n(), per_axis=b(), symmetric=b(), narrow_range=b())
    add(c, s, num_bits=s['num_bits'] + 1, per_axis=not s['per_axis'], symmetric=not s['symmetric'], narrow_range=not s['narrow_range'])
  s = dict(num_bits=n(), init_min=float(-r.rand()), init_max=float(r.rand()), narrow_range=b())
  add(qz.FixedQuantizer, s, num_bits=s['num_bits'] + 1, init_min=s['init_min'] - .25, init_max=s['init_max'] + .25, narrow_range=not s['narrow_range'])
  for c in (qz.NoQuantizer, z8.Default8BitConvWeightsQuantizer, z8.Default8BitConvTransposeWeightsQuantizer, pp.PrunePreserveDefault8BitWeightsQuantizer, pp.PrunePreserveDefault8BitConvWeightsQuantizer,
            c8.NoOpQuantizeConfig):
    add(c, {})
  wa = lambda: dict(num_bits_weight=n(), num_bits_activation=n())
  for c in (zn.DefaultNBitConvWeightsQuantizer, zn.DefaultNBitConvTransposeWeightsQuantizer):
    s = wa()
    add(c, s, num_bits_weight=s['num_bits_weight'] + 1)
  s = dict(num_bits=n(), per_axis=b(), symmetric=b(), narrow_range=b(), preserve_sparsity=b())
  add(cp.ClusterPreserveDefaultWeightsQuantizer, s, num_bits=s['num_bits'] + 1, preserve_sparsity=not s['preserve_sparsity'])
  for c in (cp.ClusterPreserveDefault8BitWeightsQuantizer, cp.ClusterPreserveDefault8BitConvWeightsQuantizer):
    s = dict(preserve_sparsity=b())
    add(c, s, preserve_sparsity=not s['preserve_sparsity'])
  attrs = lambda: dict(weight_attrs=[[], ['kernel'], ['kernel', 'bias']][r.randint(3)], activation_attrs=[[], ['activation']][r.randint(2)], quantize_output=b())
  for c, f in ((r8.Default8BitQuantizeConfig, {}), (r8.Default8BitConvQuantizeConfig, {}), (r8.Default8BitConvTransposeQuantizeConfig, {}), (rn.DefaultNBitQuantizeConfig, wa()),
               (rn.DefaultNBitConvQuantizeConfig, wa()), (rn.DefaultNBitConvTransposeQuantizeConfig, wa())):
    s = dict(attrs(), **f)
    add(c, s, weight_attrs=['other'], activation_attrs=['other'], quantize_output=not s['quantize_output'], **{k: v + 1 for k, v in f.items()})
  for c, f in ((r8.Default8BitQuantizeConfigRNN, {}), (rn.DefaultNBitQuantizeConfigRNN, wa())):
    s = dict(dict(weight_attrs=[['kernel', 'recurrent_kernel']], activation_attrs=[['activation', 'recurrent_activation']], quantize_output=b()), **f)
    add(c, s, weight_attrs=[['kernel']], quantize_output=not s['quantize_output'], **{k: v + 1 for k, v in f.items()})
  q = lambda: dict(quantize_output=b())
  s = q(); add(r8.Default8BitActivationQuantizeConfig, s)
  s = q(); add(c8.Default8BitOutputQuantizeConfig, s)
  add(cn.NoOpQuantizeConfig if hasattr(cn, 'NoOpQuantizeConfig') else c8.NoOpQuantizeConfig, {})
  for c in (rn.DefaultNBitActivationQuantizeConfig, cn.DefaultNBitOutputQuantizeConfig):
    import inspect
    s = dict(wa(), **(q() if 'quantize_output' in inspect.signature(c.__init__).parameters else {}))
    add(c, s)
  inner = r8.Default8BitQuantizeConfig(['kernel'], ['activation'], b())
  add(qc.OutputOnlyConfig, dict(quantize_config=inner))
  add(qc.FixedQuantizeConfig, dict(config=inner, num_bits=n(), init_min=float(-r.rand()), init_max=float(r.rand()), narrow_range=b()))
  return out


def deep(o):
  """The state of an object as plain data."""
  if isinstance(o, (str, int, float, bool, type(None))):
    return o
  if isinstance(o, (list, tuple)):
    return [deep(v) for v in o]
  if isinstance(o, dict):
    return {str(k): deep(v) for k, v in o.items()}
  if callable(o) and not hasattr(o, '__dict__'):
    return getattr(o, '__name__', type(o).__name__)
  d = {k: deep(v) for k, v in vars(o).items() if not k.startswith('_') and type(v).__name__ not in ('function', 'method')} if hasattr(o, '__dict__') else {}
  return [type(o).__name__, d]


def asks(cfg):
  """What a configuration wants of real layers."""
  L = zoo.K().layers
  out = []
  for l, shape in ((L.Dense(2, activation='relu'), (None, 3)), (L.Conv2D(2, 1, activation='softmax'), (None, 3, 3, 2)), (L.Activation('relu'), (None, 3)), (L.LSTM(2), (None, 3, 2))):
    import tensorflow as tf
    l.build(tf.TensorShape(shape))
    for f in ('get_weights_and_quantizers', 'get_activations_and_quantizers', 'get_output_quantizers'):
      try:
        v = getattr(cfg, f)(l)
      except (AttributeError, RuntimeError, ValueError) as e:
        out.append(type(e).__name__)
        continue
      out.append([[getattr(p[0], 'shape', None) and list(p[0].shape) or getattr(p[0], '__name__', ''), deep(p[1])] if isinstance(p, tuple) else deep(p) for p in v])
  return out


def run_objects(case, mon):
  from tensorflow_model_optimization.python.core.quantization.keras import quantize as Q, quantizers as qz, quantize_config as qc, utils
  from tensorflow_model_optimization.python.core.quantization.keras import quantize_annotate as qa, quantize_aware_activation as qaa, quantize_layer as ql, quantize_wrapper as qw
  from tensorflow_model_optimization.python.core.quantization.keras.default_8bit import default_8bit_quantize_registry as r8
  r = np.random.RandomState(case['seed'])
  mk = makers(r)
  made = []
  for cls, s, alts in mk:
    o, name = cls(**s), cls.__name__
    tag = '%s %s' % (name, {k: v for k, v in s.items() if not hasattr(v, 'get_config')})
    state = deep(o)
    want = asks(o) if isinstance(o, qc.QuantizeConfig) else None
    cfg = o.get_config()
    keep = deep(cfg)
    try:
      text = dumps(cfg)
      mon.check('json', True)
    except TypeError as e:
      text = None
      mon.check('json', False, lambda: '%s: the configuration cannot be written: %s' % (tag, e))
    ways = [('configuration', lambda: cls.from_config(cfg)), ('configuration again', lambda: cls.from_config(cfg))]
    if text:
      ways.append(('JSON', lambda: cls.from_config(json.loads(text))))
    if name in dict(Q_scope()):
      ways.append(('scope', lambda: utils.deserialize_keras_object(utils.serialize_keras_object(o))))
      if text:
        ways.append(('scope JSON', lambda: utils.deserialize_keras_object(json.loads(dumps(utils.serialize_keras_object(o))))))
    for how, f in ways:
      try:
        with Q.quantize_scope():
          c = f()
      except Exception as e:
        mon.check('rebuilt', False, lambda: '%s: cannot be rebuilt from its %s: %r' % (tag, how, e))
        continue
      mon.check('rebuilt', type(c) is cls and deep(c) == state, lambda: '%s through its %s became %s instead of %s' % (tag, how, deep(c), state))
      mon.check('independent', deep(cfg) == keep and deep(o) == state, lambda: '%s: rebuilding changed the configuration from %s to %s' % (tag, keep, deep(cfg)))
      if cls.__eq__ is not object.__eq__:
        mon.check('equal', o == c and c == o and not o != c and not c != o, lambda: '%s through its %s is not equal to itself' % (tag, how))
      mon.check('independent', c is not o, lambda: '%s is the same object after %s' % (tag, how))
      for k in list(vars(c)):
        if isinstance(getattr(c, k), (bool, int, float)):
          setattr(c, k, 77)
      if how == 'JSON':
        for k, v in vars(c).items():
          if isinstance(v, list):
            v.append('x')
          elif hasattr(v, '__dict__'):
            vars(v).update({a: 55 for a in vars(v) if isinstance(vars(v)[a], (bool, int, float))})
      mon.check('independent', deep(o) == state, lambda: '%s: changing the rebuilt object changed the original' % tag)
    if want is not None:
      with Q.quantize_scope():
        c = cls.from_config(o.get_config())
      mon.check('same-request', asks(c) == want, lambda: '%s asks for something else after a round trip' % tag)
    if cls.__eq__ is not object.__eq__:
      for a in alts:
        p = cls(**a)
        mon.check('unequal', p != o and o != p and not p == o and not o == p, lambda: '%s equals %s' % (tag, a))
      mon.check('unequal', o != None and not o == 'x' and o != {}, lambda: '%s equals something of another kind' % tag)  # pylint: disable=singleton-comparison
      for p in made:
        if p.__class__.__eq__ is not object.__eq__ and not isinstance(p, cls) and not isinstance(o, type(p)) and isinstance(p, qz.Quantizer) != isinstance(o, qz.Quantizer):
          mon.check('unequal', p != o and o != p, lambda: '%s equals %s' % (tag, p))
    made.append(o)
    mon.nontrivial(name, str(state))
    mon.event('objects')
  plain = [o for o in made if type(o) in (qz.LastValueQuantizer, qz.MovingAverageQuantizer, qz.AllValuesQuantizer, qz.FixedQuantizer, qz.NoQuantizer)]
  for a in plain:
    for b in plain:
      mon.check('unequal', a is b or a != b and not a == b, lambda: '%s equals %s' % (a, b))
  # layers holding the objects
  k = zoo.K()
  own = r8.Default8BitQuantizeConfig(['kernel'], ['activation'], bool(r.rand() < .5))
  quant = [o for o in plain][int(r.randint(len(plain)))]
  reg = r8.Default8BitQuantizeRegistry()
  layers = [ql.QuantizeLayer(quant, name='ql'), qa.QuantizeAnnotate(k.layers.Dense(3), quantize_config=own, name='an'), qa.QuantizeAnnotate(k.layers.Dense(3, activation='relu')),
            qw.QuantizeWrapper(k.layers.Dense(3, name='d'), own, name='q'), qw.QuantizeWrapperV2(k.layers.Conv2D(3, 2), reg.get_quantize_config(k.layers.Conv2D(3, 2))),
            qw.QuantizeWrapperV2(k.layers.Dense(2), qc.OutputOnlyConfig(own)), qw.QuantizeWrapperV2(k.layers.Dense(2), qc.FixedQuantizeConfig(own, 8, -1., 2., False))]
  for l in layers:
    if r.rand() < .4:
      l.trainable = False
    for how in ('configuration', 'JSON'):
      try:
        with Q.quantize_scope():
          cfg = l.get_config()
          c = type(l).from_config(cfg if how == 'configuration' else json.loads(dumps(cfg)))
      except Exception as e:
        mon.check('rebuilt', False, lambda: '%s cannot be rebuilt from its %s: %r' % (type(l).__name__, how, e))
        continue
      q = lambda v: deep(getattr(v, 'quantize_config', None) or getattr(v, 'quantizer', None))
      if how == 'JSON':
        mon.check('rebuilt', q(c) == q(l) and c.name == l.name and c.trainable == l.trainable, lambda: '%s: %s became %s' % (type(l).__name__, (l.name, l.trainable, q(l)), (c.name, c.trainable, q(c))))
      if hasattr(l, 'layer'):
        mon.check('rebuilt', type(c.layer) is type(l.layer) and c.layer is not l.layer and json.dumps(c.layer.get_config(), default=str) == json.dumps(l.layer.get_config(), default=str), lambda: '%s: the wrapped layer changed' % type(l).__name__)


def dumps(cfg):
  '''JSON as Keras writes it, which takes objects that have a configuration.'''
  from tf_keras.src.saving.legacy.saved_model import json_utils
  return json.dumps(cfg, default=json_utils.get_json_type)


def Q_scope():
  from tensorflow_model_optimization.python.core.quantization.keras import quantize as Q
  with Q.quantize_scope():
    return dict(zoo.K().utils.get_custom_objects())


# --- models -------------------------------------------------------------------

def opt(name):
  o = zoo.K().optimizers
  return dict(sgd=lambda: o.SGD(.02), momentum=lambda: o.SGD(.02, .9), adam=lambda: o.Adam(.01), rmsprop=lambda: o.RMSprop(.01))[name]()


def flat(y):
  return list(y) if isinstance(y, (list, tuple)) else [y]


def targets(m, r):
  y = [r.rand(6, *v.shape[1:]).astype('f') for v in m.outputs]
  return y if len(y) > 1 else y[0]


def scope(OwnConfig):
  from tensorflow_model_optimization.python.core.quantization.keras import quantize as Q
  return Q.quantize_scope({'OwnConfig': OwnConfig})


def through(q, fmt, d, fresh, mon):
  """Writes and reads a model; returns the copy and whether its optimizer came along."""
  import tensorflow as tf
  k = zoo.K()
  path = os.path.join(d, 'm')
  if fmt in ('h5', 'keras', 'tf'):
    path += {'h5': '.h5', 'keras': '.keras', 'tf': ''}[fmt]
    q.save(path, **(dict(save_format='tf') if fmt == 'tf' else {}))
    return k.models.load_model(path, **(dict(safe_mode=False) if fmt == 'keras' else {})), fmt != 'tf'
  if fmt in ('json', 'config', 'clone', 'pickle'):
    if fmt == 'json':
      c = k.models.model_from_json(q.to_json())
    elif fmt == 'config':
      c = type(q).from_config(q.get_config())
    elif fmt == 'pickle':
      c = type(q).from_config(json.loads(dumps(q.get_config()))) if jsonable(q) else type(q).from_config(q.get_config())
    else:
      c = k.models.clone_model(q)
    c.set_weights(q.get_weights())
    return c, False
  c = fresh()
  if fmt == 'w.h5':
    q.save_weights(path + '.weights.h5')
    c.load_weights(path + '.weights.h5')
  elif fmt == 'w.tf':
    q.save_weights(path, save_format='tf')
    c.load_weights(path).assert_existing_objects_matched()
  else:
    tf.train.Checkpoint(model=q).write(path)
    tf.train.Checkpoint(model=c).read(path).assert_existing_objects_matched()
  return c, False


def jsonable(q):
  try:
    dumps(q.get_config())
    return True
  except TypeError:
    return False


def describe(m):
  """Layers in order with what they quantize, names apart."""
  out = []
  for l in m.layers:
    i = qzoo.inner(l)
    c = {a: b for a, b in i.get_config().items() if a not in ('name', 'dtype', 'function', 'build_config', 'output_shape')}
    if type(i).__name__ == 'QuantizeLayer':
      c = {}
    fresh = type(l).__name__ == 'QuantizeLayer'      # named by a counter
    out.append([type(l).__name__, type(i).__name__, '' if fresh else l.name, '' if fresh else i.name, l.trainable, i.trainable, deep(getattr(l, 'quantize_config', None)), deep(getattr(l, 'quantizer', None)), str(act(c))])
  return out


def act(c):
  a = c.get('activation')
  if isinstance(a, dict):
    c = dict(c, activation=[a.get('class_name'), (a.get('config') or {}).get('activation') if isinstance(a.get('config'), dict) else a.get('config')])
  return sorted((k, str(v)) for k, v in c.items())


def run_model(case, mon):
  from tensorflow_model_optimization.python.core.quantization.keras import quantize as Q
  from checks import c18
  k = zoo.K()
  m, x, groups = qzoo.build(case['sp'])
  if not qzoo.valid(m):
    return mon.event('unsupported')
  r = np.random.RandomState(case['seed'])
  names = qwatch.annotate(case, m, groups)
  outside = ('TFOpLambda', 'SlicingOpLambda', 'InputLayer', 'Lambda')
  if names is None and any(type(l).__name__ in outside and type(l).__name__ != 'InputLayer' for l in m.layers):
    names = [l.name for l in m.layers]
  if names is not None:
    names = [n for n in names if type(m.get_layer(n)).__name__ not in outside]
    if not names or not qwatch.supported(names, m, groups):
      return mon.event('unsupported')
  if case['freeze']:
    for l in m.layers:
      if l.weights and r.rand() < .4:
        l.trainable = False
  OwnConfig, cfg = c18.own_config(5)
  own = {}
  if names is not None and case['own']:
    own = {n: cfg for n in names if type(m.get_layer(n)).__name__ in ('Dense', 'Conv2D') and not any(n in g[:-1] for g in groups)}
  kw = {}
  if case['scheme'] == 'n':
    from tensorflow_model_optimization.python.core.quantization.keras.experimental.default_n_bit import default_n_bit_quantize_scheme as S
    kw['scheme'] = S.DefaultNBitQuantizeScheme(num_bits_weight=4, num_bits_activation=6)

  def fresh():
    with scope(OwnConfig):
      if names is None:
        a = Q.quantize_annotate_model(m)
      else:
        a = k.models.clone_model(m, clone_function=lambda l: Q.quantize_annotate_layer(l, own.get(l.name)) if l.name in names else l)
      q = Q.quantize_apply(a, **kw)
      whole = [l for l in q.layers if type(l).__name__ == 'QuantizeLayer'] and names is None and not kw
      if case['after'] == 'fixed' and whole:
        q = Q.fix_input_output_range(q, num_bits=7, input_min=-1., input_max=2., output_min=-.5, output_max=.75)
      elif case['after'] == 'noinput' and whole:
        q = Q.remove_input_range(q)
      return q
  q = fresh()
  comp = lambda v: v.compile(opt(case['opt']), 'mse')
  comp(q)
  for _ in range(case['steps']):
    q.train_on_batch(x, targets(q, r))
  fmt = case['fmt']
  if fmt == 'h5' and case['after']:
    fmt = 'keras'      # rebuilt custom layers have unscoped variable names in Keras, which an optimizer in HDF5 cannot hold
  tag = '%s after %d steps' % (fmt, case['steps'])
  w0, y0 = [v.copy() for v in q.get_weights()], [np.asarray(v) for v in flat(q(x, training=False))]
  d0 = describe(q)
  d = tempfile.mkdtemp()
  try:
    with scope(OwnConfig):
      try:
        c, with_opt = through(q, fmt, d, fresh, mon)
      except ValueError as e:
        if fmt == 'tf' and 'captures graph tensor' in str(e):
          return mon.check('outputs', False, lambda: '%s: %s' % (tag, str(e)[:300]), mechanism='savedmodel:captured-kernel:' + '+'.join(sorted(
              {type(qzoo.inner(l)).__name__ for l in q.layers if getattr(qzoo.inner(l), 'input_spec', None) is not None and getattr(qzoo.inner(l).input_spec, 'ndim', None) is not None and hasattr(qzoo.inner(l), 'kernel')})))
        raise
    judge(case, mon, q, c, with_opt, comp, x, r, tag, w0, y0, d0, fmt)
  finally:
    shutil.rmtree(d, ignore_errors=True)


def judge(case, mon, q, c, with_opt, comp, x, r, tag, w0, y0, d0, fmt):
  same = lambda p, o, **t: len(p) == len(o) and all(u.shape == v.shape and (np.allclose(u, v, **t) if t else np.array_equal(u, v)) for u, v in zip(p, o))
  if fmt not in ('w.h5', 'w.tf', 'ckpt'):
    mon.check('layers', [v[:6] for v in describe(c)] == [v[:6] for v in d0], lambda: '%s: layers %s became %s' % (tag, [v[:6] for v in d0], [v[:6] for v in describe(c)]))
  mon.check('settings', [v[6:] for v in describe(c)] == [v[6:] for v in d0], lambda: '%s: settings differ: %s' % (tag, [(u, v) for u, v in zip(d0, describe(c)) if u[6:] != v[6:]]))
  mon.check('layers', tops(c) == tops(q), lambda: '%s: graph %s became %s' % (tag, tops(q), tops(c)))
  mon.check('weights', same(w0, c.get_weights()), lambda: '%s: variables differ (%d, %d)' % (tag, len(w0), len(c.get_weights())))
  mon.check('weights', same([v.numpy() for v in q.trainable_weights], [v.numpy() for v in c.trainable_weights]), lambda: '%s: trainable variables differ: %s, %s' % (tag, [v.name for v in q.trainable_weights], [v.name for v in c.trainable_weights]))
  mon.check('outputs', same(y0, [np.asarray(v) for v in flat(c(x, training=False))], rtol=1e-5, atol=1e-6), lambda: '%s: outputs differ' % tag)
  mon.check('weights', same(w0, q.get_weights()), lambda: '%s: saving changed the model' % tag)
  mon.check('independent', not {id(v) for v in q.weights} & {id(v) for v in c.weights}, lambda: '%s: the copy shares variables' % tag)
  # both go on
  if fmt in ('w.tf', 'ckpt'):
    comp(c)                                   # takes over the saved optimizer when it is built
    if not case['steps']:
      comp(q)
  elif not with_opt or not case['steps']:
    comp(q), comp(c)
  mon.event('optimizer restored' if with_opt else 'optimizer fresh')
  for s in range(2):
    x2 = [v + np.float32(.3 * r.randn()) for v in flat(x)]
    x2 = x2 if len(x2) > 1 else x2[0]
    t = targets(q, r)
    q.train_on_batch(x2, t)
    c.train_on_batch(x2, t)
  a, b = q.get_weights(), c.get_weights()
  big = max([float(np.abs(v).max(initial=0)) for v in a if v.size and np.isfinite(v).all()] + [1.])
  if all(np.isfinite(v).all() for v in a) and big < 1e4:
    mon.check('continue', same(a, b, rtol=2e-3, atol=1e-4 * big), lambda: '%s (%s): training goes another way: %s' % (tag, case['opt'], [(v.name, float(np.abs(p - o).max())) for v, p, o in zip(q.weights, a, b) if p.shape != o.shape or not np.allclose(p, o, rtol=2e-3, atol=1e-4 * big)]))
    moved = [not np.array_equal(u, v) for u, v in zip(w0, a)]
    mon.event('moved variables', sum(moved))
  mon.nontrivial(fmt, str(qzoo.Graph(q).signature()), case['steps'])
  mon.sample = dict(fmt=fmt, layers=[type(qzoo.inner(l)).__name__ for l in q.layers])


def tops(m):
  return [[type(qzoo.inner(n.layer)).__name__, p] for n, (_, p) in zip(qzoo.Graph(m).nodes, qzoo.Graph(m).signature())]


def plain(d):
  '''Descriptions without the counters in the names of inserted layers.'''
  return [[re.sub(r'^(quant_)?(depthwise_conv2d|conv2d|sepconv1d_squeeze|sepconv1d_expand)(_\d+)?$', r'\1\2', v) if isinstance(v, str) else v for v in e] for e in d]


def run_annotated(case, mon):
  """An annotated model comes back annotated the same way and quantizes to the same model."""
  from tensorflow_model_optimization.python.core.quantization.keras import quantize as Q
  from checks import c18
  k = zoo.K()
  m, x, groups = qzoo.build(case['sp'])
  if not qzoo.valid(m):
    return mon.event('unsupported')
  names = qwatch.annotate(case, m, groups)
  if not qwatch.supported(names, m, groups):
    return mon.event('unsupported')
  OwnConfig, cfg = c18.own_config(5)
  own = {n: cfg for n in names or [] if case['own'] and type(m.get_layer(n)).__name__ in ('Dense', 'Conv2D') and not any(n in g[:-1] for g in groups)}
  if names is None:
    a = Q.quantize_annotate_model(m)
  else:
    a = k.models.clone_model(m, clone_function=lambda l: Q.quantize_annotate_layer(l, own.get(l.name)) if l.name in names else l)
    a.set_weights(m.get_weights())
  d = tempfile.mkdtemp()
  try:
    with scope(OwnConfig):
      c, _ = through(a, case['fmt'], d, None, mon)
  finally:
    shutil.rmtree(d, ignore_errors=True)
  view = lambda v: [[type(l).__name__, l.name, getattr(getattr(l, 'layer', None), 'name', None), deep(getattr(l, 'quantize_config', None))] for l in v.layers]
  mon.check('annotated', view(a) == view(c), lambda: '%s: %s became %s' % (case['fmt'], view(a), view(c)))
  same = lambda p, o: len(p) == len(o) and all(np.allclose(u, v, rtol=1e-5, atol=1e-6) for u, v in zip(p, o))
  mon.check('annotated', same(a.get_weights(), c.get_weights()), '%s: weights differ' % case['fmt'])
  with scope(OwnConfig):
    q1, q2 = Q.quantize_apply(a), Q.quantize_apply(c)
  mon.check('annotated', plain(describe(q1)) == plain(describe(q2)) and same(q1.get_weights(), q2.get_weights()), lambda: '%s: quantizes to another model: %s' % (case['fmt'], [(u, v) for u, v in zip(describe(q1), describe(q2)) if u != v]))
  for t in (True, False):
    mon.check('annotated', same([np.asarray(v) for v in flat(q1(x, training=t))], [np.asarray(v) for v in flat(q2(x, training=t))]), lambda: '%s: outputs differ (training %s)' % (case['fmt'], t))
  mon.nontrivial('annotated', case['fmt'], str(sorted(names or ['all'])))


def run_collab(case, mon):
  """Models of the preserving schemes keep what they preserve after a reload."""
  from tensorflow_model_optimization.python.core.quantization.keras import quantize as Q
  from tensorflow_model_optimization.python.core.quantization.keras.collab_opts.prune_preserve import default_8bit_prune_preserve_quantize_scheme as P
  from tensorflow_model_optimization.python.core.quantization.keras.collab_opts.cluster_preserve import default_8bit_cluster_preserve_quantize_scheme as C
  k = zoo.K(); L = k.layers
  m = k.Sequential([L.InputLayer((6,)), L.Dense(5)])
  r = np.random.RandomState(3)
  m.set_weights([np.round(r.randn(6, 5)).astype('f'), np.zeros(5, 'f')])
  s = P.Default8BitPrunePreserveQuantizeScheme() if case['scheme'] == 'prune' else C.Default8BitClusterPreserveQuantizeScheme(False)
  with Q.quantize_scope():
    q = Q.quantize_apply(Q.quantize_annotate_model(m), s)
  q.compile('sgd', 'mse')
  d = tempfile.mkdtemp()
  try:
    with Q.quantize_scope():
      q.save(d + '/m.h5')
      c = k.models.load_model(d + '/m.h5')
    ok = [deep(l.quantize_config) == deep(p.quantize_config) for l, p in zip(q.layers, c.layers) if hasattr(l, 'quantize_config')]
    why = 'the reloaded model uses other weight quantizers' if not all(ok) else None
  except ValueError as e:
    why = 'cannot be loaded: %s' % str(e)[:200]
  finally:
    shutil.rmtree(d, ignore_errors=True)
  mon.check('collab', not why, lambda: '%s-preserving model: %s' % (case['scheme'], why), mechanism='%s-preserving-reload' % case['scheme'])
