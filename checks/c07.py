"""C07: stripping pruning wrappers."""
import os
import shutil
import tempfile
import numpy as np
from checks import c05
from lib import zoo

PROP = 'C07'
CLAUSES = ['structure', 'config', 'weights', 'outputs', 'sparsity-kept', 'plain-reload', 'unpruned-equivalent', 'rejects']
RULE = ('one case = a model with all or some layers pruned (different options), trained for some batches or not at all, then '
        'stripped; structure, configuration, weights, zeros and outputs are compared with the pruned model and with a never '
        'pruned twin; non-trivial = distinct (family, subset, history, format)')

FAMS = ['mlp', 'mlp_mode', 'conv', 'conv_sep', 'conv1d', 'conv3d', 'residual', 'two_in', 'nested', 'nested', 'lstm', 'gru',
        'rnn', 'stacked', 'embed', 'mha', 'deep']


def cases(rng, tier):
  out = []
  for i in range(51 if tier == 'quick' else 900):
    sp = zoo.spec(rng, [FAMS[i % len(FAMS)]])
    out.append(dict(sp=sp, subset=rng.choice(['all', 'all', 'some', 'none', 'one']), pick=[bool(rng.random() < .5) for _ in range(12)],
                    s=rng.choice([0.3, 0.5, 0.75, 0.9]), epochs=rng.choice([0, 1, 2]), hist=rng.choice(['fit', 'assign']),
                    fmt=rng.choice(['h5', 'keras', 'tf', 'weights']), freeze=rng.random() < .35, seed=rng.randrange(10**6), cost=3))
  return out


def build(sp):
  if sp['fam'] != 'deep':
    return zoo.build(sp)
  k = zoo.K()
  L = k.layers
  u = sp['u']
  inner = k.Sequential([L.Dense(u[0], input_shape=(u[1],), activation='relu', name='i1'), L.Dense(u[2], name='i2')], name='level2')
  i = L.Input((u[1],), name='mid_in')
  mid = k.Model(i, L.Dense(u[3], name='m1')(L.BatchNormalization(name='mbn')(inner(i))), name='level1')
  j = L.Input((u[4],), name='top_in')
  m = k.Model(j, L.Dense(u[5], name='t2')(mid(L.Dense(u[1], name='t1')(j))), name='top')
  zoo.randomize(m, sp['seed'])
  return m, np.random.RandomState(sp['seed']).randn(8, u[4]).astype('f')


def topology(model):
  """Names of layers with, for each call, the layers feeding it."""
  k = zoo.K()
  out = []
  for l in model.layers:
    if isinstance(l, k.Model):
      out.append((l.name, topology(l)))
  cfg = model.get_config()
  def norm(o):
    if isinstance(o, (list, tuple)):
      return [norm(v) for v in o]
    if isinstance(o, dict):
      return {a: norm(b) for a, b in o.items()}
    return o
  if 'input_layers' in cfg:
    out.append((norm(cfg['input_layers']), norm(cfg['output_layers'])))
    for l in cfg['layers']:
      out.append((l['name'], repr(norm(l['inbound_nodes']))))
  else:
    out += [l.name for l in model.layers]
  return out


def inventory(model):
  return [(type(l).__name__, l.name, l.get_config()) for l in zoo.all_layers(model)]


def run(case, mon):
  import tensorflow as tf
  from tensorflow_model_optimization.python.core.keras.compat import keras
  from tensorflow_model_optimization.python.core.sparsity.keras import prune, pruning_callbacks, pruning_schedule as ps, pruning_wrapper
  L = keras.layers
  sp = case['sp']
  base, x = build(sp)
  twin, _ = build(sp)
  frozen = np.random.RandomState(case['seed'] + 3)
  for a, b in zip(zoo.all_layers(base), zoo.all_layers(twin)):
    if case.get('freeze'):
      a.trainable = b.trainable = bool(frozen.rand() < .5)
  sch = ps.ConstantSparsity(case['s'], 0, -1, 1)
  count = [0]

  def fn(l):
    if isinstance(l, keras.Model):
      return keras.models.clone_model(l, clone_function=fn)
    i = count[0]
    count[0] += 1
    want = dict(all=True, none=False, some=case['pick'][i % 12], one=i == 1)[case['subset']]
    if want and not isinstance(l, L.InputLayer):
      return prune.prune_low_magnitude(l, sch)
    return l
  if case['subset'] == 'all' and sp['seed'] % 2:
    model = prune.prune_low_magnitude(base, sch)
  else:
    model = keras.models.clone_model(base, clone_function=fn)
  model.compile(keras.optimizers.SGD(0.05, clipnorm=1.), 'mse', run_eagerly=True)
  layers = [l for l in zoo.all_layers(model) if isinstance(l, pruning_wrapper.PruneLowMagnitude)]
  y = zoo.targets(model, 8, case['seed'])
  if case['epochs'] and case['hist'] == 'fit':
    model.fit(x, y, batch_size=4, epochs=case['epochs'], verbose=0, callbacks=[pruning_callbacks.UpdatePruningStep()])
  elif case['epochs']:
    # masks set by hand, then applied by an inference call
    r = np.random.RandomState(case['seed'])
    for l in layers:
      for w, m, t in l.pruning_vars:
        m.assign((r.rand(*w.shape) > case['s']).astype('f'))
    model.predict(x, verbose=0)
  masks = [[(m.numpy() == 0) for _, m, _ in l.pruning_vars] for l in layers]
  inner = [l.layer if isinstance(l, pruning_wrapper.PruneLowMagnitude) else l for l in zoo.all_layers(model)]
  values = [(l.name, [w.numpy() for w in l.weights]) for l in inner]
  by_layer = {l.layer.name: [[w.numpy() for w, _, _ in l.pruning_vars], ms] for l, ms in zip(layers, masks)}
  want = zoo.outputs(model, x)
  stripped = prune.strip_pruning(model)
  mon.event('stripped-layers', len(layers))
  # Structure and configuration equal those of the twin that was never pruned
  # (rebuilding from the same spec yields the same explicit or suffixed names).
  def norm(inv):
    import re
    return [(t, re.sub(r'_\d+$', '', n), re.sub(r'_\d+\b', '', repr({k: v for k, v in c.items() if k not in ('name', 'batch_input_shape')}))) for t, n, c in inv]
  si, ti, oi = inventory(stripped), inventory(twin), inventory(base)
  mon.check('structure', [(t, n) for t, n, _ in si if t != 'InputLayer'] == [(type(l).__name__, l.name) for l in inner if not isinstance(l, L.InputLayer)],
            lambda: 'layers %s' % [(t, n) for t, n, _ in si])
  mon.check('structure', [t for t, _, _ in si] == [t for t, _, _ in ti], lambda: 'layer types %s' % [t for t, _, _ in si])
  mon.check('structure', not any(isinstance(l, pruning_wrapper.PruneLowMagnitude) for l in zoo.all_layers(stripped)), 'wrappers left')
  mon.check('structure', topology(stripped) == topology(base), lambda: 'topology\n%s\n%s' % (topology(stripped), topology(base)))
  mon.check('structure', stripped.name == base.name and type(stripped) is type(base), 'model name or class')
  flags = lambda m: [l.trainable for l in zoo.all_layers(m) if not isinstance(l, L.InputLayer)]
  mon.check('config', flags(stripped) == flags(twin), lambda: 'trainable flags %s became %s' % (flags(twin), flags(stripped)))
  mon.check('config', norm(si) == norm(ti), 'layer configuration differs from the never pruned twin')
  mon.check('weights', [w.shape for w in stripped.weights] == [w.shape for w in twin.weights]
            and [w.shape for w in stripped.trainable_weights] == [w.shape for w in twin.trainable_weights], 'weight list differs from the twin')
  mon.check('weights', not any('mask' in w.name or 'threshold' in w.name or 'pruning_step' in w.name for w in stripped.weights), 'pruning state left')
  sv = [(l.name, [w.numpy() for w in l.weights]) for l in zoo.all_layers(stripped)]
  mon.check('weights', [n for n, _ in sv if n in dict(values)] == [n for n, _ in values if n in dict(sv)] and all(
      len(a) == len(dict(values)[n]) and all(np.array_equal(p, q) for p, q in zip(a, dict(values)[n])) for n, a in sv if n in dict(values)),
            'weight values differ from the pruned model')
  got = zoo.outputs(stripped, x)
  mon.check('outputs', zoo.close(got, want, 1e-6), 'outputs differ from the pruned model')
  named = {l.name: l for l in zoo.all_layers(stripped)}
  for n, (ws, ms) in by_layer.items():
    flat = [w.numpy() for w in named[n].weights]
    for w, z in zip(ws, ms):
      hit = [f for f in flat if f.shape == z.shape and np.array_equal(f, w)]
      mon.check('sparsity-kept', len(hit) >= 1 and np.all(hit[0][z] == 0), lambda: '%s: pruned weights are not zero after stripping' % n)
      mon.event('pruned-elements', int(z.sum()))
  if not layers and not (case['epochs'] and case['hist'] == 'fit'):
    mon.check('unpruned-equivalent', zoo.close(got, zoo.outputs(twin, x), 1e-6) and all(
        np.array_equal(a, b) for a, b in zip(stripped.get_weights(), twin.get_weights())), 'an unpruned model changed')
  # The stripped model is loadable without the library.
  d = tempfile.mkdtemp()
  try:
    if case['fmt'] == 'weights':
      p = os.path.join(d, 'w.h5')
      stripped.save_weights(p)
      re_ = twin
      re_.load_weights(p)
    else:
      p = os.path.join(d, dict(h5='m.h5', keras='m.keras', tf='m')[case['fmt']])
      stripped.save(p)
      re_ = keras.models.load_model(p, compile=False)
    mon.check('plain-reload', zoo.close(zoo.outputs(re_, x), want, 1e-6), lambda: '%s: reloaded stripped model differs' % case['fmt'])
  finally:
    shutil.rmtree(d)
  again = prune.strip_pruning(stripped)
  mon.check('unpruned-equivalent', zoo.close(zoo.outputs(again, x), want, 1e-6) and topology(again) == topology(stripped), 'stripping twice')
  mon.raises('rejects', lambda: prune.strip_pruning(layers[0] if layers else L.Dense(2)), ValueError, 'strip of a layer')
  mon.nontrivial(sp['fam'], sp['b'], case['subset'], case['hist'], case['epochs'], case['fmt'])
  mon.sample = dict(fam=sp['fam'], subset=case['subset'], stripped=len(layers))
