"""C15: stripping clustering returns an ordinary model with clustered weights."""
import os
import shutil
import tempfile
import numpy as np
from checks import c07
from lib import clus, zoo

PROP = 'C15'
CLAUSES = ['no-wrappers', 'structure', 'config', 'weights', 'count', 'outputs', 'assign', 'fine-tune', 'plain-reload', 'ordinary-weights', 'rejects']
RULE = ('one case = a clustered model (whole or part, any options) trained for a random time and stripped; the result is compared with a never '
        'clustered twin in structure, configuration, weights list and outputs, then assigned new weights, fine-tuned and saved and reloaded '
        'without any scope, each time in step with the twin; non-trivial = distinct (family, options, history, format)')
FAMS = clus.FAMS


def cases(rng, tier):
  out = []
  for i in range(34 if tier == 'quick' else 700):
    sp = zoo.spec(rng, [FAMS[i % len(FAMS)]])
    pc = sp['fam'] in ('conv', 'convs') and rng.random() < .6
    out.append(dict(sp=sp, n=rng.choice([3, 3, 4, 5, 8]), init=rng.choice(['LINEAR', 'RANDOM', 'DENSITY_BASED']), pc=pc,
                    preserve=rng.random() < .2, some=rng.random() < .25, hist=rng.choice(['none', 'fit', 'fit', 'eager', 'assign']),
                    direct=rng.random() < .5, fmt=rng.choice(['h5', 'h5', 'keras', 'keras', 'tf', 'weights', 'clone']), seed=rng.randrange(10**6), cost=3))
  out.append(dict(kind='reject'))
  return out


def run(case, mon):
  import tensorflow as tf
  from tensorflow_model_optimization.python.core.keras.compat import keras
  from tensorflow_model_optimization.python.core.clustering.keras import cluster, cluster_wrapper as cw
  if case.get('kind') == 'reject':
    for bad in (keras.layers.Dense(3), 'model', None, [keras.Sequential([keras.layers.Dense(2, input_shape=(2,))])]):
      mon.raises('rejects', lambda: cluster.strip_clustering(bad), ValueError, repr(bad))
    return
  sp, n = case['sp'], case['n']
  fam = sp['fam']
  subset = None
  if case['some'] and fam != 'nested':
    pick, box = np.random.RandomState(case['seed']).rand(40) < .5, {}
    subset = lambda l: bool(pick[box.setdefault(id(l), len(box))])
  rig = clus.Rig(sp, n, case['init'], per_channel=case['pc'], preserve=case['preserve'], zeros=.3 if case['preserve'] else 0., subset=subset)
  m, x, t = rig.model, rig.x, rig.twin
  keepalive = rig.base
  xs = x if isinstance(x, list) else [x]
  y = zoo.targets(m, len(xs[0]), case['seed'])
  r = np.random.RandomState(case['seed'])
  m.compile(keras.optimizers.legacy.SGD(.02), 'mse')
  if case['hist'] == 'fit':
    m.fit(x, y, batch_size=4, epochs=2, verbose=0)
  elif case['hist'] == 'eager':
    m.run_eagerly = True
    m.train_on_batch(x, y)
  elif case['hist'] == 'assign':
    for it in rig.items():
      it[3].assign(it[3].numpy() + r.randn(*it[3].shape) * .2)
  if not all(np.isfinite(v).all() and np.abs(v).max(initial=0) < 1e4 for v in m.get_weights()):
    return
  # stripped straight after the last step, or after an inference
  s = cluster.strip_clustering(m) if case['direct'] and 'mha' not in fam else None        # a stripped attention layer is the clustered model's own
  before = zoo.outputs(m, x)
  kept = {}
  for it in rig.items():
    want, tie, _ = rig.assigned(it)
    got = np.asarray(it[1].get_weight_from_layer(it[5]))
    kept[id(it[3])] = got if case['preserve'] else np.where(tie, got, want)
  rig.sync(kept)
  where = '%s %s pc=%s' % (fam, case['hist'], case['pc'])
  s = cluster.strip_clustering(m) if s is None else s
  # --- structure
  ls, lt = zoo.all_layers(s), zoo.all_layers(t)
  mon.check('no-wrappers', not any(isinstance(l, cw.ClusterWeights) or 'cluster' in l.name for l in ls), where)
  mon.check('structure', [type(l).__name__ for l in ls] == [type(l).__name__ for l in lt], lambda: '%s: %s instead of %s' % (where, [l.name for l in ls], [l.name for l in lt]))
  mon.check('structure', [l.name for l in ls] == [l.name for l, _, _, _, _ in rig.leaves], lambda: '%s: %s instead of %s' % (where, [l.name for l in ls], [l[0].name for l in rig.leaves]))
  for a, b in zip(ls, lt):
    ca, cb = a.get_config(), b.get_config()
    ca.pop('name'), cb.pop('name')
    mon.check('config', ca == cb or type(a).__name__ in ('RNN', 'Bidirectional', 'LSTM', 'GRU', 'SimpleRNN', 'MultiHeadAttention'),
              lambda: '%s %s: configuration %s, expected %s' % (where, a.name, ca, cb))
  if fam in ('residual', 'two_in', 'probe', 'crossmha'):
    mon.check('structure', c07.topology(s) == c07.topology(t), lambda: '%s: graph changed' % where)
  # --- weights
  ws, wt = s.weights, t.weights
  mon.check('ordinary-weights', all(isinstance(w, tf.Variable) for w in ws) and not any(q in w.name for w in ws for q in ('centroid', 'pulling', 'sparsity_mask', 'zero_idx', 'original_weight')), lambda: '%s: %s' % (where, [w.name for w in ws]))
  ok = mon.check('weights', [w.shape for w in ws] == [w.shape for w in wt] and [w.trainable for w in ws] == [w.trainable for w in wt] and
                 [w.name.split('/')[-1] for w in ws] == [w.name.split('/')[-1] for w in wt],
                 lambda: '%s: weights %s, expected %s' % (where, [(w.name, w.shape) for w in ws], [(w.name, w.shape) for w in wt]))
  if not ok:
    return
  for (l, vs, _, _, _), q in zip(rig.leaves, ls):
    mon.check('weights', [w.name.split('/')[0] for w in q.weights] == [q.name if '/' in w.name else w.name for w in vs], lambda: '%s %s: weights %s' % (where, q.name, [w.name for w in q.weights]))
  mon.check('weights', all(np.allclose(a.numpy(), b.numpy(), rtol=1e-6, atol=1e-7) for a, b in zip(ws, wt)),
            lambda: '%s: values of %s differ from the clustered model' % (where, [a.name for a, b in zip(ws, wt) if not np.allclose(a.numpy(), b.numpy(), rtol=1e-6, atol=1e-7)]))
  for i, (l, _, cl, _, _) in enumerate(rig.leaves):
    if not cl:
      continue
    for path, v in clus.clusterable(ls[i]).items():
      if path in cl:
        mon.check('ordinary-weights', isinstance(v, tf.Variable), lambda: '%s %s: %s is no variable' % (where, l.name, path))
        a = v.numpy()
        mon.check('count', clus.distinct(a, clus.is_pc(rig, l)) <= n, lambda: '%s %s %s: %d distinct values, %d clusters' % (where, l.name, path, clus.distinct(a, clus.is_pc(rig, l)), n))
        mon.event('stripped tensors')
  mon.check('outputs', zoo.close(zoo.outputs(s, x), before, 2e-5), lambda: '%s: outputs changed by stripping' % where)
  mon.check('outputs', zoo.close(zoo.outputs(s, x), zoo.outputs(t, x), 2e-5), lambda: '%s: outputs differ from the plain model with the clustered weights' % where)
  mon.nontrivial(fam, case['pc'], case['preserve'], case['some'], case['hist'], case['fmt'])
  # --- save and reload, no scope
  scope = keras.utils.custom_object_scope({'ModeProbe': clus.mode_probe()})
  d = tempfile.mkdtemp(prefix='c15_')
  try:
    fmt = case['fmt']
    with scope:
      if fmt in ('h5', 'keras', 'tf'):
        p = os.path.join(d, 'm' if fmt == 'tf' else 'm.' + fmt)
        s.save(p, save_format=fmt)
        s2 = keras.models.load_model(p)
      elif fmt == 'weights':
        p = os.path.join(d, 'w.h5')
        s.save_weights(p)
        s2, _ = clus.build(sp)
        s2.load_weights(p)
      else:
        s2 = keras.models.clone_model(s)
        s2.set_weights(s.get_weights())
    mon.check('plain-reload', zoo.close(zoo.outputs(s2, x), before, 2e-5), lambda: '%s: outputs changed by %s' % (where, fmt))
  finally:
    shutil.rmtree(d)
  # --- fine-tuning
  if fam in clus.STEADY:
    for q in (s, t):
      q.compile(keras.optimizers.legacy.SGD(.02), 'mse')
    calm = True
    for i in range(2):
      l1, l2 = s.train_on_batch(x, y), t.train_on_batch(x, y)
      calm = calm and all(np.isfinite(v).all() and np.abs(v).max(initial=0) < 1e4 for v in t.get_weights())
      calm and mon.check('fine-tune', np.allclose(l1, l2, rtol=1e-3, atol=1e-4), lambda: '%s: fine-tuning loss %s, plain model %s' % (where, l1, l2))
    bad = [a.name for a, b in zip(s.weights, t.weights) if not np.allclose(a.numpy(), b.numpy(), rtol=1e-3, atol=1e-4)]
    calm and mon.check('fine-tune', not bad, lambda: '%s: fine-tuning moves %s differently: %s' % (where, bad, [np.abs(a.numpy() - b.numpy()).max() for a, b in zip(s.weights, t.weights)]))
  # --- assignment
  new = [v + r.randn(*v.shape).astype('f') * .3 if 'variance' not in w.name else v for v, w in zip(s.get_weights(), s.weights)]
  s.set_weights(new)
  t.set_weights(new)
  mon.check('assign', zoo.close(zoo.outputs(s, x), zoo.outputs(t, x), 2e-5), lambda: '%s: assigning weights has no effect' % where)
  p = s.predict(x, verbose=0)
  mon.check('assign', zoo.close(p if isinstance(p, list) else [p], zoo.outputs(t, x), 2e-5), lambda: '%s: assigning weights has no effect in predict' % where)
