"""C27: compression-aware layers compute the layer with the decompressed weight."""
import numpy as np

from lib import comp, zoo

PROP = 'C27'
RULE = ('one case = one random built model (dense, convolution, transposed, grouped, depthwise, separable, normalisation, noise, shared and nested layers, with and '
        'without biases, deferred-built) compressed with one algorithm (low-rank with the same or different training graph, periodic low-rank, clustering, bias '
        'mean) at one rank / cluster count, compared to a NumPy-compressed twin; non-trivial = distinct (family, algorithm, rank, biases)')
CLAUSES = ['outputs', 'low-rank', 'nearest', 'bias-mean', 'others-kept', 'original', 'enough-rank', 'stored', 'training-form', 'rejects']
ALGS = ['same', 'diff', 'cluster', 'bias', 'period']


def cases(rng, tier):
  out = []
  n = 100 if tier == 'quick' else 3000
  for i in range(n):
    sp = zoo.spec(rng, comp.FAMS)
    sp['fam'] = comp.FAMS[i % len(comp.FAMS)]
    out.append(dict(sp=sp, alg=rng.choice(ALGS), rank=rng.choice([1, 1, 2, 3, 5, 50]), n=rng.choice([1, 2, 3, 5, 8, 16]),
                    init=rng.choice(['LINEAR', 'KMEANS_PLUS_PLUS', 'DENSITY_BASED', 'RANDOM']), reject=i % 25 == 0, spread=rng.random() < .5))
  return out


def run(case, mon):
  import tensorflow as tf
  from tensorflow_model_optimization.python.core.clustering.keras import cluster_config
  from tensorflow_model_optimization.python.core.common.keras.compression.algorithms import bias_only, different_training_and_inference as diff, periodical_update_and_scheduling as per, same_training_and_inference as same, weight_clustering as wc
  k = zoo.K()
  sp, alg, rank = case['sp'], case['alg'], case['rank']
  m, x = comp.build(sp)
  if case['spread']:  # kernels with a wide singular spectrum
    r = np.random.RandomState(sp['seed'] + 7)
    for l in zoo.all_layers(m):
      if comp.compressible(l) and l.get_weights():
        ws = l.get_weights()
        ws[0] = (ws[0] * 10.**r.uniform(-3, .3, ws[0].shape[-1])).astype('f')
        l.set_weights(ws)
  twin, _ = comp.build(sp)
  twin.set_weights(m.get_weights())
  mon.event(alg); mon.event(sp['fam']); mon.nontrivial(sp['fam'], alg, rank if alg in ('same', 'diff', 'period') else case['n'], str(sp['b'][:4]))
  A = {'same': lambda: same.SVD(rank), 'diff': lambda: diff.SVD(rank), 'period': lambda: per.SVD(rank, update_freq=2, warmup_step=3), 'bias': bias_only.BiasOnly,
       'cluster': lambda: wc.WeightClustering(case['n'], getattr(cluster_config.CentroidInitialization, case['init']))}[alg]()
  if case['reject']:
    class Sub(k.Model):
      def call(self, x): return x
    unb = k.Sequential([k.layers.Dense(2)])
    if alg in ('same', 'diff', 'bias'):
      mon.raises('rejects', lambda: A.compress_model(Sub()), ValueError, 'a subclassed model')
    mon.raises('rejects', lambda: (A.optimize_model if alg == 'period' else A.compress_model)(unb), (ValueError, AttributeError), 'an unbuilt model')
  if alg == 'cluster' and case['init'] == 'KMEANS_PLUS_PLUS' and any(comp.compressible(l) and l.get_weights()[0].size < case['n'] for l in zoo.all_layers(m)):
    return mon.event('too-many-clusters')  # k-means++ cannot draw more centroids than weights
  w0, y0, cfg0 = [v.copy() for v in m.get_weights()], zoo.outputs(m, x), str(m.get_config())
  kinds = [type(l) for l in m.layers]
  if alg == 'period':
    tr = A.optimize_model(m)
    got = zoo.outputs(tr, x)
    mon.check('training-form', zoo.close(got, y0, 1e-4), 'the model prepared for periodic compression computes another function')
    c = A.compress_model(tr)
  else:
    c = A.compress_model(m)
  mon.check('original', all(np.array_equal(a, b) for a, b in zip(w0, m.get_weights())) and zoo.close(zoo.outputs(m, x), y0, 0.) and str(m.get_config()) == cfg0
            and kinds == [type(l) for l in m.layers], 'the original model changed')
  # compress the twin by hand
  svd = alg in ('same', 'diff', 'period')
  sufficient = True
  names = [l.name for l in zoo.all_layers(m)]
  cl = zoo.all_layers(c)
  mon.check('outputs', len(cl) == len(names), 'layers %s became %s' % (names, [l.name for l in cl]))
  order = {}
  for l in cl:
    inner = getattr(l, 'layer', l)
    order[inner.name] = l
  for l, name in zip(zoo.all_layers(twin), names):
    w = order.get(name)
    if w is None:
      mon.check('outputs', False, 'layer %s has no counterpart in %s' % (name, list(order)))
      continue
    ws = [v.copy() for v in l.get_weights()]
    cw = w.get_weights()
    if comp.compressible(l) and ws and (svd or alg == 'cluster' or l.use_bias):
      i = 1 if alg == 'bias' else 0
      rest = ws[:i] + ws[i + 1:]
      own, others = cw[:2], cw[2:]
      o = ws[i]
      if svd:
        ws[i] = comp.trunc(o, rank).astype('f')
        r = min(rank, o.shape[-1], o.shape[-2])
        sufficient &= r == min(o.shape[-1], o.shape[-2])
        mon.check('stored', own[0].shape == o.shape[:-1] + (r,) and own[1].shape == o.shape[:-2] + (r, o.shape[-1]),
                  lambda: '%s of shape %s stored as %s at rank %d' % (l.name, o.shape, [q.shape for q in own], rank))
        back = np.matmul(np.asarray(own[0], np.float64), own[1])
        mon.check('low-rank', back.shape == o.shape and np.max(np.abs(back - ws[i])) <= 2e-5 * np.max(np.abs(o)) * max(o.shape[-2:]) + 1e-7,
                  lambda: '%s: factors are off the best rank-%d approximation by %g' % (l.name, rank, np.max(np.abs(back - ws[i]))))
      elif alg == 'cluster':
        cen, idx = own
        mon.check('stored', cen.shape == (case['n'],) and idx.shape == o.shape and idx.min() >= 0 and idx.max() < len(cen), lambda: '%s stored as %s, %s' % (l.name, cen.shape, idx.shape))
        d = np.abs(o[..., None].astype(np.float64) - cen)
        mine = np.take_along_axis(d, idx[..., None].astype(int), -1)[..., 0]
        mon.check('nearest', np.all(mine <= d.min(-1) + 1e-6 * (1 + np.abs(o))), lambda: '%s: a weight is not at its nearest centroid' % l.name)
        ws[i] = cen[idx]
        sufficient = False
      else:
        mon.check('bias-mean', abs(float(own[0]) - o.mean()) <= 1e-5 * max(1., np.abs(o).max()), lambda: '%s: %s stored for a bias of mean %s' % (l.name, own[0], o.mean()))
        mon.check('stored', own[0].shape == () and list(own[1]) == list(o.shape), lambda: '%s: stored %s' % (l.name, own))
        ws[i] = np.full_like(o, o.mean())
        sufficient = False
      l.set_weights(ws)
    else:
      rest, others = ws, cw
    mon.check('others-kept', len(rest) == len(others) and all(p.shape == q.shape and np.array_equal(p, q) for p, q in zip(rest, others)),
              lambda: '%s: uncompressed weights %s became %s' % (l.name, [np.asarray(q).ravel()[:3] for q in rest], [np.asarray(q).ravel()[:3] for q in others]))
  got, want = zoo.outputs(c, x), zoo.outputs(twin, x)
  mon.check('outputs', zoo.close(got, want, 2e-4), lambda: '%s rank %s: outputs off by %s' % (alg, rank, [float(np.max(np.abs(a - b))) if a.shape == b.shape else (a.shape, b.shape) for a, b in zip(got, want)]))
  if sufficient and svd:
    mon.check('enough-rank', zoo.close(got, y0, 2e-4), lambda: 'outputs changed although rank %d suffices' % rank)
  # a second call and a traced call compute the same
  again = [np.asarray(v) for v in tf.nest.flatten(tf.function(lambda a: c(a, training=False))(x))]
  mon.check('outputs', zoo.close(again, got, 1e-4) and zoo.close([np.asarray(v) for v in tf.nest.flatten(c.predict(x, verbose=0))], got, 1e-4), 'traced or predicted outputs differ')
