"""C11: initial centroids have the right count, range and spacing."""
import numpy as np

PROP = 'C11'
CLAUSES = ['count', 'finite', 'range', 'linear-even', 'density-order', 'density-cdf', 'kmeans-existing', 'kmeans-distinct', 'one-zero', 'sign-split',
           'per-channel', 'unknown-method', 'wrapper']
RULE = ('one case = one random weight tensor (skewed, one-signed, sparse, quantized, constant, tiny or large scale) and one cluster '
        'count, given to every initialiser, with and without zero centroid and per-channel mode, compared with numpy; '
        'non-trivial = distinct (method, mode, distribution, count)')
METHODS = ['LINEAR', 'RANDOM', 'DENSITY_BASED', 'KMEANS_PLUS_PLUS']
DISTS = ['normal', 'uniform', 'skewed', 'positive', 'negative', 'sparse', 'levels', 'twopoint', 'tiny', 'large', 'onepos', 'constant', 'outlier', 'offset']


def cases(rng, tier):
  out = []
  for i in range(140 if tier == 'quick' else 4000):
    nd = rng.choice([1, 2, 2, 3, 4, 4])
    big = {1: 60, 2: 14, 3: 6, 4: 4}[nd]
    out.append(dict(dist=DISTS[i % len(DISTS)], shape=[rng.randrange(2, big + 1) for _ in range(nd)], n=rng.choice([2, 3, 4, 5, 8, 12, 16, 32, 64]),
                    seed=rng.randrange(10**6), mode=rng.choice(['plain', 'plain', 'zero', 'zero', 'channel', 'zerochannel'])))
  return out


def tensor(case):
  r = np.random.RandomState(case['seed'])
  s, d = case['shape'], case['dist']
  a = r.randn(*s)
  if d == 'uniform':
    a = r.uniform(-1, 2, s)
  elif d == 'skewed':
    a = r.exponential(1, s)**2 - .1
  elif d == 'positive':
    a = np.abs(a) + .01
  elif d == 'negative':
    a = -np.abs(a) - .01
  elif d == 'sparse':
    a[r.rand(*s) < .7] = 0
  elif d == 'levels':
    a = np.round(a * 2) / 4
  elif d == 'twopoint':
    a = np.where(r.rand(*s) < .3, -1., 2.)
  elif d == 'tiny':
    a = a * 1e-3
  elif d == 'large':
    a = a * 50
  elif d == 'onepos':
    a = -np.abs(a)
    a.flat[r.randint(a.size)] = .7
  elif d == 'constant':
    a = np.full(s, r.randn())
  elif d == 'outlier':
    a.flat[0] = 40.
  elif d == 'offset':
    a = a * .05 + 3
  return a.astype('f')


def oracle(method, w, n, c, mon, zero=False, tag=''):
  """c: centroids for the values w (1-D), n requested."""
  ok = mon.check('count', c.shape == (n,), lambda: '%s %s: %s centroids, %d requested' % (method, tag, c.shape, n))
  if not ok or n == 0:
    return
  mon.check('finite', np.isfinite(c).all(), lambda: '%s %s: centroids %s' % (method, tag, c))
  lo, hi = float(w.min()), float(w.max())
  span = max(hi - lo, 1e-6)
  eps = 1e-5 * max(abs(lo), abs(hi), 1e-6)
  gap = 0.
  if method == 'DENSITY_BASED':
    gap = .01 if not zero else min(.01, min(abs(lo), abs(hi)) / 2)
  mon.check('range', (c >= lo - gap - eps).all() and (c <= hi + gap + eps).all(), lambda: '%s %s: centroids %s outside [%g, %g]' % (method, tag, c, lo, hi))
  if method == 'LINEAR':
    mon.check('linear-even', np.allclose(np.sort(c), np.linspace(lo, hi, n), atol=1e-5 * max(1e-3, abs(lo), abs(hi))), lambda: '%s: %s not even over [%g, %g]' % (tag, c, lo, hi))
  elif method == 'DENSITY_BASED':
    mon.check('density-order', (np.diff(c) >= -eps).all(), lambda: '%s: %s decreasing' % (tag, c))
    # equal probability steps: the share of weights below the i-th centroid is
    # that of its quantile, up to the documented 30-point grid of the CDF
    q = np.linspace(.01, 1, n)
    step = (hi - lo + 2 * gap) / 29
    ws = np.sort(w)
    low = np.searchsorted(ws, c - 1.01 * step - eps, 'right') / float(w.size)
    high = np.searchsorted(ws, c + 1.01 * step + eps, 'right') / float(w.size)
    bad = (low > q + 1e-5) | (high < q - 1e-5)
    mon.check('density-cdf', not bad.any(), lambda: '%s: centroids %s of quantiles %s do not follow the distribution' % (tag, c[bad], q[bad]))
  elif method == 'KMEANS_PLUS_PLUS':
    mon.check('kmeans-existing', np.isin(c, w).all(), lambda: '%s: %s are no weights' % (tag, c))
    if len(np.unique(w)) >= 2 and n >= 2:
      # points on a chosen centroid are never drawn again while others remain
      mon.check('kmeans-distinct', len(np.unique(c)) >= 2 if span > 1e-4 * max(abs(lo), abs(hi)) else True, lambda: '%s: %s all equal' % (tag, c))


def split(method, w, n, c, mon, tag):
  """Zero-centroid mode for the 1-D values w."""
  neg, pos = w[w < 0], w[w > 0]
  if not neg.size + pos.size:
    return mon.check('one-zero', np.all(c == 0) and c.size >= 1, lambda: '%s %s: %s for all-zero weights' % (method, tag, c))
  if not mon.check('count', c.shape == (n,), lambda: '%s %s: %s centroids, %d requested' % (method, tag, c.shape, n)):
    return
  zeros = int((c == 0).sum())
  mon.check('one-zero', zeros == 1, lambda: '%s %s: %d zero centroids in %s' % (method, tag, zeros, c))
  share = (n - 1) * neg.size / float(neg.size + pos.size)
  got = int((c < 0).sum())
  mon.check('sign-split', abs(got - share) <= .5 + 1e-4, lambda: '%s %s: %d negative centroids, share of negative weights is %g' % (method, tag, got, share))
  if method == 'RANDOM' or zeros != 1:
    pass
  oracle(method, neg, got, c[c < 0], mon, True, tag + ' negative') if got and neg.size else None
  oracle(method, pos, n - 1 - got, c[c > 0], mon, True, tag + ' positive') if n - 1 - got and pos.size else None


def run(case, mon):
  import tensorflow as tf
  from tensorflow_model_optimization.python.core.keras.compat import keras
  from tensorflow_model_optimization.python.core.clustering.keras import cluster_config as cc, clustering_centroids as ce
  mode = case['mode']
  if 'channel' in mode:
    case = dict(case, shape=(case['shape'] + [2, 3, 2, 2])[:4])
    case['shape'] = [max(v, 2) for v in case['shape']]
  a = tensor(case)
  F = ce.CentroidsInitializerFactory
  mon.check('unknown-method', not F.init_is_supported('NO_SUCH') and all(F.init_is_supported(getattr(cc.CentroidInitialization, q)) for q in METHODS))
  mon.raises('unknown-method', lambda: F.get_centroid_initializer('NO_SUCH'), ValueError, 'unknown initialisation')
  zero, chan = mode.startswith('zero'), 'channel' in mode
  if zero and case['seed'] % 3 == 0:
    a[..., 0] = 0
  for meth in METHODS:
    n = case['n']
    groups = [a[..., j].ravel() for j in range(a.shape[-1])] if chan else [a.ravel()]
    if zero:
      n = max(n, 3)
    if meth == 'KMEANS_PLUS_PLUS':
      # k-means++ draws that many points: fewer points are a user error
      room = []
      for g in groups:
        if not zero:
          room.append(g.size)
        else:
          neg, pos = int((g < 0).sum()), int((g > 0).sum())
          if neg + pos:
            room += [q for q in range(n, 2, -1) if np.floor((q - 1) * neg / (neg + pos) + .5) <= neg and np.floor((q - 1) * pos / (neg + pos) + .5) <= pos][:1] or [0]
      n = min([n] + room)
      if n < (3 if zero else 2):
        continue
    init = F.get_centroid_initializer(getattr(cc.CentroidInitialization, meth))(tf.Variable(a), n, chan, 'channels_last', zero)
    c = np.asarray(init.get_cluster_centroids())
    tag = '%s %s n=%d %s' % (case['dist'], case['shape'], n, mode)
    if chan:
      mon.check('per-channel', c.shape == (a.shape[-1], n), lambda: '%s %s: shape %s' % (meth, tag, c.shape))
      for j, g in enumerate(groups):
        (split if zero else oracle)(meth, g, n, c[j], mon, tag=tag + ' channel %d' % j)
    else:
      (split if zero else oracle)(meth, groups[0], n, c, mon, tag=tag)
    mon.nontrivial(meth, mode, case['dist'], n)
    mon.event('centroids', c.size)
    if case['seed'] % 5 == 0 and not chan and not zero and a.ndim == 2 and meth == 'LINEAR':
      from tensorflow_model_optimization.python.core.clustering.keras import cluster
      lay = keras.layers.Dense(a.shape[1], use_bias=False)
      lay.build((None, a.shape[0]))
      lay.set_weights([a])
      w = cluster.cluster_weights(lay, n, getattr(cc.CentroidInitialization, meth))
      w.build((None, a.shape[0]))
      cw = w.cluster_centroids['kernel'].numpy()
      mon.check('wrapper', np.allclose(cw, c, atol=0), lambda: 'wrapper starts from %s, initialiser gives %s' % (cw, c))
