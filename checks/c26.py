"""C26: the cluster-preserving quantization scheme keeps clusters (and zeros if asked).

Random graphs whose kernels are clustered over the whole kernel or per channel, by the library or by
hand, some of them sparse, some dense, some not clustered at all, are quantized with the
cluster-preserving scheme. The kernel variables and every kernel in use are observed through eager
passes and compiled training (a recorder in the layers' calls), the trainable cluster variables are
also moved at random, and the model is stripped at the end. The oracle counts distinct values per
kernel and channel and looks at the positions that held zeros."""
import numpy as np

from checks import c25
from lib import qwatch, qzoo, zoo

PROP = 'C26'
RULE = ('one case = one random (partly annotated) graph whose kernels are clustered globally, per channel or not at all, sparse or not, the sparsity flag, an optimizer and a number of steps; '
        'non-trivial = distinct (graph, patterns, flag)')
CLAUSES = ['format', 'strip-kinds', 'count', 'count-used', 'count-compiled', 'zeros', 'zeros-compiled', 'steady', 'same-start', 'stripped', 'strip-outputs', 'kernel', 'rejects']
PATTERNS = ['global', 'global', 'channel', 'channel', 'none', 'uneven', 'global-sparse', 'channel-sparse', 'channel-partly-sparse', 'single', 'pair', 'global-sparse']
CLUSTER_VARS = ('cluster_centroids_tf', 'ori_weights_vars_tf', 'pulling_indices_tf')


def cases(rng, tier):
  out = [dict(kind='rejects'), dict(kind='names')] + [dict(kind='regularized', opt=o) for o in ('adam', 'rmsprop')]
  out += [dict(kind='wide', n=n, seed=i) for i, n in enumerate([rng.randrange(100, 257), rng.randrange(257, 1024), 1024] + ([] if tier == 'quick' else [2, 64, 128, 129, 255, 256, 511, 512, 513, 1023]))]
  out += [dict(kind='format', per=per, sparse=sparse, seed=rng.randrange(10**6)) for per, sparse in ([(True, False), (True, True), (False, False)] * (1 if tier == 'quick' else 10))]
  out += [dict(kind='nested', seed=rng.randrange(10**6))]
  for i in range(32 if tier == 'quick' else 900):
    sp = qzoo.spec(rng, kind=rng.choice(['img', 'img', 'img', 'vec', 'seq']), size=rng.randrange(1, 4 if tier == 'quick' else 7), finding=i % 9 == 0, ban=('trans', 'trans_bn', 'trans_bn_relu', 'trans_relu', 'dropout', 'sdrop', 'sdrop1'))
    out.append(dict(kind='api' if i % 5 == 4 else 'model', sp=sp, sparse=bool(i % 2), part=rng.choice([0, 0, 1]), opt=rng.choice(['sgd', 'momentum', 'adam', 'rmsprop', 'adagrad']),
                    steps=rng.choice([1, 2, 3]) if tier == 'quick' else rng.choice([1, 3, 6]), lr=rng.choice([.01, .1, .5]), seed=rng.randrange(10**6)))
  return out


def clustered(a, pattern, r):
  """Kernel values after clustering by hand."""
  n = int(r.randint(2, 7))
  draw = lambda s, c: c[r.randint(len(c), size=s)]
  cent = lambda: (np.sort(r.randn(n)) * r.choice([.3, 1., 3.])).astype('f')
  if pattern == 'none':
    return a
  if pattern == 'single':
    return np.full_like(a, .25)
  if pattern == 'pair':
    n = 2
  if pattern.startswith('channel') and a.ndim == 4:
    cs = [cent() for _ in range(a.shape[-1])]
    b = np.stack([draw(a.shape[:-1], c) for c in cs], -1)
    if 'sparse' in pattern:
      for j in range(a.shape[-1]):
        if 'partly' not in pattern or r.rand() < .5:
          z = cs[j][int(np.argmin(np.abs(cs[j])))]
          b[..., j][b[..., j] == z] = 0
    return b.astype('f')
  if pattern == 'uneven' and a.ndim == 4:
    # a kernel clustered as a whole whose channels use different numbers of clusters
    c = cent()
    return np.stack([draw(a.shape[:-1], c[:r.randint(1, n + 1)]) for _ in range(a.shape[-1])], -1).astype('f')
  c = cent()
  b = draw(a.shape, c)
  if 'sparse' in pattern:
    b[b == c[int(np.argmin(np.abs(c)))]] = 0
  return b.astype('f')


def by_api(m, case, r):
  from tensorflow_model_optimization.python.core.clustering.keras import cluster, cluster_config as cc
  from tensorflow_model_optimization.python.core.clustering.keras.experimental import cluster as xc
  k = zoo.K()
  n = int(r.randint(3, 6))
  for l in m.layers:
    if case['sparse'] and type(l).__name__ in ('Dense', 'Conv2D'):
      w = l.get_weights()
      w[0][r.rand(*w[0].shape) < .4] = 0
      l.set_weights(w)
  pc = bool(r.rand() < .5)
  init = [cc.CentroidInitialization.LINEAR, cc.CentroidInitialization.KMEANS_PLUS_PLUS, cc.CentroidInitialization.DENSITY_BASED][r.randint(3) if not case['sparse'] else 0]
  fit = lambda l: type(l).__name__ in ('Dense', 'Conv2D') and np.prod(l.kernel.shape) // (l.kernel.shape[-1] if pc and type(l).__name__ == 'Conv2D' else 1) > n
  c = k.models.clone_model(m, clone_function=lambda l: xc.cluster_weights(l, n, init, preserve_sparsity=case['sparse'], cluster_per_channel=pc) if fit(l) else l)
  return cluster.strip_clustering(c)


def kernel_var(n):
  return [w for w in n.layer.weights if w.name.split('/')[-1].split(':')[0] == 'kernel'][0]


class Keep:
  """What one kernel has to keep."""

  def __init__(self, a, conv, sparse, found):
    self.zero = (a == 0) if sparse else np.zeros(a.shape, bool)
    self.conv = conv
    self.total = len(np.unique(a))
    self.per = max(len(np.unique(a[..., j])) for j in range(a.shape[-1])) if conv else self.total
    # single values and very many values are not treated as clusters (with a warning)
    self.counts = 1 < self.total <= 1024 and self.per > 1
    self.found = found

  def count(self, a):
    """Why the kernel has too many values, or None."""
    if not self.counts:
      return None
    t = len(np.unique(a))
    p = max(len(np.unique(a[..., j])) for j in range(a.shape[-1])) if self.conv else t
    if t <= self.total or p <= self.per < self.total:
      return None
    return '%d distinct values (%d in one channel) instead of %d (%d)' % (t, p, self.total, self.per)

  def count_used(self, a):
    """Channels have their own scales when quantized."""
    if not self.counts:
      return None
    p = max(len(np.unique(a[..., j])) for j in range(a.shape[-1])) if self.conv else len(np.unique(a))
    return None if p <= (self.total if self.per == self.total else max(self.per, self.total)) else '%d distinct values in one channel instead of %d' % (p, self.per)

  def lost(self, a):
    return int((self.zero & (a != 0)).sum())


def run(case, mon):
  from tensorflow_model_optimization.python.core.quantization.keras.collab_opts.cluster_preserve import cluster_utils, default_8bit_cluster_preserve_quantize_scheme as C
  k = zoo.K()
  L = k.layers
  r = np.random.RandomState(case.get('seed', 1))
  scheme = C.Default8BitClusterPreserveQuantizeScheme(case.get('sparse', True))
  if case['kind'] == 'rejects':
    for l, s in ((L.Conv2DTranspose(2, 2), (4, 4, 2)), (L.Conv1D(2, 2), (4, 2)), (L.LSTM(2), (4, 2))):
      m = k.Sequential([L.InputLayer(s), l])
      mon.raises('rejects', lambda: qwatch.quantize(m, None, scheme=scheme), (ValueError, RuntimeError), type(l).__name__)
    for v in (None, 'model', 3, [L.Dense(2)]):
      mon.raises('rejects', lambda: cluster_utils.strip_clustering_cqat(v), ValueError, repr(v))
    return
  if case['kind'] == 'regularized':
    m = k.Sequential([L.InputLayer((20,)), L.Dense(20, kernel_regularizer=k.regularizers.l2(.05)), L.Dense(3)])
    m.set_weights([clustered(w, 'global', r) for w in m.get_weights()])
    q = qwatch.quantize(m, None, scheme=C.Default8BitClusterPreserveQuantizeScheme(False))
    q.compile(c25.opt(case['opt']), 'mse')
    v = [w for w in q.layers[1].weights if w.name.split('/')[-1] == 'kernel:0'][0]
    n = len(np.unique(v.numpy()))
    q.fit(r.randn(64, 20), r.randn(64, 3), epochs=10, batch_size=16, verbose=0)
    mon.check('count', len(np.unique(v.numpy())) <= n, lambda: 'a kernel with a regularizer has %d distinct values after training with %s instead of %d' % (len(np.unique(v.numpy())), case['opt'], n), mechanism='regularized-kernel')
    return
  if case['kind'] in ('format', 'nested'):
    return globals()['run_' + case['kind']](case, mon)
  if case['kind'] == 'wide':
    # many clusters, up to the largest number the scheme promises to keep
    m = k.Sequential([L.InputLayer((5, 5, 12)), L.Conv2D(16, 3), L.Flatten(), L.Dense(24)])
    c = np.random.RandomState(case['n']).permutation(np.linspace(-1, 1, case['n'])).astype('f')
    m.set_weights([np.concatenate([c, r.choice(c, w.size - len(c))])[r.permutation(w.size)].reshape(w.shape).astype('f') if w.ndim > 1 else w for w in m.get_weights()])
    observe(dict(case, steps=2, opt='sgd', lr=.05), mon, m, qzoo.batch(m, r), None, qwatch.quantize(m, None, scheme=C.Default8BitClusterPreserveQuantizeScheme(False)), r, False, '%d clusters' % case['n'])
    return
  if case['kind'] == 'names':
    # what a layer is called does not matter
    for name in ('conv', 'depthwise_like', 'quant_x', 'pulling', 'my_cluster'):
      m = k.Sequential([L.InputLayer((5, 5, 2)), L.Conv2D(3, 3, name=name), L.Flatten(), L.Dense(2, name=name + '_dense')])
      m.set_weights([clustered(w, 'global', r) for w in m.get_weights()])
      observe(dict(case, steps=1, opt='sgd', lr=.1, names=True), mon, m, qzoo.batch(m, r), None, qwatch.quantize(m, None, scheme=C.Default8BitClusterPreserveQuantizeScheme(False)), r, False, name)
    return
  m, x, groups = qzoo.build(case['sp'])
  if not qzoo.valid(m):
    return mon.event('unsupported')
  used = []
  if case['kind'] == 'api':
    m = by_api(m, case, r)
    used = ['api']
  else:
    for l in m.layers:
      for v in l.weights:
        if v.name.split('/')[-1].split(':')[0] in ('kernel', 'pointwise_kernel', 'depthwise_kernel'):
          p = PATTERNS[r.randint(len(PATTERNS))]
          v.assign(clustered(v.numpy(), p, r))
          used.append(p)
  names = qwatch.annotate(case, m, groups)
  if not qwatch.supported(names, m, groups):
    return mon.event('unsupported')
  for p in used:
    mon.event('pattern ' + p)
  q = qwatch.quantize(m, names, scheme=scheme)
  sig = observe(case, mon, m, x, names, q, r, case['sparse'], '')
  mon.nontrivial(sig, str(used), case['sparse'], case['opt'])
  mon.sample = dict(graph=sig, patterns=used, sparse=case['sparse'])


def run_format(case, mon):
  """Convolutions with the channels first keep the clusters of their channels as others do.

  (XLA compiles what the CPU kernels cannot run.)
  """
  import tensorflow as tf
  from tensorflow_model_optimization.python.core.quantization.keras.collab_opts.cluster_preserve import cluster_utils, default_8bit_cluster_preserve_quantize_scheme as C
  k = zoo.K()
  L = k.layers
  r = np.random.RandomState(case['seed'])
  u = r.randint(2, 6, size=4)
  def make(fmt):
    return k.Sequential([L.InputLayer((u[0], 6, 6) if fmt == 'channels_first' else (6, 6, u[0])), L.Conv2D(u[1], 3, activation='relu', data_format=fmt), L.Conv2D(u[2], 2, data_format=fmt),
                         L.Reshape((-1,)), L.Dense(u[3])])
  a, b = make('channels_first'), make('channels_last')
  pattern = ('channel' if case['per'] else 'global') + ('-sparse' if case['sparse'] else '')
  b.set_weights([clustered(r.randn(*w.shape).astype('f'), pattern, r) if w.ndim > 1 else w for w in b.get_weights()])
  a.set_weights(b.get_weights())
  x = r.randn(5, u[0], 6, 6).astype('f')
  for m, v in ((a, tf.constant(x)), (b, tf.constant(x.transpose(0, 2, 3, 1)))):
    fmt = m.layers[0].data_format
    keep = [Keep(l.kernel.numpy(), len(l.kernel.shape) == 4, case['sparse'], False) for l in m.layers if hasattr(l, 'kernel')]
    q = qwatch.quantize(m, None, scheme=C.Default8BitClusterPreserveQuantizeScheme(case['sparse']))
    kernels = [[w for w in l.weights if w.name.split('/')[-1].split(':')[0] == 'kernel'][0] for l in q.layers if hasattr(getattr(l, 'layer', None), 'kernel')]

    def look(where):
      for o, w in zip(keep, kernels):
        why = o.count(w.numpy())
        mon.check('format', not why and not o.lost(w.numpy()), lambda: '%s (%s) %s, %s: %s, %d zeros lost' % (w.name, w.shape, fmt, where, why, o.lost(w.numpy())))

    @tf.function(jit_compile=True)
    def step(v):
      with tf.GradientTape() as t:
        loss = tf.reduce_mean(tf.square(q(v, training=True) - 1.))
      return [tf.convert_to_tensor(g) if g is not None else tf.zeros_like(w) for g, w in zip(t.gradient(loss, q.trainable_variables), q.trainable_variables)]
    look('fresh')
    before = [w.numpy() for w in kernels]
    mon.check('format', len(kernels) == len(keep) == 3, 'kernels')
    for s in range(3):
      for w, g in zip(q.trainable_variables, step(v)):
        w.assign_sub(.1 * g / (1. + tf.norm(g)))
      step(v)     # the kernel variables follow in the next pass
      look('step %d' % s)
    mon.event('formats kernels moved', sum(not np.array_equal(p, w.numpy()) for p, w in zip(before, kernels)))
    s = cluster_utils.strip_clustering_cqat(q)
    for l in s.layers:
      w = [z for z in l.weights if z.name.split('/')[-1].split(':')[0] == 'kernel']
      if w:
        o = keep.pop(0)
        mon.check('format', not o.count(w[0].numpy()) and not o.lost(w[0].numpy()), lambda: '%s stripped: %s' % (l.name, o.count(w[0].numpy())))
  mon.nontrivial('format', case['per'], case['sparse'])


def run_nested(case, mon):
  """Stripping reaches the models inside of a model, and takes single layers."""
  from tensorflow_model_optimization.python.core.quantization.keras.collab_opts.cluster_preserve import cluster_utils, default_8bit_cluster_preserve_quantize_scheme as C
  k = zoo.K()
  L = k.layers
  r = np.random.RandomState(case['seed'])
  left = lambda m: [w.name for w in m.weights if any(c in w.name for c in CLUSTER_VARS)]

  def make():
    m = k.Sequential([L.InputLayer((5, 5, 2)), L.Conv2D(3, 3, name='c_in'), L.ReLU(name='r_in'), L.Flatten(name='f_in'), L.Dense(4, name='d_in')])
    m.set_weights([clustered(r.randn(*w.shape).astype('f'), 'global', r) if w.ndim > 1 else w for w in m.get_weights()])
    q = qwatch.quantize(m, None, scheme=C.Default8BitClusterPreserveQuantizeScheme(False))
    q.compile('sgd', 'mse')
    q.fit(r.randn(6, 5, 5, 2), r.randn(6, 4), epochs=1, verbose=0)
    return q
  x = r.randn(4, 5, 5, 2).astype('f')
  q = make()
  i = k.Input((5, 5, 2))
  outer = k.Model(i, L.Dense(2, name='tail')(L.ReLU(name='mid')(q(i))))
  want, kernels = outer.predict(x, verbose=0), {w.name: w.numpy() for w in q.weights if '/kernel:' in w.name}
  mon.check('strip-kinds', len(left(outer)) > 1, 'nothing to strip in the nested model')
  s = cluster_utils.strip_clustering_cqat(outer)
  mon.check('strip-kinds', not left(s), lambda: 'left in a nested model: %s' % left(s))
  got = s.predict(x, verbose=0)
  mon.check('strip-kinds', np.allclose(got, want, atol=1e-5), lambda: 'stripping a nested model changed the predictions by %g' % np.abs(got - want).max())
  inner = [l for l in s.layers if isinstance(l, k.Model)]
  have = [w.numpy() for m in inner for w in m.weights if '/kernel:' in w.name]
  mon.check('strip-kinds', len(have) == 2 == len(kernels) and all(np.array_equal(p, v) for p, v in zip(have, kernels.values())), 'stripping a nested model changed its kernels')
  for l in make().layers:
    had = [w.name for w in l.weights if not any(c in w.name for c in CLUSTER_VARS)]
    kern = [w.numpy() for w in l.weights if '/kernel:' in w.name]
    t = cluster_utils.strip_clustering_cqat(l)
    mon.check('strip-kinds', not left(t) and sorted(w.name for w in t.weights) == sorted(had), lambda: '%s alone: left %s of %s' % (l.name, [w.name for w in t.weights], had))
    mon.check('strip-kinds', all(np.array_equal(p, w.numpy()) for p, w in zip(kern, [w for w in t.weights if '/kernel:' in w.name])), lambda: '%s alone: kernel changed' % l.name)
  mon.event('nested models stripped')


def observe(case, mon, m, x, names, q, r, sparse, tag):
  from tensorflow_model_optimization.python.core.quantization.keras.collab_opts.cluster_preserve import cluster_utils
  k = zoo.K()
  orig = {l.name: l.get_weights() for l in m.layers}
  g, plan = qzoo.plan(q, m, None if names is None else set(names))
  keep, kernels = {}, {}
  for n, e in plan:
    if e['weights'] and e['cls'] in ('Conv2D', 'Dense'):
      v = kernel_var(n)
      name = n.layer.name
      inner = qzoo.inner(n.layer).name
      if inner in orig:
        mon.check('same-start', np.array_equal(v.numpy(), orig[inner][0]), lambda: '%s starts from other weights' % name)
      found = e['finding'] and not hasattr(n.layer.quantize_config, 'weight_quantizer')
      o = Keep(v.numpy(), e['cls'] == 'Conv2D', sparse, found)
      if found:
        if o.counts or o.zero.any():
          mon.check('kernel', False, lambda: '%s: neither quantized nor kept clustered' % name, mechanism='float-kernel-before-relu')
        continue
      keep[name], kernels[name] = o, v
      mon.event('kernels with clusters', o.counts)
      mon.event('kernels with zeros to keep', o.zero.any())
      mon.event('kernels left free', not o.counts and not o.zero.any())
  inner = {n.layer.name: qzoo.inner(n.layer) for n, e in plan}

  def look(where, used=True):
    for name, o in keep.items():
      a = kernels[name].numpy()
      why = o.count(a)
      mon.check('count', not why, lambda: '%s %s: %s' % (where, name, why))
      mon.check('zeros', not o.lost(a), lambda: '%s %s: %d of %d zeros lost' % (where, name, o.lost(a), int(o.zero.sum())))
      if used:
        u = np.asarray(inner[name].kernel)
        w = o.count_used(u)
        mon.check('count-used', not w, lambda: '%s %s in use: %s' % (where, name, w))
        mon.check('zeros', not o.lost(u), lambda: '%s %s in use: %d zeros lost' % (where, name, o.lost(u)))

  w = qwatch.Watch(q, m, names, mon, tolerate=True)
  w.step(x, False, 'fresh'); look('fresh')
  before = {n: v.numpy() for n, v in kernels.items()}
  w.step(x, True, 'first step'); look('first step')
  for n, v in kernels.items():
    mon.check('steady', np.array_equal(v.numpy(), before[n]), lambda: '%s: a training pass without an update changed the kernel by %g' % (n, np.abs(v.numpy() - before[n]).max()))
  for s in range(2):
    # move the cluster variables and everything else, as an optimizer could
    mine = {id(v) for v in kernels.values()}
    for v in q.trainable_weights:
      if id(v) not in mine or not keep[[n for n, z in kernels.items() if z is v][0]].counts and not keep[[n for n, z in kernels.items() if z is v][0]].zero.any():
        v.assign(v.numpy() + (r.randn(*v.shape) * r.choice([.05, .5])).astype('f'))
    w.step(x, False, 'moved %d' % s); look('moved %d' % s)
    w.step(qzoo.batch(m, r), True, 'moved %d' % s); look('moved %d, training' % s)
  logs = {n: [] for n in keep}
  for n in keep:
    c25.record(inner[n], logs[n])
  opt = c25.opt(case['opt'])
  opt.learning_rate = case['lr'] * (.1 if case['opt'] in ('adam', 'rmsprop') else 1.)
  q.compile(opt, 'mse')
  for s in range(case['steps']):
    xb = qzoo.batch(m, r)
    yb = [r.randn(*[6] + list(o.shape[1:])).astype('f') for o in q.outputs]
    q.fit(xb, yb if len(yb) > 1 else yb[0], batch_size=3, epochs=1, verbose=0)
    look('fitted %d' % s, used=False)
  finite = all(np.isfinite(v).all() for v in q.get_weights())
  if not finite:
    mon.event('diverged')
    return str(w.g.signature())
  out = q.predict(x, verbose=0)
  for n, log in logs.items():
    o = keep[n]
    bad = [b for b in [o.count_used(u) for u in log] if b]
    mon.check('count-compiled', len(log) > case['steps'] and not bad, lambda: '%s: %d kernels seen in compiled passes: %s' % (n, len(log), bad[:3]))
    mon.check('zeros-compiled', not any(o.lost(u) for u in log), lambda: '%s: zeros lost in compiled passes: %s' % (n, [o.lost(u) for u in log]))
    mon.event('compiled kernels seen', len(log))
    mon.event('kernels that moved', int(not np.array_equal(before[n], kernels[n].numpy())))
  left = {n: v.numpy() for n, v in kernels.items()}
  s = cluster_utils.strip_clustering_cqat(q)
  extra = [v.name for v in s.weights if any(c in v.name for c in CLUSTER_VARS)]
  mon.check('stripped', not extra, lambda: '%s cluster variables left after stripping: %s' % (tag, extra))
  got = s.predict(x, verbose=0)
  fl = lambda v: v if isinstance(v, list) else [v]
  mon.check('strip-outputs', all(a.shape == b.shape and np.mean(np.abs(a - b) > 1e-4 * (1 + np.abs(b))) < .02 for a, b in zip(fl(got), fl(out))), 'stripping changed the predictions')
  now = {l.name: l for l in s.layers}
  for n, o in keep.items():
    a = [v for v in now[n].weights if v.name.split('/')[-1].split(':')[0] == 'kernel'][0].numpy()
    why = o.count(a)
    mon.check('stripped', np.array_equal(a, left[n]) and not why and not o.lost(a), lambda: '%s: the stripped kernel changed or %s' % (n, why))
  return str(w.g.signature())
