"""C28: compression-aware training follows its schedule and exports what it trained."""
import numpy as np

from lib import comp, zoo

PROP = 'C28'
RULE = ('one case = one schedule sampled at boundary and random steps; or one model prepared for periodic low-rank training and driven through a random sequence '
        'of training batches, epochs with validation, evaluations, predictions and direct calls, with weights compared after every operation to a twin model '
        'trained by an independent loop (own projection, real optimizer), then exported; or short training of the other algorithms; non-trivial = distinct '
        '(family, rank, frequency, warm-up, optimizer, operation sequence)')
CLAUSES = ['schedule', 'trained-weights', 'step', 'inference-pure', 'exported', 'mode', 'other-trained', 'low-rank-now']
SGD = [('SGD', dict(learning_rate=.02)), ('SGD', dict(learning_rate=.01, momentum=.9)), ('Adam', dict(learning_rate=.01)), ('RMSprop', dict(learning_rate=.01))]


def cases(rng, tier):
  out = []
  big = tier != 'quick'
  for _ in range(8 if not big else 300):
    out.append(dict(kind='schedule', seed=rng.randrange(10**6), cost=1))
  fams = ['c_t_mlp', 'c_t_conv', 'mlp', 'residual', 'two_in', 'c_t_mlp']
  for i in range(26 if not big else 1200):
    sp = zoo.spec(rng, fams)
    sp['fam'] = fams[i % len(fams)]
    sp['act'] = rng.choice(['tanh', 'sigmoid', None])
    ops = [rng.choice(['batch', 'batch', 'batch', 'fit', 'fitval', 'evaluate', 'predict', 'callF', 'test_on_batch']) for _ in range(rng.choice([4, 7, 10] if not big else [6, 15, 30]))]
    # a bias before a normalisation has a gradient of pure rounding noise, which adaptive optimizers blow up
    out.append(dict(kind='periodic', sp=sp, rank=rng.choice([1, 1, 2, 3, 9]), freq=rng.choice([1, 2, 3, 5]), warm=rng.choice([1, 2, 4, 9, 1000]),
                    opt=rng.choice([0, 1] if sp['fam'].startswith('c_t') else [0, 1, 2, 3]),
                    ops=ops + ['batch'], runeager=bool(rng.random() < .2), cost=6))
  for i in range(10 if not big else 400):
    sp = zoo.spec(rng, fams)
    out.append(dict(kind='other', sp=sp, alg=['same', 'cluster', 'bias', 'same', 'cluster'][i % 5], rank=rng.choice([1, 2, 3]), n=rng.choice([2, 3, 6]), opt=rng.choice([0, 2]), cost=3))
  for i in range(5 if not big else 100):
    sp = zoo.spec(rng, ['c_t_drop'])
    out.append(dict(kind='mode', sp=sp, alg=['period', 'same', 'cluster', 'bias', 'diff'][i % 5], cost=2))
  return out


def schedule(case, mon):
  import tensorflow as tf
  from tensorflow_model_optimization.python.core.common.keras.compression import schedules
  r = np.random.RandomState(case['seed'])
  for _ in range(6):
    sv, ev = [float(v) if r.rand() < .7 else int(v * 10) for v in r.uniform(-3, 3, 2)]
    if isinstance(sv, int) != isinstance(ev, int):
      sv, ev = float(sv), float(ev)
    b, d, e = int(r.choice([0, 1, 5, 100])), int(r.choice([1, 2, 7, 50, 1000])), float(r.choice([1., 2., 3., .5]))
    dt = tf.float32
    kw = {}
    if b or r.rand() < .5: kw['begin_step'] = b
    if e != 1. or r.rand() < .5: kw['exponent'] = e
    if r.rand() < .3: kw['dtype'] = dt
    s = schedules.PolynomialDecay(sv, d, ev, **kw)
    fn = tf.function(lambda t: s(t))
    mon.nontrivial('schedule', b, d, e, isinstance(sv, int))
    for t in sorted({0, max(0, b - 1), b, b + 1, b + d // 2, b + d - 1, b + d, b + d + 1, b + 5 * d, int(r.randint(0, b + 2 * d))}):
      want = sv if t < b else ev if t >= b + d else ev + (sv - ev) * (1 - (t - b) / d)**e
      tol = 1e-5 * (abs(sv) + abs(ev) + 1)
      for how, got in (('eager', s(t)), ('eager int64', s(tf.constant(t, tf.int64))), ('traced', fn(tf.constant(t, tf.int32)))):
        if how == 'eager int64' and t % 3:
          continue
        mon.check('schedule', got.dtype == dt and abs(float(got) - want) <= tol, lambda: '%s step %d of %s: %s, expected %s' % (how, t, (sv, d, ev, b, e), float(got), want))


class Ambiguous(Exception):
  pass


def clean_trunc(w, r):
  s = np.linalg.svd(np.asarray(w, np.float64), compute_uv=False)
  if r < s.shape[-1] and np.any(s[..., r - 1] - s[..., r] < 2e-2 * s[..., 0]):
    raise Ambiguous
  return comp.trunc(w, r).astype('f')


def periodic(case, mon):
  import tensorflow as tf
  from tensorflow_model_optimization.python.core.common.keras.compression.algorithms import periodical_update_and_scheduling as per
  k = zoo.K()
  sp, rank, freq, warm = case['sp'], case['rank'], case['freq'], case['warm']
  m, x = comp.build(sp)
  twin, _ = comp.build(sp)
  twin.set_weights(m.get_weights())
  A = per.SVD(rank, update_freq=freq, warmup_step=warm)
  tr = A.optimize_model(m)
  name, kw = SGD[case['opt']]
  mk = lambda: getattr(k.optimizers.legacy, name)(**kw)
  tr.compile(mk(), 'mse', run_eagerly=case['runeager'])
  opt = mk()
  xs = x if isinstance(x, list) else [x]
  ys = zoo.targets(m, 8, sp['seed'])
  ys = ys if isinstance(ys, list) else [ys]
  mon.nontrivial(sp['fam'], rank, freq, warm, case['opt'], ' '.join(case['ops']))
  pairs = list(zip(zoo.all_layers(tr), zoo.all_layers(twin)))
  comps = [(w, l) for w, l in pairs if comp.compressible(l)]
  steps = [0]
  pick = lambda vs, lo, hi: [v[lo:hi] for v in vs]
  one = lambda v: v[0] if len(v) == 1 else v

  def own_step(lo, hi):
    a, t = pick(xs, lo, hi), pick(ys, lo, hi)
    with tf.GradientTape() as tape:
      out = tf.nest.flatten(twin(one(a), training=True))
      loss = tf.add_n([tf.reduce_mean(tf.square(p - q)) for p, q in zip(out, t)])
    if not float(loss) < 200:
      raise Ambiguous  # diverging
    g = tape.gradient(loss, twin.trainable_variables)
    s = steps[0]
    if s % freq == 0:
      for w, l in comps:
        o = l.kernel.numpy()
        full = min(o.shape[-2:])
        f = (full * (warm - s) + rank * s) / warm if s < warm else rank
        if abs(f - round(f)) > 1e-9 and s < warm:
          # between two ranks: accept the one the implementation rounds to
          r = min(full, int(np.floor(f)))
        else:
          r = min(full, int(round(f)))
        l.kernel.assign(clean_trunc(o, r))
        mon.event('projected')
    opt.apply_gradients(zip(g, twin.trainable_variables))
    steps[0] += 1

  def compare(where):
    for w, l in pairs:
      own = w.get_weights()
      ws = l.get_weights()
      if comp.compressible(l):
        mon.check('step', int(own[1]) == steps[0], lambda: 'after %s: %s counted %s steps, trained %d' % (where, l.name, own[1], steps[0]))
        own = [own[0]] + own[2:]
      sc = max([1.] + [float(np.max(np.abs(v))) for v in ws if v.size])
      err = max([0.] + [float(np.max(np.abs(a - b))) if a.shape == b.shape else 1e9 for a, b in zip(own, ws) if b.size])
      mon.check('trained-weights', len(own) == len(ws) and err <= 3e-3 * sc, lambda: 'after %s (step %d): weights of %s off by %g' % (where, steps[0], l.name, err))
      # keep the twin on the observed trajectory so that rounding does not pile up
      l.set_weights(own)
  try:
    for op in case['ops']:
      mon.event(op)
      before = [v.copy() for v in tr.get_weights()]
      if not all(np.all(np.isfinite(v)) and np.max(np.abs(v), initial=0) < 50 for v in before):
        raise Ambiguous  # training diverged
      if op == 'batch':
        lo = int(np.random.randint(0, 5))
        s0 = steps[0]
        tr.train_on_batch(one(pick(xs, lo, lo + 4)), one(pick(ys, lo, lo + 4)))
        own_step(lo, lo + 4)
        compare(op)
      elif op in ('fit', 'fitval'):
        tr.fit(x, one(ys), batch_size=4, epochs=1, shuffle=False, verbose=0, validation_data=(x, one(ys)) if op == 'fitval' else None)
        own_step(0, 4); own_step(4, 8)
        compare(op)
      else:
        if op == 'evaluate': tr.evaluate(x, one(ys), batch_size=4, verbose=0)
        elif op == 'predict': got = tr.predict(x, verbose=0)
        elif op == 'test_on_batch': tr.test_on_batch(x, one(ys))
        else: tr(x, training=False)
        mon.check('inference-pure', all(np.array_equal(a, b) for a, b in zip(before, tr.get_weights())), '%s changed the weights' % op)
        if op == 'predict':
          mon.check('inference-pure', zoo.close([np.asarray(v) for v in tf.nest.flatten(got)], zoo.outputs(twin, x), 2e-3), 'predictions differ from the trained weights')
  except Ambiguous:
    return mon.event('ambiguous')
  if not all(np.all(np.isfinite(v)) and np.max(np.abs(v), initial=0) < 50 for v in tr.get_weights()):
    return mon.event('ambiguous')
  # export: trained weights truncated to the target rank
  for w, l in pairs:
    if comp.compressible(l):
      l.kernel.assign(comp.trunc(w.get_weights()[0], rank).astype('f'))
  b4 = [v.copy() for v in tr.get_weights()]
  c = A.compress_model(tr)
  got, want = zoo.outputs(c, x), zoo.outputs(twin, x)
  mon.check('exported', zoo.close(got, want, 1e-3), lambda: 'exported model off by %s' % [float(np.max(np.abs(a - b))) for a, b in zip(got, want)])
  mon.check('exported', all(np.array_equal(a, b) for a, b in zip(b4, tr.get_weights())), 'exporting changed the training model')
  for w in zoo.all_layers(c):
    if hasattr(w, 'layer') and comp.compressible(w.layer):
      u, sv = w.get_weights()[:2]
      mon.check('low-rank-now', u.shape[-1] == sv.shape[-2] == min(rank, u.shape[-2], sv.shape[-1]), lambda: 'factors %s %s at rank %d' % (u.shape, sv.shape, rank))


def other(case, mon):
  import tensorflow as tf
  from tensorflow_model_optimization.python.core.clustering.keras import cluster_config
  from tensorflow_model_optimization.python.core.common.keras.compression.algorithms import bias_only, same_training_and_inference as same, weight_clustering as wc
  k = zoo.K()
  m, x = comp.build(case['sp'])
  twin, _ = comp.build(case['sp'])
  alg = case['alg']
  A = {'same': lambda: same.SVD(case['rank']), 'bias': bias_only.BiasOnly, 'cluster': lambda: wc.WeightClustering(case['n'], cluster_config.CentroidInitialization.LINEAR)}[alg]()
  y0 = [v.copy() for v in m.get_weights()]
  c = A.compress_model(m)
  name, kw = SGD[case['opt']]
  c.compile(getattr(k.optimizers.legacy, name)(**kw), 'mse')
  w0 = c.get_weights()
  mon.nontrivial(case['sp']['fam'], alg, case['opt'])
  ys = zoo.targets(m, 8, 5)
  l0 = c.evaluate(x, ys, verbose=0)
  mon.check('inference-pure', all(np.array_equal(a, b) for a, b in zip(w0, c.get_weights())), 'evaluate changed weights')
  c.fit(x, ys, batch_size=4, epochs=3, verbose=0)
  if not all(np.all(np.isfinite(v)) for v in c.get_weights()):
    return mon.event('diverged')
  mon.check('other-trained', any(not np.array_equal(a, b) for a, b in zip(w0, c.get_weights())), 'training changed nothing')
  for w, l in zip(zoo.all_layers(c), zoo.all_layers(twin)):
    cw, ws = w.get_weights(), l.get_weights()
    if comp.compressible(l) and (alg != 'bias' or l.use_bias):
      i = 1 if alg == 'bias' else 0
      o = ws[i]
      new = np.matmul(cw[0], cw[1]) if alg == 'same' else cw[0][cw[1]] if alg == 'cluster' else np.full_like(o, cw[0])
      if alg == 'cluster':
        mon.check('other-trained', len(np.unique(new)) <= case['n'], '%s has %d distinct weights' % (l.name, len(np.unique(new))))
      mon.check('other-trained', np.asarray(new).shape == o.shape and np.all(np.isfinite(new)), '%s: %s' % (l.name, np.shape(new)))
      if np.asarray(new).shape == o.shape:
        rest = list(cw[2:])
        rest.insert(i, new)
        l.set_weights(rest)
    else:
      l.set_weights(cw)
  mon.check('other-trained', zoo.close(zoo.outputs(c, x), zoo.outputs(twin, x), 1e-3), 'the trained model does not compute its decompressed weights')
  mon.check('other-trained', all(np.array_equal(a, b) for a, b in zip(y0, m.get_weights())), 'training the compressed model changed the original')


def mode(case, mon):
  from tensorflow_model_optimization.python.core.clustering.keras import cluster_config
  from tensorflow_model_optimization.python.core.common.keras.compression.algorithms import bias_only, different_training_and_inference as diff, periodical_update_and_scheduling as per, same_training_and_inference as same, weight_clustering as wc
  m, x = comp.build(case['sp'])
  alg = case['alg']
  A = {'same': lambda: same.SVD(2), 'bias': bias_only.BiasOnly, 'cluster': lambda: wc.WeightClustering(3, cluster_config.CentroidInitialization.LINEAR), 'diff': lambda: diff.SVD(2), 'period': lambda: per.SVD(2)}[alg]()
  mon.nontrivial('mode', alg)
  models = [A.compress_model(m)] if alg != 'period' else [A.optimize_model(m)]
  if alg == 'period':
    models.append(A.compress_model(models[0]))
  for c in models:
    base = zoo.outputs(c, x)[0]
    t = zoo.outputs(c, x, training=True)[0]
    z = t == 0
    mon.check('mode', 0 < z.mean() < 1 and not np.any(base == 0) and np.allclose(t[~z], 2 * base[~z], atol=1e-4), '%s: dropout in training mode keeps %s of the outputs' % (alg, 1 - z.mean()))
    d = zoo.outputs(c, x)[0]
    mon.check('mode', zoo.close([d], [base], 1e-4), '%s: inference outputs are not deterministic' % alg)


def run(case, mon):
  mon.event(case['kind'])
  globals()[case['kind']](case, mon)
