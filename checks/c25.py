"""C25: the prune-preserving quantization scheme keeps zeros at zero.

Random graphs with random sparsity patterns (elements, blocks, channels, 2 of 4, made by the pruning
API or by hand) are quantized with the prune-preserving scheme. Every kernel a preserved layer uses is
observed, in eager passes through the layer and in compiled training and inference through a recorder
placed in the layer's call. Two oracles: no observed kernel has a non-zero where the mask has a zero
(even if the variable was given one), and a default quantization-aware twin whose kernels are
projected onto the mask after every step must go exactly the same way, so that everything that is
not zero trains as in plain quantization-aware training."""
import numpy as np

from lib import qwatch, qzoo, zoo

PROP = 'C25'
RULE = ('one case = one random (partly annotated) graph, sparsity pattern, optimizer and number of steps: eager passes with weights changed in between, then compiled training beside the projected twin; '
        'non-trivial = distinct (graph, pattern, optimizer)')
CLAUSES = ['zeros-eager', 'zeros-compiled', 'variable', 'trains', 'kernel', 'rejects', 'same-start', 'predict']
PATTERNS = ['random', 'random', 'block', 'channel', 'two-of-four', 'none', 'most', 'api', 'one-row']


def cases(rng, tier):
  out = [dict(kind='rejects')]
  for i in range(34 if tier == 'quick' else 900):
    sp = qzoo.spec(rng, kind=rng.choice(['img', 'img', 'vec', 'vec', 'seq']), size=rng.randrange(1, 4 if tier == 'quick' else 7), finding=i % 9 == 0, ban=('trans', 'trans_bn', 'trans_bn_relu', 'trans_relu', 'dropout', 'sdrop', 'sdrop1'))
    out.append(dict(kind='model', sp=sp, pattern=PATTERNS[i % len(PATTERNS)], part=rng.choice([0, 0, 1]), opt=rng.choice(['sgd', 'momentum', 'adam', 'rmsprop', 'adagrad']), steps=rng.choice([1, 2, 3]) if tier == 'quick' else rng.choice([1, 3, 6]),
                    dirty=rng.random() < .5, mixed=rng.random() < .4, seed=rng.randrange(10**6)))
  return out


def sparsify(m, pattern, r, mixed):
  """Puts zeros in the kernels; returns nothing."""
  for l in m.layers:
    for v in l.weights:
      n = v.name.split('/')[-1].split(':')[0]
      if n not in ('kernel', 'pointwise_kernel', 'depthwise_kernel') or pattern == 'none' or mixed and r.rand() < .4:
        continue
      a = v.numpy()
      if pattern in ('random', 'api'):
        a[r.rand(*a.shape) < r.choice([.1, .5, .9])] = 0
      elif pattern == 'most':
        keep = r.randint(a.size)
        b = a.ravel()[keep]; a[:] = 0; a.ravel()[keep] = b
      elif pattern == 'block':
        f = a.reshape(-1, a.shape[-1])
        for i in range(0, f.shape[0], 2):
          for j in range(0, f.shape[1], 2):
            if r.rand() < .5:
              f[i:i + 2, j:j + 2] = 0
        a = f.reshape(a.shape)
      elif pattern == 'channel':
        a[..., r.rand(a.shape[-1]) < .5] = 0
      elif pattern == 'one-row':
        a[..., r.randint(a.shape[-2]), :] = 0
      else:
        f = a.ravel()
        for i in range(0, f.size - 3, 4):
          f[i + r.permutation(4)[:2]] = 0
        a = f.reshape(a.shape)
      v.assign(a)


def prune_by_api(m, r):
  """The same model, pruned and stripped by the library."""
  from tensorflow_model_optimization.python.core.sparsity.keras import prune, pruning_callbacks, pruning_schedule
  k = zoo.K()
  ok = ('Dense', 'Conv2D')
  p = k.models.clone_model(m, clone_function=lambda l: prune.prune_low_magnitude(l, pruning_schedule.ConstantSparsity(float(r.choice([.3, .5, .8])), 0, -1, 1)) if type(l).__name__ in ok else l)
  p.compile('sgd', 'mse')
  x = qzoo.batch(m, r)
  y = [np.zeros(o.shape, 'f') for o in (lambda v: v if isinstance(v, list) else [v])(p.predict(x, verbose=0))]
  p.optimizer.learning_rate.assign(1e-3)
  p.fit(x, y, epochs=2, verbose=0, callbacks=[pruning_callbacks.UpdatePruningStep()])
  return prune.strip_pruning(p)


def record(layer, log):
  """Lets a layer note the kernel it uses, in eager and compiled calls."""
  import tensorflow as tf
  real = layer.call

  def call(inputs):
    def note(v):
      log.append(v.numpy())
    tf.py_function(note, [getattr(layer, 'kernel')], [])
    return real(inputs)
  layer.call = call


def opt(name):
  k = zoo.K().optimizers
  return dict(sgd=lambda: k.SGD(.05), momentum=lambda: k.SGD(.05, momentum=.9, nesterov=True), adam=lambda: k.Adam(.02), rmsprop=lambda: k.RMSprop(.01), adagrad=lambda: k.Adagrad(.05))[name]()


def run(case, mon):
  from tensorflow_model_optimization.python.core.quantization.keras.collab_opts.prune_preserve import default_8bit_prune_preserve_quantize_scheme as P
  k = zoo.K()
  L = k.layers
  scheme = P.Default8BitPrunePreserveQuantizeScheme()
  if case['kind'] == 'rejects':
    # what cannot be preserved is refused rather than silently not preserved
    for l, s in ((L.Conv2DTranspose(2, 2), (4, 4, 2)), (L.Conv1D(2, 2), (4, 2)), (L.LSTM(2), (4, 2)), (L.Conv3D(2, 2), (4, 4, 4, 2))):
      m = k.Sequential([L.InputLayer(s), l])
      mon.raises('rejects', lambda: qwatch.quantize(m, None, scheme=scheme), (ValueError, RuntimeError), type(l).__name__)
    return
  m, x, groups = qzoo.build(case['sp'])
  if not qzoo.valid(m):
    return mon.event('unsupported')
  r = np.random.RandomState(case['seed'])
  if case['pattern'] == 'api':
    m = prune_by_api(m, r)
    m2 = k.models.clone_model(m)
  else:
    sparsify(m, case['pattern'], r, case['mixed'])
    m2 = k.models.clone_model(m)
  m2.set_weights(m.get_weights())
  names = qwatch.annotate(case, m, groups)
  if not qwatch.supported(names, m, groups):
    return mon.event('unsupported')
  q = qwatch.quantize(m, names, scheme=scheme)
  t = qwatch.quantize(m2, names) if names is not None else qwatch.quantize(m2, None)
  g, plan = qzoo.plan(q, m, None if names is None else set(names))
  masks, kernels, found = {}, {}, set()
  for n, e in plan:
    if e['weights'] and e['cls'] in ('Conv2D', 'Dense'):
      v = [w for w in n.layer.weights if w.name.split('/')[-1].split(':')[0] == 'kernel'][0]
      kernels[n.layer.name] = v
      if e['finding'] and not hasattr(n.layer.quantize_config, 'weight_quantizer'):
        found.add(n.layer.name)
      masks[n.layer.name] = (v.numpy() != 0).astype('f')
  w0, t0 = q.get_weights(), t.get_weights()
  mon.check('same-start', len(w0) == len(t0) and all(np.array_equal(a, b) for a, b in zip(w0, t0)), 'the model starts from other weights than a default one')
  zeros = sum(int((v == 0).sum()) for n, v in masks.items() if n not in found)
  mon.event('zeros kept', zeros)
  mon.event('preserved layers', len(masks) - len(found))
  for n in found:
    if (masks[n] == 0).any():
      mon.check('kernel', False, lambda: '%s: neither quantized nor kept sparse' % n, mechanism='float-kernel-before-relu')
  # --- eager passes, every tensor watched
  w = qwatch.Watch(q, m, names, mon, masks={n: v for n, v in masks.items() if n not in found}, tolerate=True)
  wrong = lambda n, u: int(((masks[n] == 0) & (u != 0)).sum())

  def eager(where):
    for n, e in plan:
      name = n.layer.name
      if name in masks and name not in found:
        u = np.asarray(qzoo.inner(n.layer).kernel)
        mon.check('zeros-eager', not wrong(name, u), lambda: '%s %s: %d of %d pruned weights are not zero' % (where, name, wrong(name, u), int((masks[name] == 0).sum())))

  w.step(x, False, 'fresh'); eager('fresh')
  for s in range(2):
    w.step(qzoo.batch(m, r), True, 'step %d' % s); eager('step %d' % s)
    qwatch.perturb(q, r)
    if not case['dirty']:
      for n, v in kernels.items():
        v.assign(v.numpy() * masks[n])
    w.step(x, False, 'after step %d' % s); eager('after step %d' % s)
  # --- compiled training beside the projected twin
  clean = lambda ws, vs: [a * masks[kn[id(v)]] if id(v) in kn else a for a, v in zip(ws, vs)]
  kn = {id(v): n for n, v in kernels.items() if n not in found}
  t.set_weights(clean(q.get_weights(), q.weights))
  logs = {}
  for n, e in plan:
    if n.layer.name in masks and n.layer.name not in found:
      logs[n.layer.name] = []
      record(qzoo.inner(n.layer), logs[n.layer.name])
  q.compile(opt(case['opt']), 'mse')
  t.compile(opt(case['opt']), 'mse')
  outs = q.outputs
  start = q.get_weights()
  for s in range(case['steps']):
    xb = qzoo.batch(m, r)
    yb = [r.randn(*[6] + list(o.shape[1:])).astype('f') for o in outs]
    yb = yb if len(yb) > 1 else yb[0]
    q.fit(xb, yb, batch_size=6, epochs=1, verbose=0)
    t.fit(xb, yb, batch_size=6, epochs=1, verbose=0)
    t.set_weights(clean(t.get_weights(), q.weights))
    a, b = clean(q.get_weights(), q.weights), t.get_weights()
    off = [(v.name, float(np.abs(p - o).max())) for v, p, o in zip(q.weights, a, b) if not np.allclose(p, o, rtol=1e-4, atol=1e-5)]
    if not mon.check('trains', not off, lambda: 'step %d (%s): not the projection of plain quantization-aware training: %s' % (s, case['opt'], off[:4])):
      break
    if not case['dirty']:
      for n, v in kernels.items():
        if n not in found:
          mon.check('variable', not wrong(n, v.numpy()), lambda: '%s: %d pruned weights of the variable moved off zero in training' % (n, wrong(n, v.numpy())))
  got = q.predict(x, verbose=0)
  want = t.predict(x, verbose=0)
  fl = lambda v: v if isinstance(v, list) else [v]
  mon.check('predict', all(np.mean(np.abs(a - b) > 1e-3 * (1 + np.abs(b))) < .1 for a, b in zip(fl(got), fl(want))), 'predictions differ from those of the projected twin')
  for n, log in logs.items():
    mon.check('zeros-compiled', len(log) > case['steps'] and not any(wrong(n, u) for u in log), lambda: '%s: %d kernels seen in compiled passes, pruned weights off zero in each: %s' % (n, len(log), [wrong(n, u) for u in log]))
    mon.event('compiled kernels seen', len(log))
  for n, v in kernels.items():
    i = [j for j, z in enumerate(q.weights) if z is v][0]
    alive = masks[n] == 1
    if n not in found and alive.sum() > 3:
      mon.event('weights that moved', int((start[i] != v.numpy())[alive].sum()))
      mon.event('weights alive', int(alive.sum()))
  mon.nontrivial(str(w.g.signature()), case['pattern'], case['opt'])
  mon.sample = dict(graph=w.g.signature(), pattern=case['pattern'], zeros=zeros)
