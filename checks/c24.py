"""C24: the n-bit scheme uses the requested weight and activation widths.

The same per-tensor observation as C21, with the n-bit scheme's widths in the oracle, plus a
count of the distinct values per kernel slice and output tensor and configuration round trips."""
import numpy as np

from lib import qwatch, qzoo, zoo

PROP = 'C24'
RULE = ('one case = one random graph quantized with the n-bit scheme for one pair of widths (2..8 weight bits, 2..12 activation bits, per-axis on or off), '
        'with a second scheme of other widths created in between, run for several steps; non-trivial = distinct (graph, widths)')
CLAUSES = ['input', 'kernel', 'activation', 'output', 'untouched', 'weight-levels', 'output-levels', 'config', 'registry', 'statistics', 'bias']


def cases(rng, tier):
  out, turn = [], {}
  for i in range(60 if tier == 'quick' else 1200):
    sp = qzoo.spec(rng, kind='vol' if i % 12 == 5 else None, size=rng.randrange(1, 5 if tier == 'quick' else 8), finding=i % 6 == 0, nbit=True, turn=turn)
    wb = rng.choice([2, 3, 4, 4, 5, 6, 7, 8]); ab = rng.choice([2, 3, 4, 5, 6, 7, 8, 9, 10, 12])
    out.append(dict(sp=sp, part=rng.random() if i % 5 == 3 else 0, w=wb, a=ab, per_tensor=i % 4 == 1, other=[rng.randrange(2, 9), rng.randrange(2, 13)],
                    steps=1 if tier == 'quick' else 3, seed=rng.randrange(10**6)))
  return out


def configs_of(q):
  for l in q.layers:
    c = getattr(l, 'quantize_config', None)
    if c is not None:
      yield l, c
    z = getattr(l, 'quantizer', None)
    if z is not None:
      yield l, z


def run(case, mon):
  from tensorflow_model_optimization.python.core.quantization.keras.experimental.default_n_bit import default_n_bit_quantize_scheme as S
  k = zoo.K()
  m, x, groups = qzoo.build(case['sp'])
  if not qzoo.valid(m):
    return mon.event('unsupported')
  names = qwatch.annotate(case, m, groups)
  if not qwatch.supported(names, m, groups):
    return mon.event('unsupported')
  scheme = lambda w, a, d=False: S.DefaultNBitQuantizeScheme(disable_per_axis=d, num_bits_weight=w, num_bits_activation=a)
  s = scheme(case['w'], case['a'], case['per_tensor'])
  # several schemes live side by side in one program
  reg = s.get_quantize_registry()
  other = scheme(*case['other']).get_quantize_registry()
  for l in (k.layers.Dense(2), k.layers.ReLU(), k.layers.Conv2D(1, 1), k.layers.Activation('relu'), k.layers.Conv2DTranspose(1, 1)):
    for r, (w, a) in ((reg, (case['w'], case['a'])), (other, case['other'])):
      c = r.get_quantize_config(l).get_config()
      mon.check('registry', c.get('num_bits_weight') == w and c.get('num_bits_activation') == a, lambda: 'registry of widths %s gives %s for %s' % ((w, a), c, type(l).__name__))
  q = qwatch.quantize(m, names, scheme=s)
  bits = (case['w'], case['a'])
  w = qwatch.Watch(q, m, names, mon, bits=bits, per_tensor=case['per_tensor'])
  for l, c in configs_of(q):
    cfg = c.get_config()
    if 'num_bits_weight' in cfg:
      mon.check('config', (cfg['num_bits_weight'], cfg['num_bits_activation']) == bits, lambda: '%s carries widths %s' % (l.name, cfg))
    elif 'num_bits' in cfg:
      mon.check('config', cfg['num_bits'] == case['a'], lambda: '%s carries width %s' % (l.name, cfg))
  r = np.random.RandomState(case['seed'] + 1)
  w.step(x, False, 'fresh')
  for st in range(case['steps']):
    w.step(qzoo.batch(m, r), True, 'step %d' % st)
    qwatch.perturb(q, r)
  seen = w.step(x, False, 'final')
  levels(w, seen, case, mon)
  # the same again from the configuration
  q2 = qwatch.rebuild(q)
  q2.set_weights(q.get_weights())
  w2 = qwatch.Watch(q2, m, names, mon, bits=bits, per_tensor=case['per_tensor'], like=w)
  again = w2.step(x, False, 'rebuilt')
  for a, b in zip(q.outputs, q2.outputs):
    mon.check('config', np.array_equal(seen[id(a)], again[id(b)]), lambda: 'the model rebuilt from its configuration answers differently')
  mon.nontrivial(str(w.g.signature()), bits)
  mon.event('widths %d/%d' % bits)
  mon.sample = dict(graph=w.g.signature(), annotated=names, bits=bits)


def levels(w, seen, case, mon):
  for i, (n, e) in enumerate(w.plan):
    if e['weights'] and not e['finding']:
      attr, axis = e['weights']
      used = np.asarray(getattr(qzoo.inner(n.layer), attr))
      used = used.reshape(-1, used.shape[-1]) if axis and not case['per_tensor'] else used.reshape(-1, 1)
      c = max(len(np.unique(used[:, j])) for j in range(used.shape[1]))
      mon.check('weight-levels', c <= 2**case['w'] - 1, lambda: '%s uses %d weight values with %d bits' % (n.layer.name, c, case['w']))
    if e['out'] or e['post'] or e['input']:
      v = seen[id(w.g.outputs(n)[0])]
      c = len(np.unique(v))
      mon.check('output-levels', c <= 2**case['a'], lambda: '%s has %d output values with %d bits' % (n.layer.name, c, case['a']))
