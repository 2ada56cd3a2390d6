"""C21: where fake quantization sits in a quantization-aware model.

Every tensor that leaves a layer of the quantized model, and every kernel a layer used, is
observed in eager forward passes (training and inference, with weights changing in between).
The oracle knows the float layers, the rules of `lib.qzoo.plan` and the range automata of
`lib.quant.Ref`, and demands of every node: the observed kernel is the fake quantization of
the float kernel (or the float kernel), and the observed output is the layer's float result on
its observed inputs with fake quantization exactly where the rules put it."""
import numpy as np

from lib import qwatch, qzoo

PROP = 'C21'
RULE = ('one case = one random graph of supported layers (fused chains, branches, concatenations of 2 to 6 tensors, shared tensors, two inputs or outputs, '
        'sequential or functional; fully or partly annotated) quantized and run for several steps; non-trivial = distinct (graph, annotation, phase)')
CLAUSES = ['input', 'kernel', 'float-kernel', 'activation', 'output', 'untouched', 'statistics', 'dropout', 'predict', 'bias']


def cases(rng, tier):
  out, turn = [], {}
  for i in range(72 if tier == 'quick' else 1500):
    sp = qzoo.spec(rng, kind='vol' if i % 12 == 5 else None, size=rng.randrange(1, 6 if tier == 'quick' else 9), finding=i % 6 == 0, turn=turn)
    out.append(dict(sp=sp, part=rng.random() if i % 4 == 3 else 0, steps=2 if tier == 'quick' else 4, per_tensor=i % 6 == 4, seed=rng.randrange(10**6)))
  return out


def run(case, mon):
  m, x, groups = qzoo.build(case['sp'])
  if not qzoo.valid(m):
    return mon.event('unsupported')
  names = qwatch.annotate(case, m, groups)
  if not qwatch.supported(names, m, groups):
    return mon.event('unsupported')
  if case.get('per_tensor'):
    from tensorflow_model_optimization.python.core.quantization.keras.default_8bit import default_8bit_quantize_scheme as S
    q = qwatch.quantize(m, names, scheme=S.Default8BitQuantizeScheme(disable_per_axis=True))
    mon.event('one range per kernel')
  else:
    q = qwatch.quantize(m, names)
  w = qwatch.Watch(q, m, names, mon, per_tensor=bool(case.get('per_tensor')))
  r = np.random.RandomState(case['seed'] + 1)
  w.step(x, False, 'fresh')
  for s in range(case['steps']):
    w.step(qzoo.batch(m, r), True, 'step %d' % s)
    qwatch.perturb(q, r)
    if s == 0:
      w.step(x, False, 'after step %d and a weight change' % s)
  seen = w.step(x, False, 'final')
  want = [seen[id(t)] for t in q.outputs]
  got = q.predict(x, verbose=0)
  got = got if isinstance(got, list) else [got]
  # a fused graph may round differently: the bulk of the values must agree
  d = [np.abs(a - b) > 1e-4 * (1 + np.abs(b)) for a, b in zip(got, want)]
  mon.check('predict', all(a.shape == b.shape for a, b in zip(got, want)) and np.mean([v.mean() for v in d]) < .25, lambda: 'predict() differs from the eager pass in %s of the values' % [float(v.mean()) for v in d])
  mon.nontrivial(str(w.g.signature()), str(names and len(names)))
  for op, _ in case['sp']['prog']:
    mon.event('op ' + op)
  mon.sample = dict(graph=w.g.signature(), annotated=names)
