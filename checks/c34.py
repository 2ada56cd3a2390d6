"""C34: one-shot pruning for benchmarks."""
import numpy as np
from checks import c02, c03, c08
from lib import zoo

PROP = 'C34'
CLAUSES = ['structure', 'selection', 'others-untouched', 'applied', 'stripped', 'order', 'count', 'mask-binary', 'blocks-whole', 'strongest-survive']
RULE = ('one case = (random model, sparsity, block size) pruned once without training; every pruned variable is compared with the '
        'original values by the magnitude or block oracle, every other one must be bit-identical; non-trivial = distinct '
        '(family, sparsity, block)')

FAMS = ['mlp', 'mlp_mode', 'conv', 'conv_sep', 'conv1d', 'conv3d', 'residual', 'two_in', 'nested', 'lstm', 'gru', 'stacked', 'embed', 'mha']
BLOCKY = ['mlp', 'mlp_mode', 'residual', 'nested', 'lstm', 'gru', 'two_in', 'embed']


def cases(rng, tier):
  out = []
  for i in range(48 if tier == 'quick' else 900):
    blk = rng.choice([[2, 2], [1, 4], [4, 1], [3, 2]]) if i % 2 else [1, 1]
    sp = zoo.spec(rng, [rng.choice(BLOCKY) if i % 2 else FAMS[(i // 2) % len(FAMS)]])
    out.append(dict(sp=sp, s=rng.choice([0.0, 0.2, 0.5, 0.6, 0.8, 0.95]), block=blk, freeze=rng.random() < .35))
  return out


def run(case, mon):
  from tensorflow_model_optimization.python.core.keras.compat import keras
  from tensorflow_model_optimization.python.core.sparsity.keras import prune, pruning_wrapper
  from tensorflow_model_optimization.python.core.sparsity.keras.tools import sparsity_tooling
  sp = case['sp']
  base, x = zoo.build(sp)
  if case.get('freeze'):
    # frozen layers are pruned like the others
    r = np.random.RandomState(sp['seed'])
    for l in zoo.all_layers(base):
      l.trainable = bool(r.rand() < .5)
    mon.event('frozen-layers', sum(not l.trainable for l in zoo.all_layers(base)))
  flags = [l.trainable for l in zoo.all_layers(base) if not isinstance(l, keras.layers.InputLayer)]
  before = {id(w): w.numpy() for w in base.weights}
  inv = [(type(l).__name__, l.name) for l in zoo.all_layers(base) if not isinstance(l, keras.layers.InputLayer)]
  if case['block'] == [1, 1]:
    model = sparsity_tooling.prune_for_benchmark(base, case['s'])
  else:
    model = sparsity_tooling.prune_for_benchmark(base, case['s'], tuple(case['block']))
  layers = [l for l in zoo.all_layers(model) if not isinstance(l, keras.layers.InputLayer)]
  mon.check('structure', all(isinstance(l, pruning_wrapper.PruneLowMagnitude) for l in layers) and
            [(type(l.layer).__name__, l.layer.name) for l in layers] == inv, 'layers of the pruned model')
  for l in layers:
    want = c08.expected(l.layer)
    mon.check('selection', sorted(id(w) for w in want) == sorted(id(w) for w, _, _ in l.pruning_vars), lambda: '%s prunes %s' % (l.name, [w.name for w, _, _ in l.pruning_vars]))
    masked = {id(w) for w in want}
    for w in l.layer.weights:
      if id(w) not in masked:
        mon.check('others-untouched', np.array_equal(w.numpy(), before[id(w)]), lambda: '%s changed' % w.name)
    for w, m, t in l.pruning_vars:
      old, new, mk = before[id(w)], w.numpy(), m.numpy()
      mon.event('pruned-variables')
      if tuple(case['block']) == (1, 1):
        c02.check_mask(mon, old, mk, float(t.numpy()), case['s'], w.name)
      else:
        c03.oracle(mon, old, mk, case['block'], 'AVG', case['s'])
      mon.check('applied', np.array_equal(new, old * mk), lambda: '%s is not the masked original' % w.name)
  ref, _ = zoo.build(sp)
  vals = [w.numpy() for l in layers for w in l.layer.weights]
  rv = [w for l in zoo.all_layers(ref) for w in l.weights]
  for w, v in zip(rv, vals):
    w.assign(v)
  want = zoo.outputs(ref, x)
  mon.check('applied', zoo.close(zoo.outputs(model, x), want, 1e-5), 'outputs are not those of the masked weights')
  st = prune.strip_pruning(model)
  mon.check('stripped', [(type(l).__name__, l.name) for l in zoo.all_layers(st) if not isinstance(l, keras.layers.InputLayer)] == inv
            and zoo.close(zoo.outputs(st, x), want, 1e-5), 'stripped model')
  mon.check('stripped', [l.trainable for l in zoo.all_layers(st) if not isinstance(l, keras.layers.InputLayer)] == flags, 'frozen layers of the stripped model')
  mon.nontrivial(sp['fam'], case['s'], tuple(case['block']), sp['b'])
  mon.sample = dict(fam=sp['fam'], sparsity=case['s'], block=case['block'])
