"""C33: fixing or removing quantized ranges keeps the rest of the model.

Random quantized models are trained, then their ends are fixed, fixed again or freed. The result
is compared with the model it came from (layers, graph, settings, variables, flags), and every
tensor of it is watched with the oracle of C21 in which only the end quantizers have been replaced
by constant ranges; the model passed in has to stay as it was."""
import copy

import numpy as np

from lib import quant, qwatch, qzoo, zoo

PROP = 'C33'
RULE = ('one case = one random graph (1 or 2 inputs and outputs, sequential or functional, partly annotated in some), scheme, training history, and one to three operations with random '
        'widths and ranges, then watched through inference and training steps; non-trivial = distinct (graph, operations)')
CLAUSES = ['layers', 'graph', 'ends', 'settings', 'weights', 'flags', 'original', 'refused', 'input', 'kernel', 'activation', 'output', 'untouched']


def cases(rng, tier):
  out = []
  for i in range(36 if tier == 'quick' else 900):
    sp = qzoo.spec(rng, size=rng.randrange(1, 4 if tier == 'quick' else 7), nbit=True, finding=False)
    ops = []
    for _ in range(rng.choice([1, 1, 1, 2, 3])):
      if rng.random() < .3:
        ops.append(None)
      else:
        rg = lambda: rng.choice([[0., 1.], [-1., 1.], [-rng.random() * 3 - .1, rng.random() * 3 + .1], [0., round(rng.random() * 16, 2) + 1], [-6., 6.], [-rng.random() - .5, 0.]])
        ops.append(dict(num_bits=rng.choice([8, 8, 4, 7, 10, 3]), input=rg(), output=rg(), narrow=rng.random() < .3, default=rng.random() < .1))
    out.append(dict(sp=sp, part=0 if i % 4 else rng.random(), scheme=rng.choice(['8', '8', 'n']), steps=rng.choice([0, 1, 2]), ops=ops, freeze=rng.random() < .4, seed=rng.randrange(10**6)))
  out.append(dict(kind='refused', seed=rng.randrange(10**6)))
  return out


def view(l):
  from checks import c22
  i = qzoo.inner(l)
  c = {k: str(v) for k, v in i.get_config().items() if k != 'quantizer'}
  for d in ('activation',):
    if d in c:
      c[d] = qzoo.act_name(i)
  return [type(l).__name__, type(i).__name__, l.name, i.name, c]


def run(case, mon):
  if case.get('kind') == 'refused':
    return refused(case, mon)
  from tf_keras.src.saving import serialization_lib
  with serialization_lib.SafeModeScope(False):
    run_model(case, mon)


def run_model(case, mon):
  from tensorflow_model_optimization.python.core.quantization.keras import quantize as Q
  from checks import c22
  k = zoo.K()
  m, x, groups = qzoo.build(case['sp'])
  if not qzoo.valid(m):
    return mon.event('unsupported')
  names = qwatch.annotate(case, m, groups)
  if not qwatch.supported(names, m, groups):
    return mon.event('unsupported')
  r = np.random.RandomState(case['seed'])
  kw, bits = {}, (8, 8)
  if case['scheme'] == 'n':
    from tensorflow_model_optimization.python.core.quantization.keras.experimental.default_n_bit import default_n_bit_quantize_scheme as S
    bits = (4, 6)
    kw['scheme'] = S.DefaultNBitQuantizeScheme(num_bits_weight=4, num_bits_activation=6)
  q = qwatch.quantize(m, names, **kw)
  if case['freeze']:
    for l in q.layers:
      if l.weights and r.rand() < .4:
        l.trainable = False
  w = qwatch.Watch(q, m, names, mon, tolerate=True, bits=bits)
  for s in range(case['steps']):
    w.step(qzoo.batch(m, r), True, 'before, step %d' % s)
    qwatch.perturb(q, r)
  if type(q).__name__ == 'Sequential' and (len(q.layers) < 1 or type(q.layers[0]).__name__ != 'QuantizeLayer'):
    for f in (Q.fix_input_output_range, Q.remove_input_range):
      mon.raises('refused', lambda: f(q), ValueError, 'sequential model without input quantizer')
    return
  fix_in = fix_out = None
  base = q
  for op in case['ops']:
    old = base
    before = [v.copy() for v in old.get_weights()], c22.describe(old), [np.asarray(v) for v in c22.flat(old(x, training=False))], copy.deepcopy(str(sorted(old.get_config()))), [l.trainable for l in old.layers]
    with Q.quantize_scope():
      if op is None:
        new = Q.remove_input_range(old)
        fix_in = 'none'
      elif op['default']:
        new = Q.fix_input_output_range(old)
        fix_in, fix_out = (quant.Ref('Fixed', 8, fixed=(0., 1.)) for _ in range(2))
      else:
        new = Q.fix_input_output_range(old, num_bits=op['num_bits'], input_min=op['input'][0], input_max=op['input'][1], output_min=op['output'][0], output_max=op['output'][1], narrow_range=op['narrow'])
        fix_in, fix_out = (quant.Ref('Fixed', op['num_bits'], narrow=op['narrow'], fixed=op[e]) for e in ('input', 'output'))
    after = old.get_weights(), c22.describe(old), [np.asarray(v) for v in c22.flat(old(x, training=False))], str(sorted(old.get_config())), [l.trainable for l in old.layers]
    mon.check('original', all(np.array_equal(a, b) for a, b in zip(before[0], after[0])) and before[1] == after[1] and all(np.array_equal(a, b) for a, b in zip(before[2], after[2])) and before[3:] == after[3:] and new is not old, lambda: '%s changed the model passed in' % (op,))
    mon.check('layers', [view(l) for l in old.layers] == [view(l) for l in new.layers] and type(new) is type(old), lambda: '%s: layers %s became %s' % (op, [view(l) for l in old.layers], [view(l) for l in new.layers]))
    mon.check('graph', c22.tops(old) == c22.tops(new) and [tuple(v.shape) for v in old.inputs + old.outputs] == [tuple(v.shape) for v in new.inputs + new.outputs] and old.input_names == new.input_names and old.output_names == new.output_names, lambda: '%s: graph %s became %s' % (op, c22.tops(old), c22.tops(new)))
    mon.check('flags', [(l.trainable, qzoo.inner(l).trainable) for l in old.layers] == [(l.trainable, qzoo.inner(l).trainable) for l in new.layers], lambda: '%s: trainable flags changed' % (op,))
    g = qzoo.Graph(old)
    ends = {g.by_tensor[o].layer.name for o in g.out_ids}
    for a, b in zip(old.layers, new.layers):
      if type(a).__name__ == 'QuantizeLayer':
        want = ['NoQuantizer', {}] if op is None else ['FixedQuantizer', dict(num_bits=8, init_min=0., init_max=1., narrow_range=False) if op['default'] else dict(num_bits=op['num_bits'], init_min=op['input'][0], init_max=op['input'][1], narrow_range=op['narrow'])]
        mon.check('ends', c22.deep(b.quantizer) == want, lambda: '%s: %s uses %s instead of %s' % (op, b.name, c22.deep(b.quantizer), want))
        continue
      ca, cb = (c22.deep(getattr(l, 'quantize_config', None)) for l in (a, b))
      if op is not None and a.name in ends and ca is not None:
        mon.check('ends', cb[0] == 'FixedQuantizeConfig' and cb[1]['config'] == ca, lambda: '%s: %s uses %s, it was %s' % (op, b.name, cb, ca))
      else:
        mon.check('settings', ca == cb, lambda: '%s: %s: %s became %s' % (op, a.name, ca, cb))
      wa, wb = ({v.name.split('/')[-1]: v.numpy() for v in l.weights} for l in (a, b))
      gone = set(wa) - set(wb)
      mon.check('weights', set(wb) <= set(wa) and all(np.array_equal(wa[n], wb[n]) for n in wb) and (not gone or op is not None and a.name in ends and all(n.endswith(('_min:0', '_max:0')) for n in gone)),
                lambda: '%s: %s: variables %s became %s' % (op, a.name, sorted(wa), sorted(wb)))
    mon.check('weights', [v.name.split('/')[-1] for v in old.trainable_weights] == [v.name.split('/')[-1] for v in new.trainable_weights], lambda: '%s: trainable variables changed' % (op,))
    mon.check('original', not {id(v) for v in old.weights} & {id(v) for v in new.weights}, 'the new model shares variables with the old one')
    base = new
  w1 = qwatch.Watch(base, m, names, mon, tolerate=True, bits=bits, like=w, fix_in=fix_in, fix_out=fix_out)
  w1.step(x, False, 'after %s' % case['ops'])
  w1.step(qzoo.batch(m, r), True, 'after %s' % case['ops'])
  qwatch.perturb(base, r)
  w1.step(x, False, 'after %s and training' % case['ops'])
  mon.nontrivial(str(w1.g.signature()), str(case['ops']))
  mon.sample = dict(graph=w1.g.signature(), ops=case['ops'])


def refused(case, mon):
  from tensorflow_model_optimization.python.core.quantization.keras import quantize as Q
  k = zoo.K(); L = k.layers
  for f in (Q.fix_input_output_range, Q.remove_input_range):
    mon.raises('refused', lambda: f(k.Sequential([L.InputLayer((3,)), L.Dense(2)])), (ValueError, IndexError), 'float model')
    mon.raises('refused', lambda: f(k.Sequential([L.InputLayer((3,)), L.Dense(2), L.ReLU()])), ValueError, 'float model')
