"""C09: the XNNPACK latency pruning policy."""
import numpy as np
from lib import zoo

PROP = 'C09'
CLAUSES = ['accepts', 'rejects', 'wrapped-set', 'untouched', 'function']
RULE = ('one case = a random convolutional graph (entry part, supported/unsupported middle operations, residual branches, one or '
        'two inputs and outputs, tails), judged from its configuration by an independent reachability reference; non-trivial = '
        'distinct (operation word, verdict)')

GOOD = ['pw', 'pw', 'pw', 'dw3s', 'dw5s', 'dw3v', 'dw5v', 'dw3v2', 'bn', 'relu', 'relu6act', 'leaky', 'elu', 'drop', 'zp', 'res', 'up', 'mul', 'tfadd', 'sigm', 'bnrelu', 'tfmul', 'tfsub']
BAD = ['c3', 'pws2', 'pwg', 'dw3m2', 'dw3dil', 'dw7', 'dw3vn', 'dw5v1', 'maxpool', 'avgpool', 'bnax', 'upn', 'tanh', 'softmax', 'concat', 'sep', 'dw3s2same', 'max', 'sub', 'pre', 'swish', 'tfrelu', 'ln']
ANY = ['dwr', 'dwr', 'bnr', 'dwr', 'pwr', 'dwr', 'actr', 'upr']      # settings drawn anew each time
ENTRY = ['ok'] * 9 + ['k5', 's1', 'same', 'nozp', 'zp2', 'ch4', 'two_consumers', 'skip', 'dwfirst', 'pre1x1', 'prelu_before']
TAIL = ['gap_dense'] * 4 + ['gap_pw', 'gap_flat', 'nogap', 'gap_nokeep', 'two', 'two_nogap', 'gap_relu_dense', 'flat_pw']


def cases(rng, tier):
  out = []
  for i in range(110 if tier == 'quick' else 2500):
    n = rng.randrange(1, 7)
    mid = [rng.choice(GOOD) for _ in range(n)]
    if rng.random() < .35:
      mid[rng.randrange(n)] = rng.choice(BAD)
    if i % 2:
      mid = mid[:3]
      mid[rng.randrange(len(mid))] = ANY[i // 2 % len(ANY)]
    out.append(dict(entry=rng.choice(ENTRY) if rng.random() < .5 and not i % 2 else 'ok', mid=mid,
                    tail=rng.choice(TAIL) if not i % 2 else 'gap_dense', seq=bool(rng.random() < .3), two_in=rng.choice([None] * 6 + ['ok', 'noentry']),
                    seed=rng.randrange(10**6)))
  out += [dict(special=k, seed=1) for k in ['unbuilt', 'subclassed', 'dense_only', 'layer']]
  out += [dict(special='grid', part=i, seed=i) for i in range(6)]
  return out


class Pick:
  def __init__(self, seed):
    self.r = np.random.RandomState(seed)

  def choice(self, values, p=None):
    return values[int(self.r.choice(len(values), p=p))]


def build(case):
  import tensorflow as tf
  k = zoo.K()
  L = k.layers

  def entry(e, tag):
    i = L.Input((16, 16, 4 if e == 'ch4' else 3))
    t = i
    if e == 'prelu_before':
      t = L.ReLU()(t)
    if e == 'pre1x1':
      t = L.Conv2D(3, 1)(t)
    if e == 'dwfirst':
      t = L.DepthwiseConv2D(3, padding='same')(t)
    if e != 'nozp':
      t = L.ZeroPadding2D(2 if e == 'zp2' else ((1, 1), (1, 1)))(t)
    if e == 'skip':
      z = L.Conv2D(4, 3, strides=2)(t)
      return i, L.Add()([z, L.Conv2D(4, 1, strides=2)(L.Cropping2D(1)(t))])
    if e == 'two_consumers':
      a = L.Conv2D(4, 3, strides=2)(t)
      b = L.Conv2D(4, 3, strides=2, use_bias=False)(t)
      return i, L.Add()([a, b])
    t = L.Conv2D(4, 5 if e == 'k5' else 3, strides=1 if e == 's1' else 2, padding='same' if e == 'same' else 'valid')(t)
    return i, t

  i, t = entry(case['entry'], 0)
  ins = [i]
  if case['two_in']:
    j, s = entry('ok' if case['two_in'] == 'ok' else 'k5', 1)
    ins.append(j)
    t = L.Add()([L.Resizing(8, 8)(t) if t.shape[1] != 8 else t, L.Resizing(8, 8)(s) if s.shape[1] != 8 else s])
  r = Pick(case['seed'])
  for op in case['mid']:
    c = int(t.shape[-1])
    if op == 'pw': t = L.Conv2D(c + 1, 1, use_bias=bool(case['seed'] % 2))(t)
    elif op == 'dw3s': t = L.DepthwiseConv2D(3, padding='same')(t)
    elif op == 'dw5s': t = L.DepthwiseConv2D(5, padding='same')(t)
    elif op == 'dw3v': t = L.DepthwiseConv2D(3)(L.ZeroPadding2D(1)(t))
    elif op == 'dw3v2': t = L.DepthwiseConv2D(3, strides=2)(L.ZeroPadding2D(1)(t))
    elif op == 'dw5v': t = L.DepthwiseConv2D(5)(L.ZeroPadding2D(2)(t))
    elif op == 'dwr':
      ks, pads = r.choice([(3, 3), (5, 5), (3, 5)], p=[.45, .45, .1]), r.choice([None, 1, 2, ((1, 2), (1, 2)), ((1, 1), (2, 2))], p=[.2, .3, .3, .1, .1])
      st = r.choice([1, 2, 3], p=[.4, .3, .3])
      dil = r.choice([1, 2], p=[.8, .2]) if st == 1 else 1
      if int(t.shape[1]) < 9:
        t = L.UpSampling2D(interpolation='bilinear')(t)
      t = t if pads is None else L.ZeroPadding2D(pads)(t)
      t = L.DepthwiseConv2D(ks, strides=st, dilation_rate=dil, padding=r.choice(['same', 'valid', 'valid']), depth_multiplier=r.choice([1, 2], p=[.85, .15]))(t)
    elif op == 'bnr': t = L.BatchNormalization(axis=r.choice([3, -1, [3], [2, 3], [1, 3], [-1], [2], 2]))(t)
    elif op == 'pwr':
      st = r.choice([1, 2], p=[.7, .3])
      t = L.Conv2D(2 * c, r.choice([(1, 1), (1, 2)], p=[.8, .2]), strides=st, groups=r.choice([1, c], p=[.7, .3]), dilation_rate=r.choice([1, 2], p=[.7, .3]) if st == 1 else 1, padding=r.choice(['same', 'valid']))(t)
    elif op == 'actr': t = L.Activation(r.choice(['relu', 'relu6', 'leaky_relu', 'elu', 'sigmoid', 'selu', 'gelu', 'hard_sigmoid', 'linear', 'softplus']))(t)
    elif op == 'upr': t = L.UpSampling2D(r.choice([2, (1, 2)]), interpolation=r.choice(['bilinear', 'nearest', 'bicubic']))(t)
    elif op == 'bn': t = L.BatchNormalization()(t)
    elif op == 'bnrelu': t = L.ReLU()(L.BatchNormalization()(t))
    elif op == 'relu': t = L.ReLU(6.)(t)
    elif op == 'relu6act': t = L.Activation('relu6')(t)
    elif op == 'sigm': t = L.Activation('sigmoid')(t)
    elif op == 'leaky': t = L.LeakyReLU()(t)
    elif op == 'elu': t = L.ELU()(t)
    elif op == 'drop': t = L.Dropout(.1)(t)
    elif op == 'zp': t = L.ZeroPadding2D(1)(t)
    elif op == 'res': t = L.Add()([t, L.Conv2D(c, 1)(t)])
    elif op == 'mul': t = L.Multiply()([t, L.Activation('sigmoid')(t)])
    elif op == 'up': t = L.UpSampling2D(interpolation='bilinear')(t)
    elif op == 'tfadd': t = t + L.Conv2D(c, 1)(t)
    elif op == 'tfmul': t = t * 2.
    elif op == 'tfsub': t = tf.subtract(t, 1.)
    elif op == 'c3': t = L.Conv2D(c, 3, padding='same')(t)
    elif op == 'pws2': t = L.Conv2D(c, 1, strides=2)(t)
    elif op == 'pwg': t = L.Conv2D(2 * c, 1, groups=c)(t)
    elif op == 'dw3m2': t = L.DepthwiseConv2D(3, padding='same', depth_multiplier=2)(t)
    elif op == 'dw3dil': t = L.DepthwiseConv2D(3, padding='same', dilation_rate=2)(t)
    elif op == 'dw7': t = L.DepthwiseConv2D(7, padding='same')(t)
    elif op == 'dw3vn': t = L.DepthwiseConv2D(3)(L.ReLU()(L.ZeroPadding2D(1)(t)))
    elif op == 'dw5v1': t = L.DepthwiseConv2D(5)(L.ZeroPadding2D(1)(L.UpSampling2D(interpolation='bilinear')(t)))
    elif op == 'dw3s2same': t = L.DepthwiseConv2D(3, padding='same', strides=2)(t)
    elif op == 'maxpool': t = L.MaxPooling2D(2, padding='same')(t)
    elif op == 'avgpool': t = L.AveragePooling2D(2, padding='same')(t)
    elif op == 'bnax': t = L.BatchNormalization(axis=1)(t)
    elif op == 'ln': t = L.LayerNormalization()(t)
    elif op == 'upn': t = L.UpSampling2D()(t)
    elif op == 'tanh': t = L.Activation('tanh')(t)
    elif op == 'swish': t = L.Activation('swish')(t)
    elif op == 'softmax': t = L.Softmax()(t)
    elif op == 'concat': t = L.Concatenate()([t, L.Conv2D(2, 1)(t)])
    elif op == 'max': t = L.Maximum()([t, L.Conv2D(c, 1)(t)])
    elif op == 'sub': t = L.Subtract()([t, L.Conv2D(c, 1)(t)])
    elif op == 'sep': t = L.SeparableConv2D(c, 3, padding='same')(t)
    elif op == 'pre': t = L.Permute((2, 1, 3))(t)
    elif op == 'tfrelu': t = tf.nn.relu(t)
    else: raise ValueError(op)
  tail = case['tail']
  g = lambda v, keep=True: L.GlobalAveragePooling2D(keepdims=keep)(v)
  if tail == 'gap_dense': outs = [L.Dense(3)(L.Flatten()(g(t)))]
  elif tail == 'gap_relu_dense': outs = [L.Dense(3)(L.Flatten()(L.Activation('tanh')(g(L.ReLU()(t)))))]
  elif tail == 'gap_pw': outs = [L.Flatten()(L.Conv2D(3, 1)(g(t)))]
  elif tail == 'gap_flat': outs = [g(t)]
  elif tail == 'gap_nokeep': outs = [L.Dense(3)(g(t, False))]
  elif tail == 'nogap': outs = [L.Dense(3)(L.Flatten()(t))]
  elif tail == 'flat_pw': outs = [L.Conv2D(2, 1)(t)]
  elif tail == 'two': outs = [L.Dense(3)(L.Flatten()(g(t))), g(L.Conv2D(2, 1)(t))]
  elif tail == 'two_nogap': outs = [L.Dense(3)(L.Flatten()(g(t))), L.Conv2D(2, 1)(t)]
  m = k.Model(ins if len(ins) > 1 else ins[0], outs if len(outs) > 1 else outs[0])
  if case['seq'] and not case['two_in'] and len(outs) == 1 and all(
      len(l['inbound_nodes']) == 0 or len(l['inbound_nodes'][0]) == 1 for l in m.get_config()['layers']) and not any(
          'Lambda' in type(l).__name__ for l in m.layers):
    m = k.Sequential([l.__class__.from_config(l.get_config()) for l in m.layers])
  zoo.randomize(m, case['seed'])
  r = np.random.RandomState(case['seed'])
  x = [r.randn(2, *i.shape[1:]).astype('f') for i in m.inputs]
  return m, x if len(x) > 1 else x[0]


def reference(model):
  """True iff the model's graph is eligible; reads only layer configurations."""
  cls, cfg, prod = {}, {}, {}
  names = [l.name for l in model.layers]
  if type(model).__name__ == 'Sequential':
    cls['__in'], cfg['__in'], prod['__in'] = 'InputLayer', {}, []
    prev = '__in'
    for l in model.layers:
      if type(l).__name__ == 'InputLayer':
        continue
      cls[l.name], cfg[l.name], prod[l.name] = type(l).__name__, l.get_config(), [prev]
      prev = l.name
    outs, ins = [prev], ['__in']
  else:
    def feeds(v):
      if isinstance(v, (list, tuple)):
        if len(v) >= 3 and isinstance(v[0], str) and v[0] in names and isinstance(v[1], int):
          return [v[0]] + (feeds(list(v[3].values())) if len(v) > 3 and isinstance(v[3], dict) else [])
        return [f for e in v for f in feeds(e)]
      if isinstance(v, dict):
        return [f for e in v.values() for f in feeds(e)]
      return []
    c = model.get_config()
    for l in c['layers']:
      cls[l['name']], cfg[l['name']] = l['class_name'], l['config']
      prod[l['name']] = feeds(l['inbound_nodes'])
    ins, outs = feeds(c['input_layers']), feeds(c['output_layers'])
  cons = {n: [m for m in prod if n in prod[m]] for n in prod}
  ch = {l.name: (l.input_shape[-1] if isinstance(getattr(l, 'input_shape', None), tuple) else None) for l in model.layers}
  tup = lambda v: tuple(tuple(e) if isinstance(e, (list, tuple)) else e for e in v)

  def entry(n):
    if cls[n] != 'Conv2D':
      return False
    g, p = cfg[n], prod[n]
    return (tup(g['kernel_size']) == (3, 3) and ch[n] == 3 and tup(g['strides']) == (2, 2) and g['padding'] == 'valid'
            and len(set(p)) == 1 and cls[p[0]] == 'ZeroPadding2D' and tup(cfg[p[0]]['padding']) == ((1, 1), (1, 1)))

  def frontier(start, stop, nxt):
    seen, todo, hit = set(start), list(start), set()
    while todo:
      n = todo.pop()
      if stop(n):
        hit.add(n)
        continue
      if not nxt[n]:
        return None
      for m in nxt[n]:
        if m not in seen:
          seen.add(m)
          todo.append(m)
    return hit
  starts = frontier(ins, entry, cons)
  ends = frontier(outs, lambda n: cls[n] == 'GlobalAveragePooling2D', prod)
  if not starts or not ends:
    return False

  def pad(n):
    p = set(prod[n])
    p = list(p)
    return tup(cfg[p[0]]['padding']) if len(p) == 1 and cls[p[0]] == 'ZeroPadding2D' else None

  def ok(n):
    c, g = cls[n], cfg[n]
    if c in ('Add', 'Multiply', 'ZeroPadding2D', 'ReLU', 'LeakyReLU', 'ELU', 'Dropout'):
      return True
    if c == 'DepthwiseConv2D':
      ks, st = tup(g['kernel_size']), tup(g['strides'])
      if g['depth_multiplier'] != 1 or tup(g['dilation_rate']) != (1, 1) or ks not in ((3, 3), (5, 5)):
        return False
      if g['padding'] == 'same':
        return st == (1, 1)
      h = ks[0] // 2
      return st in ((1, 1), (2, 2)) and pad(n) == ((h, h), (h, h))
    if c == 'Conv2D':
      return tup(g['kernel_size']) == (1, 1) and tup(g['strides']) == (1, 1) and g['groups'] == 1 and tup(g['dilation_rate']) == (1, 1)
    if c == 'GlobalAveragePooling2D':
      return g['keepdims']
    if c == 'BatchNormalization':
      ax = g['axis']
      return (list(ax) if isinstance(ax, (list, tuple)) else [ax]) in ([3], [-1]) and ax != 1
    if c == 'UpSampling2D':
      return g['interpolation'] == 'bilinear'
    if c == 'Activation':
      return g['activation'] in ('relu', 'relu6', 'leaky_relu', 'elu', 'sigmoid')
    if c == 'TFOpLambda':
      return g['function'].split('.')[-1] in ('add', 'subtract', 'multiply', 'identity')
    return False
  seen, todo = set(), [m for s in starts for m in cons[s]]
  while todo:
    n = todo.pop()
    if n in seen or n in ends:
      continue
    seen.add(n)
    if not ok(n):
      return False
    todo += cons[n]
  return True


def run(case, mon):
  from tensorflow_model_optimization.python.core.keras.compat import keras
  from tensorflow_model_optimization.python.core.sparsity.keras import prune, pruning_policy, pruning_schedule as ps, pruning_wrapper
  L = keras.layers
  sch, pol = ps.ConstantSparsity(.5, 0), pruning_policy.PruneForLatencyOnXNNPack()
  P = lambda m: prune.prune_low_magnitude(m, sch, pruning_policy=pol)
  if 'special' in case:
    if case['special'] == 'unbuilt':
      mon.raises('rejects', lambda: P(keras.Sequential([L.ZeroPadding2D(1), L.Conv2D(3, 3, strides=2), L.Conv2D(2, 1), L.GlobalAveragePooling2D(keepdims=True)])), ValueError)
    elif case['special'] == 'grid':
      # one operation between the first convolution and the pooling, in every setting
      act = ['relu', 'relu6', 'leaky_relu', 'elu', 'sigmoid', 'selu', 'gelu', 'hard_sigmoid', 'linear', 'softplus', 'exponential', 'softsign', 'tanh', 'swish', 'softmax']
      grid = [lambda k=k, s=s, p=p, w=w, v=v: L.DepthwiseConv2D(k, strides=s, dilation_rate=v[0], depth_multiplier=v[1], padding=w) if p is None else [L.ZeroPadding2D(p), L.DepthwiseConv2D(k, strides=s, dilation_rate=v[0], depth_multiplier=v[1], padding=w)]
              for k in (3, 5, 7, (3, 5)) for s in (1, 2, 3) for p in (None, 1, 2, 3, ((1, 2), (1, 2))) for w in ('same', 'valid') for v in ((1, 1), (2, 1), (1, 2)) if s == 1 or v[0] == 1]
      grid += [lambda k=k, s=s, g=g, d=d, w=w: L.Conv2D(8, k, strides=s, groups=g, dilation_rate=d, padding=w) for k in (1, (1, 2), (2, 1), 3) for s in (1, 2, (1, 2)) for g in (1, 2, 4) for d in (1, 2, (1, 2)) for w in ('same', 'valid') if s == 1 or d == 1]
      grid += [lambda a=a: L.BatchNormalization(axis=a) for a in (3, -1, [3], [2, 3], [1, 3], 2, [1], [1, 2, 3])]
      grid += [lambda a=a: L.Activation(a) for a in act]
      grid += [lambda a=a: L.UpSampling2D(interpolation=a) for a in ('bilinear', 'nearest', 'bicubic', 'area')]
      for f in grid[case['part']::6]:
        i = L.Input((33, 33, 3))
        t = L.Conv2D(4, 3, strides=2)(L.ZeroPadding2D(1)(i))
        for l in (lambda v: v if isinstance(v, list) else [v])(f()):
          t = l(t)
        m = keras.Model(i, L.GlobalAveragePooling2D(keepdims=True)(L.Conv2D(2, 1)(t)))
        try:
          pol.ensure_model_supports_pruning(m)
          got = True
        except ValueError:
          got = False
        want = reference(m)
        mon.check('accepts' if want else 'rejects', got == want, lambda: '%s: %s %s' % (l.get_config(), 'accepted' if got else 'rejected', m.layers[-4].get_config()))
        mon.event('settings')
    elif case['special'] == 'subclassed':
      class M(keras.Model):
        def call(self, x):
          return x
      mon.raises('rejects', lambda: P(M()), ValueError)
      mon.raises('rejects', lambda: pol.ensure_model_supports_pruning(M()), ValueError)
    elif case['special'] == 'dense_only':
      mon.raises('rejects', lambda: P(keras.Sequential([L.Dense(3, input_shape=(4,)), L.Dense(2)])), ValueError)
    else:
      for l, want in [(L.Conv2D(3, 1), True), (L.Conv2D(3, (1, 2)), False), (L.Dense(3), False), (L.DepthwiseConv2D(1), False), (L.Conv1D(3, 1), False), (L.SeparableConv2D(3, 1), False), (L.Conv2D(3, 1, strides=2), True)]:
        mon.check('wrapped-set', bool(pol.allow_pruning(l)) == want, lambda: 'allow_pruning(%r)' % l.get_config())
    mon.nontrivial(case['special'], case.get('part'))
    return
  model, x = build(case)
  want = reference(model)
  before = zoo.outputs(model, x)
  names = [l.name for l in model.layers]
  err = None
  try:
    got = P(model)
  except ValueError as e:
    err = e
  word = (case['entry'], tuple(case['mid']), case['tail'], case['two_in'], type(model).__name__)
  if want:
    mon.event('eligible-models')
    if not mon.check('accepts', err is None, lambda: 'eligible model rejected: %s' % err):
      return
    expect = {l.name for l in model.layers if type(l).__name__ == 'Conv2D' and tuple(l.kernel_size) == (1, 1)}
    real = {l.layer.name for l in got.layers if isinstance(l, pruning_wrapper.PruneLowMagnitude)}
    mon.check('wrapped-set', expect == real, lambda: 'wrapped %s, expected %s' % (sorted(real), sorted(expect)))
    mon.check('wrapped-set', all(len(l.pruning_vars) == 1 and l.pruning_vars[0][0] is l.layer.kernel for l in got.layers if isinstance(l, pruning_wrapper.PruneLowMagnitude)), 'masked variables')
    mon.check('untouched', [getattr(l, 'layer', l).name if isinstance(l, pruning_wrapper.PruneLowMagnitude) else l.name for l in got.layers] == names, 'other layers changed')
    mon.check('function', zoo.close(zoo.outputs(got, x), before, 1e-5), 'outputs changed')
  else:
    mon.event('ineligible-models')
    mon.check('rejects', err is not None, 'ineligible model accepted')
    mon.check('untouched', [l.name for l in model.layers] == names and zoo.close(zoo.outputs(model, x), before, 0), 'rejected model was changed')
  mon.nontrivial(word, want, case['seed'] if set(case['mid']) & set(ANY) else 0)
  mon.sample = dict(word=word, eligible=want)
