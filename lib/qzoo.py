"""Random models made of layers the quantization schemes support, and the rules
of where fake quantization belongs in them (written from the documented
behaviour of integer inference, applied to the graph of the quantized model)."""
import numpy as np

from lib import zoo

# --- models ---------------------------------------------------------------

IMG1 = ['conv', 'conv', 'conv_bn', 'conv_bn_relu', 'conv_bn_relu', 'dw', 'dw_bn_relu', 'sep', 'sep_bn', 'sep_bn_relu', 'maxpool', 'avgpool', 'pad_crop', 'up_down',
        'leaky', 'relu', 'act', 'dropout', 'trans', 'conv_relu', 'add_relu', 'sdrop', 'concat', 'add', 'concat', 'add', 'catq', 'dw_relu', 'sep_relu', 'trans_bn', 'trans_bn_relu', 'trans_relu']
VEC1 = ['dense', 'dense', 'dense_bn', 'dense_bn_relu', 'dense_relu', 'relu', 'act', 'leaky', 'dropout', 'concat', 'add', 'reshape', 'softmax', 'add_relu', 'catq']
SEQ1 = ['sep1d', 'sep1d_bn', 'sep1d_bn_relu', 'avgpool1', 'crop1', 'pad1', 'permute', 'relu', 'act', 'concat', 'add', 'sdrop1', 'catq', 'sep1d_relu']
VOL1 = ['relu', 'act', 'leaky', 'crop3', 'sdrop3', 'catq']
FLOAT_KERNEL = ('conv_relu', 'dense_relu', 'dw_relu', 'sep_relu', 'sep1d_relu')      # see the finding float-kernel-before-relu
BRANCHING = ('concat', 'add', 'catq', 'add_relu', 'dupcat', 'tfop', 'frozen_bn', 'rnn', 'mha', 'shared')
ACTS = ['relu', 'relu', None, None, 'tanh', 'sigmoid', 'softmax', 'swish', 'gelu']


def spec(rng, kind=None, size=None, nbit=False, finding=True, ban=(), extra=(), turn=None):
  """A JSON-able program: nodes [op, params, inputs]; tensors are numbered."""
  kind = kind or rng.choice(['img', 'img', 'img', 'vec', 'seq'])
  size = size or rng.randrange(1, 7)
  acts = [a for a in ACTS if not (nbit and a == 'gelu')]
  ops = [o for o in dict(img=IMG1, vec=VEC1, seq=SEQ1, vol=VOL1)[kind] if o not in ban and (finding or o not in FLOAT_KERNEL)] + list(extra)
  n_in = 2 if rng.random() < .25 else 1
  prog = []
  for _ in range(size):
    op = rng.choice(ops)
    p = dict(u=rng.randrange(1, 6), k=rng.choice([1, 2, 3]), bias=bool(rng.random() < .6), act=rng.choice(acts), s=rng.choice([1, 1, 2]),
             alpha=rng.choice([.1, .3]), m=rng.choice([1, 1, 2]), relu=rng.choice(['layer', 'layer6', 'act']), n=rng.choice([2, 2, 3, 4, 6]), d=rng.choice([1, 1, 2]),
             lact=rng.choice(['relu', 'sigmoid', 'tanh', 'swish', 'linear', 'softmax'] + ([] if nbit else ['gelu'])), pick=[rng.random() for _ in range(6)], order=rng.random() < .5)
    prog.append([op, p])
  if turn is not None:
    # every operation gets its turn
    every = sorted((o, v) for o in {o for o in dict(img=IMG1, vec=VEC1, seq=SEQ1, vol=VOL1)[kind] if o not in ban} | set(extra) for v in (['act', 'layer'] if o.endswith('_relu') else ['']))
    turn[kind] = turn.get(kind, -1) + 1
    at = prog[turn[kind] % len(prog)]
    at[0], v = every[turn[kind] % len(every)]
    at[1]['relu'] = v or at[1]['relu']
  return dict(kind=kind, n_in=n_in, prog=prog, head=rng.choice(['gap', 'flat', 'none', 'gap']), hact=rng.choice(acts), n_out=2 if rng.random() < .25 else 1,
              seq=bool(rng.random() < .35), seed=rng.randrange(10**6), c=rng.randrange(1, 4))


def build(sp):
  """Returns (model, x, groups): groups are lists of layer names of which any prefix may be annotated."""
  k = zoo.K(); L = k.layers
  kind = sp['kind']
  shape = dict(img=(5, 6, sp['c']), vec=(sp['c'] + 2,), seq=(7, sp['c']), vol=(4, 5, 4, sp['c']))[kind]
  chain = sp['seq'] and sp['n_in'] == 1 and sp['n_out'] == 1 and not any(o[0] in BRANCHING for o in sp['prog'])
  ids = [0]
  groups, seen = [], []

  def nm(t):
    ids[0] += 1
    return '%s_%d' % (t, ids[0])

  seq_layers = []

  def apply(x, *layers):
    groups.append([l.name for l in layers])
    for l in layers:
      seq_layers.append(l)
      x = l(x)
    return x

  def relu(p):
    return L.Activation('relu', name=nm('actrelu')) if p['relu'] == 'act' else L.ReLU(6. if p['relu'] == 'layer6' else None, name=nm('relu'))

  ins = [L.Input(shape, name=nm('in')) for _ in range(sp['n_in'])]
  live = list(ins)
  used = []
  for op, p in sp['prog']:
    x = live[-1] if chain or p['pick'][5] < .6 else live[int(p['pick'][4] * len(live))]
    if not chain:
      fit = [t for t in live if t.shape[1:-1] == x.shape[1:-1]]
      other = lambda p, i: fit[int(p['pick'][i] * len(fit))]
    conv = dict(img='conv', vec='dense', seq='sep1d', vol=None)[kind]
    def main(t, act, x=None):
      # only layers of the main chain shrink or grow the picture
      side = 1 + int(p['pick'][0] * 1000) % 3 if t != 'dense' and p['pick'][1] * 100 % 1 < .4 else p['k']
      ks = (p['k'], side)
      kw = dict(use_bias=p['bias'], activation=act, name=nm(t))
      if t != 'dense':
        kw['padding'] = 'same'
        dims = [] if x is None else list(x.shape[1:-1])
        if dims and p['d'] == 1 and (t != 'trans' or max(dims) < 9):
          kw['strides'] = p['s']
        if dims and all(d >= p['d'] * (v - 1) + 1 for d, v in zip(dims, ks)) and p['pick'][3] * 1000 % 1 < .3:
          kw['padding'] = 'valid'
      if t == 'conv': return L.Conv2D(p['u'], ks, dilation_rate=p['d'], **kw)
      if t == 'dw': return L.DepthwiseConv2D(ks, depth_multiplier=p['m'], **kw)
      if t == 'sep': return L.SeparableConv2D(p['u'], ks, depth_multiplier=p['m'], dilation_rate=p['d'], **kw)
      if t == 'dense': return L.Dense(p['u'], **kw)
      if t == 'sep1d': return L.SeparableConv1D(p['u'], p['k'], depth_multiplier=p['m'], dilation_rate=p['d'], **kw)
      if t == 'trans': return L.Conv2DTranspose(p['u'], ks, **kw)
    base = op.split('_')[0]
    if base in ('conv', 'dw', 'sep', 'dense', 'sep1d', 'trans'):
      rest = op.split('_')[1:]
      ls = [main(base, None if rest else p['act'], x)]
      if 'bn' in rest: ls.append((L.experimental.SyncBatchNormalization if p['pick'][2] < .2 else L.BatchNormalization)(momentum=.9, name=nm('bn')))
      if 'relu' in rest: ls.append(relu(p))
      y = apply(x, *ls)
    elif op in ('add', 'add_relu', 'concat'):
      n = p['n'] if op == 'concat' else 2
      # mostly fresh branches, sometimes tensors that are used elsewhere too
      brs = []
      for i in range(n):
        b = other(p, i)
        if op == 'add' or op == 'add_relu' or p['pick'][i] < .6:
          t = ['conv', 'sep', 'dw', 'conv'][int(p['pick'][i] * 40) % 4] if kind == 'img' and op == 'concat' else conv
          l = [main(t, p['act'] if p['pick'][i] * 10 % 1 < .3 else None)]
          if p['pick'][i] * 100 % 1 < .4 and l[0].get_config().get('activation') == 'linear':
            l += [L.BatchNormalization(momentum=.9, name=nm('bn'))] + ([relu(p)] if p['pick'][i] * 1000 % 1 < .6 else [])
          elif p['pick'][i] * 100 % 1 > .8:
            l = [L.LeakyReLU(.2, name=nm('leaky'))] if op == 'concat' else l
          b = apply(b, *l)
        brs.append(b)
      if len({id(b) for b in brs}) < len(brs):
        brs = list({id(b): b for b in brs}.values())
        if len(brs) < 2:
          brs.append(apply(x, main(conv, None)))
      if op != 'concat' and brs[0].shape[-1] != brs[1].shape[-1]:
        brs = [apply(b, main(conv, None)) for b in brs]
      if p['order']:
        brs = brs[::-1]
      y = apply(brs, L.Concatenate(name=nm('cat')) if op == 'concat' else L.Add(name=nm('add')), *([relu(p)] if op == 'add_relu' else []))
    elif op == 'catq':
      # branches whose results are quantized on their own unless the concatenation does it
      brs = []
      for i in range(p['n']):
        j = int(p['pick'][i] * 40) % (4 if kind in ('img', 'seq') else 3)
        brs.append(apply(x, L.LeakyReLU(.1 + .1 * i, name=nm('leaky')) if j == 0 else L.ReLU(6. if i % 2 else None, name=nm('relu')) if j == 1 else L.Activation('relu', name=nm('act')) if j == 2 else
                         L.AveragePooling2D(2, 1, padding='same', name=nm('avgp')) if kind == 'img' else L.AveragePooling1D(2, 1, padding='same', name=nm('avgp'))))
      y = apply(brs, L.Concatenate(name=nm('cat')))
    elif op == 'dupcat':
      b = apply(other(p, 1), main(conv, p['act']))
      brs = [x, b, b] if p['order'] else [b, x, b, x][:p['n']]
      y = apply(brs, L.Concatenate(name=nm('cat')))
    elif op == 'tfop':
      import tensorflow as tf
      b = apply(x, main(conv, None))
      c = apply(other(p, 1), main('sep' if kind == 'img' else conv, None))
      f = [lambda: tf.concat([b, c], -1), lambda: tf.concat(values=[c, b, c], axis=-1), lambda: b * 2. + tf.reduce_sum(c, axis=[]), lambda: 1. - c,
           lambda: tf.clip_by_value(b, clip_value_min=-.5, clip_value_max=1.), lambda: tf.reduce_max(c, axis=[-1], keepdims=True) + b, lambda: b[:, 1:]][int(p['pick'][2] * (7 if kind == 'seq' else 6))]
      y = f()
    elif op == 'frozen_bn':
      l = main(conv, None)
      y = L.BatchNormalization(momentum=.9, name=nm('bn'))(apply(x, l), training=False)
      y = apply(y, relu(p)) if p['order'] else y
    elif op == 'rnn':
      h, a, b = L.LSTM(p['u'], return_sequences=True, return_state=True, name=nm('lstm'))(x)
      y = [h, apply([b, apply(a, L.Dense(2, name=nm('dense')))], L.Concatenate(name=nm('cat')))][p['order']]
      if p['order']:
        y = apply(y, L.RepeatVector(3, name=nm('rep')))
    elif op == 'bidi': y = apply(x, L.Bidirectional(L.LSTM(p['u'], return_sequences=True), name=nm('bidi')))
    elif op == 'mha':
      y = L.MultiHeadAttention(2, 2, name=nm('mha'))(x, x)
    elif op == 'shared':
      l = main(conv, p['act'])
      z = apply(x, L.Dense(x.shape[-1], name=nm('dense')))
      y = apply([l(x), l(z)], L.Concatenate(name=nm('cat')))
    elif op == 'lambda': y = apply(x, L.Lambda(lambda t: t * .5 + 1., name=nm('lambda')))
    elif op == 'maxpool': y = apply(x, L.MaxPooling2D(2, p['s'], padding='same', name=nm('maxp')))
    elif op == 'avgpool': y = apply(x, L.AveragePooling2D(2, p['s'], padding='same', name=nm('avgp')))
    elif op == 'pad_crop':
      y = apply(x, L.ZeroPadding2D(1, name=nm('pad')))
      y = apply(y, L.Cropping2D(((1, 1), (2, 0)), name=nm('crop')))
    elif op == 'up_down':
      y = apply(x, L.UpSampling2D(2, interpolation='bilinear' if p['pick'][0] < .4 else 'nearest', name=nm('up')))
      y = apply(y, L.MaxPooling2D(2, name=nm('maxp')) if p['order'] else L.Conv2D(p['u'], 2, strides=2, activation=p['act'], name=nm('conv')))
    elif op == 'leaky': y = apply(x, L.LeakyReLU(p['alpha'], name=nm('leaky')))
    elif op == 'relu': y = apply(x, relu(p))
    elif op == 'act': y = apply(x, L.Activation(p['lact'], name=nm('act')))
    elif op == 'softmax': y = apply(x, L.Softmax(name=nm('softmax')))
    elif op == 'dropout': y = apply(x, L.Dropout(.3, name=nm('drop')))
    elif op == 'sdrop': y = apply(x, L.SpatialDropout2D(.3, name=nm('sdrop')))
    elif op == 'sdrop1': y = apply(x, L.SpatialDropout1D(.3, name=nm('sdrop')))
    elif op == 'reshape':
      y = apply(x, L.Reshape((1, x.shape[-1]), name=nm('resh')))
      y = apply(y, L.Flatten(name=nm('flat')))
    elif op == 'avgpool1': y = apply(x, L.AveragePooling1D(2, p['s'], padding='same', name=nm('avgp')))
    elif op == 'crop1':
      y = apply(x, L.Cropping1D((1, 0), name=nm('crop')))
      y = apply(y, L.ZeroPadding1D((0, 1), name=nm('pad')))
    elif op == 'crop3':
      y = apply(x, L.Cropping3D(((0, 1), (1, 0), (0, 0)) if min(x.shape[1:3]) > 1 else 0, name=nm('crop')))
    elif op == 'sdrop3': y = apply(x, L.SpatialDropout3D(.3, name=nm('sdrop')))
    elif op == 'pad1':
      y = apply(x, L.ZeroPadding1D((1, 0), name=nm('pad')))
      y = apply(y, L.Cropping1D((0, 1), name=nm('crop')))
    elif op == 'permute':
      y = apply(x, L.Permute((2, 1), name=nm('perm')))
      y = apply(y, L.Permute((2, 1), name=nm('perm')))
    else:
      raise ValueError(op)
    live.append(y)
  y = live[-1]
  if kind != 'vec' and sp['head'] != 'none':
    dim = dict(img='2D', seq='1D', vol='3D')[kind]
    gap = getattr(L, ('GlobalMaxPooling' if sp['seed'] % 3 == 0 else 'GlobalAveragePooling') + dim)
    y = apply(y, gap(name=nm('gap')) if sp['head'] == 'gap' else L.Flatten(name=nm('flat')))
  outs = [y]
  if sp['head'] != 'none':
    outs = [apply(y, L.Dense(3, activation=sp['hact'], name=nm('dense')))]
  if sp['n_out'] == 2:
    outs.append(live[len(live) // 2] if len(live) > 2 else y)
    if outs[1] is outs[0] or any(outs[1] is i for i in ins):
      outs = outs[:1]
  # keep only what the outputs need
  m = k.Model(ins, outs if len(outs) > 1 else outs[0]) if not chain else None
  if chain:
    m = k.Sequential([L.InputLayer(shape, name='in_seq')] + seq_layers)
  names = {l.name for l in m.layers}
  groups = [[n for n in g if n in names] for g in groups]
  r = np.random.RandomState(sp['seed'])
  vals = []
  for w in m.weights:
    v = r.randn(*w.shape)
    if 'kernel' in w.name: v = v * 1.5 / np.sqrt(max(1, np.prod(w.shape[:-1])))
    elif 'gamma' in w.name or 'variance' in w.name: v = np.abs(v) * .4 + .5
    else: v = v * .5
    vals.append(v.astype('f'))
  m.set_weights(vals)
  return m, batch(m, r), [g for g in groups if g]


def batch(m, r, n=6):
  xs = [(r.randn(n, *i.shape[1:]) * r.choice([.5, 1., 3.])).astype('f') for i in m.inputs]
  return xs if len(xs) > 1 else xs[0]


def kind(layer):
  n = type(layer).__name__
  return 'BatchNormalization' if n == 'SyncBatchNormalization' else n


def valid(m):
  """False if some layer combination has no default quantization (then an error is due)."""
  g = Graph(m)
  for n in g.nodes:
    l = n.layer
    if kind(l) == 'BatchNormalization':
      p = g.producers(n)[0]
      ok = type(p.layer).__name__ in ('Conv2D', 'Conv2DTranspose', 'DepthwiseConv2D', 'Dense', 'SeparableConv2D', 'SeparableConv1D') and len(g.consumers(p)) == 1 and act_name(p.layer) == 'linear'
      if not ok:
        return False
  return True


# --- graphs ---------------------------------------------------------------

class Graph:
  """The nodes of one built functional or sequential model, in execution order."""

  def __init__(self, model):
    self.nodes = [n for d in sorted(model._nodes_by_depth, reverse=True) for n in model._nodes_by_depth[d]]
    flat = lambda v: list(v) if isinstance(v, (list, tuple)) else [v]
    self.out_ids = [id(t) for t in model.outputs]
    self.by_tensor = {id(t): n for n in self.nodes for t in flat(n.outputs)}

  def inputs(self, n):
    return list(n.keras_inputs)

  def outputs(self, n):
    v = n.outputs
    return list(v) if isinstance(v, (list, tuple)) else [v]

  def producers(self, n):
    return [self.by_tensor[id(t)] for t in self.inputs(n)]

  def consumers(self, n):
    """Distinct consuming nodes, and one entry None per use as a model output."""
    mine = {id(t) for t in self.outputs(n)}
    return [c for c in self.nodes if any(id(t) in mine for t in self.inputs(c))] + [None] * sum(o in mine for o in self.out_ids)

  def signature(self):
    """Topology by position: class names and producer positions."""
    pos = {id(n): i for i, n in enumerate(self.nodes)}
    return [(type(n.layer).__name__, [pos[id(p)] for p in self.producers(n)]) for n in self.nodes]


def act_name(layer):
  a = getattr(layer, 'activation', None)
  a = getattr(a, 'activation', a)           # unwrap a quantize-aware activation
  return getattr(a, '__name__', None) or ('noop' if a is not None else None)


def inner(layer):
  return layer.layer if hasattr(layer, 'quantize_config') and hasattr(layer, 'layer') else layer


# --- where quantization belongs --------------------------------------------

CONVS = ('Conv2D', 'DepthwiseConv2D', 'Dense')
OUT_QUANT = {'ReLU', 'LeakyReLU', 'Concatenate', 'UpSampling2D', 'AveragePooling1D', 'AveragePooling2D', 'GlobalAveragePooling1D',
             'GlobalAveragePooling2D', 'GlobalAveragePooling3D', 'Add'}
NO_QUANT = {'Softmax', 'Cropping1D', 'Cropping2D', 'Cropping3D', 'ZeroPadding1D', 'ZeroPadding2D', 'Dropout', 'Flatten', 'Permute', 'Reshape', 'SpatialDropout1D',
            'SpatialDropout2D', 'SpatialDropout3D', 'GlobalMaxPooling3D', 'MaxPooling2D', 'GlobalMaxPooling1D', 'GlobalMaxPooling2D', 'ActivityRegularization'}
ACT_OUT = {'relu', 'swish', 'gelu', 'relu6'}
WEIGHTS = {'Conv2D': ('kernel', 'last'), 'DepthwiseConv2D': ('depthwise_kernel', 'last'), 'Dense': ('kernel', None), 'Conv2DTranspose': ('kernel', None)}
PRE = {'softmax', 'sigmoid', 'tanh', 'gelu'}
POST = {'linear', 'relu', 'swish', 'gelu'}
SUPPORTED = OUT_QUANT | NO_QUANT | set(WEIGHTS) | {'Activation'}


def is_relu(layer):
  return type(layer).__name__ == 'ReLU' or (type(layer).__name__ == 'Activation' and act_name(layer) == 'relu')


def plan(q, original, annotated=None):
  """For every node of the quantized model: what has to be quantized there.

  Returns a list of (node, dict(act=name of the activation inside, weights=axis kind
  or None, pre, post, out, input, float_kernel_finding))."""
  g = Graph(q)
  onames = {l.name: l for l in original.layers}
  cls = lambda n: kind(inner(n.layer))
  name = lambda n: inner(n.layer).name
  ann = lambda n: annotated is None or name(n) in annotated or (name(n) not in onames and not cls(n) in ('InputLayer', 'QuantizeLayer'))

  def act_of(n):
    """The float layer's own activation."""
    l = onames.get(name(n))
    if l is not None:
      return act_name(l)
    if cls(n) == 'DepthwiseConv2D':
      return 'linear'
    if cls(n) in ('Conv2D', ):
      return 'sep'                          # resolved by the caller
    return None

  def next_fused(n):
    """The only consumer, if there is just one and it takes nothing else."""
    c = g.consumers(n)
    if len(c) != 1 or c[0] is None or len(g.inputs(c[0])) != 1 or not ann(c[0]):
      return None
    return c[0]

  def concat_fused(n):
    """The concatenation requantizing this node's output, if that is its only use."""
    c = g.consumers(n)
    if len(c) != 1 or c[0] is None or cls(c[0]) != 'Concatenate' or not ann(c[0]):
      return False
    ps = g.producers(c[0])
    if not 2 <= len(ps) <= 6 or len({id(p) for p in ps}) != len(ps):
      return False
    for p in ps:
      k = cls(p)
      if len(g.consumers(p)) != 1:
        return False
      if k == 'QuantizeLayer':
        continue
      if not ann(p) or k == 'InputLayer':
        return False
      if k not in SUPPORTED and k != 'BatchNormalization' and name(p) in onames:
        return False                       # squeezed separable convolutions carry a no-op config
    return True

  out = []
  for n in g.nodes:
    k = cls(n)
    e = dict(weights=None, pre=False, post=False, out=False, input=False, finding=False, act=None, cls=k)
    out.append((n, e))
    if k == 'InputLayer':
      continue
    if k == 'QuantizeLayer':
      e['input'] = not concat_fused(n)
      continue
    if not ann(n):
      outputs_only = k in SUPPORTED and any(
          c is not None and ann(c) and len(g.inputs(c)) == 1 and cls(c) not in ('QuantizeLayer',) for c in g.consumers(n))
      e['act'] = act_of(n) if k in WEIGHTS else None
      if outputs_only:
        if k in WEIGHTS:
          e['pre'], e['post'] = e['act'] in PRE, e['act'] in POST
        elif k == 'Activation':
          e['out'] = act_of(n) in ACT_OUT
        else:
          e['out'] = k in OUT_QUANT
      continue
    nxt = next_fused(n)
    squeezed = nxt
    if nxt is not None and cls(nxt) == 'Lambda':
      squeezed = next_fused(nxt)
      squeezed = squeezed if squeezed is not None and cls(squeezed) == 'BatchNormalization' else None
    if k in WEIGHTS:
      e['act'] = act_of(n)
      e['weights'] = WEIGHTS[k]
      bn = k in CONVS + ('Conv2DTranspose',) and e['act'] in ('linear', 'sep') and squeezed is not None and cls(squeezed) == 'BatchNormalization'
      rl = k in CONVS and nxt is not None and is_relu(inner(nxt.layer))
      e['finding'] = rl
      e['fused'] = bn or rl
      e['quant_act'] = not (bn or rl)
    elif k == 'BatchNormalization':
      e['out'] = not (nxt is not None and is_relu(inner(nxt.layer))) and not concat_fused(n)
    elif k == 'Activation':
      e['out'] = act_of(n) in ACT_OUT and not concat_fused(n)
    elif k == 'Add':
      e['out'] = not (nxt is not None and is_relu(inner(nxt.layer))) and not concat_fused(n)
    elif k in OUT_QUANT:
      e['out'] = not concat_fused(n)
  return g, out
