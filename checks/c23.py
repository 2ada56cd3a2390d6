"""C23: quantization-aware models predict their converted integer models.

Random supported graphs are made quantization-aware, given ranges of many sizes, converted with the
TensorFlow Lite converter and run in its reference interpreter on the same inputs. The monitor reads
the operator list, tensor types and stored constants of the converted model (integer computation
throughout, kernels equal to the fake-quantized ones) and compares outputs with the quantization-aware
model's, in units of the output step plus the model's own sensitivity to rounding, which is measured
by running it again with all activation ranges scaled by fractions of a step."""
import collections

import numpy as np

from lib import qwatch, qzoo, zoo

PROP = 'C23'
RULE = ('one case = one random graph (sometimes partly annotated), random activation ranges, float or integer interface, converted and compared on random inputs; '
        'non-trivial = distinct (graph, interface)')
CLAUSES = ['outputs', 'integer-ops', 'kernel-types', 'kernel-values', 'interface', 'input-range', 'partial']
ASSUMPTIONS = ['the installed TensorFlow Lite converter and reference kernels implement 8-bit inference correctly']
# what the converter keeps in float: not built here except to compare outputs
FLOAT_ACTS = ('swish',)
BAN = ('trans_bn', 'trans_bn_relu', 'trans_relu', 'dw_relu', 'sep_relu', 'sep1d_relu')      # kept in float, or the known finding again


def cases(rng, tier):
  out = []
  for i in range(34 if tier == 'quick' else 1200):
    while True:
      sp = qzoo.spec(rng, size=rng.randrange(1, 5 if tier == 'quick' else 8), finding=i % 12 == 0, ban=BAN)
      if 'swish' in str(sp) and i % 6:
        continue
      break
    if i % 6:
      for op in sp['prog']:
        op[1]['d'] = 1
        if op[0].startswith('dense_bn'):
          op[0] = 'dense'
    out.append(dict(sp=sp, mixed=i % 12 == 5, part=rng.random() if i % 8 == 3 else 0, io=['float', 'float', 'int8', 'uint8'][i % 4], trained=rng.random() < .3, seed=rng.randrange(10**6)))
  return out


def flat(v):
  return list(v) if isinstance(v, (list, tuple)) else [v]


def set_ranges(q, r, tied):
  """Activation ranges of many sizes, as calibration on many data sets would leave them."""
  pairs = collections.defaultdict(dict)
  lo, hi = -r.uniform(.5, 3), r.uniform(1, 4)
  for v in q.weights:
    n = v.name.split(':')[0]
    if n.endswith('_min') or n.endswith('_max'):
      if 'kernel' not in n.split('/')[-1]:
        pairs[n[:-4]][n[-3:]] = v
  for p in pairs.values():
    if len(p) == 2:
      s = r.choice([.5, 1., 2., 6.])
      if tied:
        p['min'].assign(np.full(p['min'].shape, lo).astype('f'))
        p['max'].assign(np.full(p['max'].shape, hi).astype('f'))
        continue
      p['min'].assign(np.full(p['min'].shape, -s * r.uniform(.05, 1.)).astype('f'))
      p['max'].assign(np.full(p['max'].shape, s * r.uniform(.3, 1.)).astype('f'))
  return list(pairs.values())


def requantizing(g, plan):
  """Concatenations taking inputs that have been quantized on their own."""
  e = {id(n): e for n, e in plan}

  def own(p):
    if p is None or id(p) not in e:
      return False
    v = e[id(p)]
    if v['pre'] or v['post'] or v['out'] or v['input']:
      return True
    return not v['weights'] and any(own(u) for u in g.producers(p))
  return [n for n, v in plan if 'concat' in (v['cls'] + n.layer.name).lower() and any(own(p) for p in g.producers(n))]


class Runner:
  """The signature of a converted model, or its plain tensors where Keras could not save the model for the converter (transposed convolutions)."""

  def __init__(self, it, q):
    self.it, self.named = it, bool(it.get_signature_list())
    if self.named:
      self.s = it.get_signature_runner('serving_default')
    else:
      self.i = {n: d for n in q.input_names for d in it.get_input_details() if d['name'] in (n, n + '_int8', n + '_uint8')}
      assert len(self.i) == len(q.inputs), [d['name'] for d in it.get_input_details()]
      self.o = dict(zip(q.output_names, it.get_output_details()))

  def get_input_details(self):
    return self.s.get_input_details() if self.named else self.i

  def get_output_details(self):
    return self.s.get_output_details() if self.named else self.o

  def __call__(self, **feed):
    if self.named:
      return self.s(**feed)
    for n, v in feed.items():
      self.it.resize_tensor_input(self.i[n]['index'], v.shape)
    self.it.allocate_tensors()
    for n, v in feed.items():
      self.it.set_tensor(self.i[n]['index'], v)
    self.it.invoke()
    return {n: self.it.get_tensor(d['index']) for n, d in self.o.items()}


def run(case, mon):
  import tensorflow as tf
  m, x, groups = qzoo.build(case['sp'])
  if not qzoo.valid(m):
    return mon.event('unsupported')
  names = qwatch.annotate(case, m, groups)
  used = {id(u) for l in m.layers if type(l).__name__ != 'InputLayer' for i in range(len(l._inbound_nodes)) for u in flat(l.get_input_at(i))}
  if any(id(t) not in used for t in m.inputs):
    return mon.event('unsupported')          # the converter leaves these out
  if not qwatch.supported(names, m, groups):
    return mon.event('unsupported')
  q = qwatch.quantize(m, names)
  r = np.random.RandomState(case['seed'])
  for _ in range(2):
    q(qzoo.batch(m, r), training=True)
  w = qwatch.Watch(q, m, names, mon, tolerate=True)
  g = w.g
  cats = requantizing(g, w.plan)
  moving = any(e['cls'].startswith(('AveragePooling', 'UpSampling')) for _, e in w.plan)      # one range for input and output in the converted model
  trained = case['trained'] and not moving and not (cats and not case['mixed'])
  mixed = bool(cats) and case['mixed']
  if not trained:
    set_ranges(q, r, (cats or moving) and not mixed)
  else:
    q.compile('sgd', 'mse')
    q.optimizer.learning_rate.assign(.02)
    y = [r.randn(*[6] + list(o.shape[1:])).astype('f') for o in q.outputs]
    q.fit(qzoo.batch(m, r), y if len(y) > 1 else y[0], epochs=2, verbose=0)
    q(qzoo.batch(m, r), training=True)       # the kernel ranges follow the last update
  xs = [np.asarray(v) for v in flat(x)]
  want = [np.asarray(v) for v in flat(q(x, training=False))]
  w8 = [(n, e, np.asarray(getattr(qzoo.inner(n.layer), e['weights'][0]))) for n, e in w.plan if e['weights']]
  # --- how much the model amplifies rounding
  noise = [np.zeros(y.shape) for y in want]
  acts = [v for v in q.weights if (v.name.endswith('_min:0') or v.name.endswith('_max:0')) and 'kernel' not in v.name.split('/')[-1]]
  keep = [v.numpy() for v in acts]
  for f in (.996, 1.002, 1.004, 1.008):
    for v, a in zip(acts, keep):
      v.assign(a * f)
    for n, y, o in zip(noise, want, flat(q(x, training=False))):
      np.maximum(n, np.abs(np.asarray(o) - y), out=n)
  for v, a in zip(acts, keep):
    v.assign(a)
  # --- convert
  c = tf.lite.TFLiteConverter.from_keras_model(q)
  c.optimizations = [tf.lite.Optimize.DEFAULT]
  io = case['io']
  if names is not None or case['sp']['kind'] == 'seq' or any(e['cls'] == 'Conv2DTranspose' for _, e in w.plan):
    io = 'float'                             # the converter cannot give these an integer interface
  if io != 'float':
    c.inference_input_type = c.inference_output_type = dict(int8=tf.int8, uint8=tf.uint8)[io]
  it = tf.lite.Interpreter(model_content=c.convert(), experimental_op_resolver_type=tf.lite.experimental.OpResolverType.BUILTIN_REF)
  sig = Runner(it, q)
  feed = {}
  for t, v in zip(q.inputs, xs):
    n = t.name.split(':')[0]
    d = sig.get_input_details()[n]
    if io == 'float':
      mon.check('interface', d['dtype'] is np.float32, lambda: 'input %s is %s' % (n, d['dtype']))
    else:
      s, z = d['quantization']
      mon.check('interface', d['dtype'] is getattr(np, io) and s > 0, lambda: 'input %s is %s with scale %s' % (n, d['dtype'], s))
      # the converted model's input range has to be the one the model learned
      l = [l for l in q.layers if type(l).__name__ == 'QuantizeLayer' and any(u is t for u in flat(l.input))]
      ends = [float(u.numpy()) for k in ('_min:0', '_max:0') for u in (l[0].weights if l else []) if u.name.endswith(k)]
      lo, hi = ends if len(ends) == 2 else (0., s * 255)
      len(ends) == 2 and mon.check('input-range', abs(s - (hi - lo) / 255) <= 1e-5 * s, lambda: 'input scale %g for a learned range of %g..%g' % (s, lo, hi))
      i = np.iinfo(d['dtype'])
      v = np.clip(np.round(v / s) + z, i.min, i.max)
    feed[n] = v.astype(d['dtype'])
  try:
    got = sig(**feed)
  except RuntimeError as e:
    if io == 'float':
      raise
    return mon.event('integer interface not executable')      # left by the converter's own rewriting of the interface
  floats = any(e['finding'] for _, e in w.plan)
  # --- outputs
  td = {d['index']: d for d in it.get_tensor_details()}
  ops = it._get_ops_details()
  made = {j: o for o in ops for j in o['outputs']}
  outs = []
  for n in q.output_names:
    d = sig.get_output_details()[n]
    v = got[n]
    s, z = d['quantization']
    if io != 'float':
      v = (v.astype('f') - z) * s
    src = made.get(d['index'])
    outs.append((v, s or (td[src['inputs'][0]]['quantization'][0] if src is not None and src['op_name'] == 'DEQUANTIZE' else 0)))
  for j, (y, n) in enumerate(zip(want, noise)):
    v, st = outs[j]
    if names is not None:
      st = max(2 * st, float(np.ptp(y)) / 20)       # layers outside are computed with 8-bit weights and inputs of ranges found while running
    if not mon.check('outputs', v.shape == y.shape, lambda: 'output %d has shape %s instead of %s' % (j, v.shape, y.shape)):
      continue
    e = np.abs(v - y)
    top = 2.5 * st + 4 * n.max() + 1e-4 * (1 + np.abs(y).max())
    mean = 1.0 * st + 3 * n.mean() + 1e-4 * (1 + np.abs(y).mean())
    if names is not None and floats:
      mon.event('partial with known float parts')        # kernels left as floats are computed in a way of the converter's choice
      continue
    mon.check('outputs' if names is None else 'partial', e.max() <= top and e.mean() <= mean, mechanism='concat-of-ranges' if mixed else 'float-kernel-before-relu' if floats else None, detail=lambda: 'output %d of the converted model is off by %g (mean %g); step %g, sensitivity %g (mean %g)' % (
        j, e.max(), e.mean(), st, n.max(), n.mean()))
    mon.event('output values', e.size)
    mon.event('output values off by a step', int((e > 1.01 * (st or 1)).sum()))
  # --- structure
  if names is not None:
    mon.nontrivial(str(g.signature()), 'partial')
    return
  exempt, found = False, False
  for n, e in w.plan:
    l = qzoo.inner(n.layer)
    if e['act'] in FLOAT_ACTS or (e['cls'] == 'Conv2DTranspose' and e['act'] == 'relu') or (e['cls'] == 'Activation' and qzoo.act_name(l) in FLOAT_ACTS) or any(d > 1 for d in flat(getattr(l, 'dilation_rate', 1))):
      exempt = True
    if e['cls'] == 'BatchNormalization' and any(type(qzoo.inner(p.layer)).__name__ in ('Dense', 'Conv2DTranspose') for p in g.producers(n)):        # not folded by the converter
      exempt = True
    found |= e['finding']
  if not exempt:
    bad = [o['op_name'] for o in ops if o['op_name'] not in ('QUANTIZE', 'DEQUANTIZE', 'SHAPE') and
           any(td[j]['dtype'] is np.float32 for j in list(o['inputs']) + list(o['outputs']) if j >= 0)]
    mon.check('integer-ops', not bad, lambda: 'float operators in the converted model: %s' % bad, mechanism='float-kernel-before-relu' if found else None)
    mon.event('operators', len(ops))
    kernels = []
    for o in ops:
      if o['op_name'] in ('CONV_2D', 'DEPTHWISE_CONV_2D', 'FULLY_CONNECTED', 'TRANSPOSE_CONV'):
        t = td[o['inputs'][1]]
        mon.check('kernel-types', t['dtype'] is np.int8, lambda: 'the kernel of a %s is stored as %s' % (o['op_name'], t['dtype']), mechanism='float-kernel-before-relu' if found else None)
        a = it.get_tensor(t['index']).astype('f8') if t['dtype'] is np.int8 else None
        if a is not None:
          p = t['quantization_parameters']
          s = p['scales'].astype('f8')
          shape = [1] * a.ndim
          if len(s) > 1:
            shape[p['quantized_dimension']] = len(s)
          kernels.append((o['op_name'], a * s.reshape(shape)))
    if not found:
      mon.check('kernel-types', len(kernels) == len(w8), lambda: '%d integer kernels for %d layers with kernels: %s' % (len(kernels), len(w8), [o['op_name'] for o in ops]))
      match(w8, kernels, mon)
  mon.event('graphs with known float parts', exempt)
  mon.nontrivial(str(g.signature()), io)
  mon.sample = dict(graph=g.signature(), ops=[o['op_name'] for o in ops], io=io)


def match(w8, kernels, mon):
  """Every fake-quantized kernel is one of the stored ones, up to the scaling of folded normalisations."""
  left = list(kernels)
  for n, e, u in sorted(w8, key=lambda v: v[1]['fused'] * 100 - v[2].size / 1e6):      # exact ones first
    u = u.astype('f8')
    kind = dict(Conv2D='CONV_2D', DepthwiseConv2D='DEPTHWISE_CONV_2D', Dense='FULLY_CONNECTED', Conv2DTranspose='TRANSPOSE_CONV')[e['cls']]
    want = dict(Conv2D=lambda: u.transpose(3, 0, 1, 2), DepthwiseConv2D=lambda: u.reshape(1, u.shape[0], u.shape[1], -1), Dense=lambda: u.T, Conv2DTranspose=lambda: u.transpose(2, 0, 1, 3))[e['cls']]()
    if kind == 'DEPTHWISE_CONV_2D':
      want = np.moveaxis(want, -1, 0)

    def close(k, a):
      if k == 'DEPTHWISE_CONV_2D':
        a = np.moveaxis(a, -1, 0)
      if a.size != want.size:
        return False
      a, b = a.reshape(want.shape[0], -1), want.reshape(want.shape[0], -1)
      if not e['fused']:
        return np.allclose(a, b, atol=1e-4 * max(1e-9, np.abs(b).max()))
      for p, o in zip(a, b):
        f = (p * o).sum() / max(1e-30, (o * o).sum())
        if not np.allclose(p, f * o, atol=1e-4 * max(1e-9, np.abs(p).max())):
          return False
      return True
    # the converter may change the kind of a small layer (a depthwise convolution of one channel)
    hit = [i for i, (k, a) in enumerate(left) if close(k, a)]
    mon.check('kernel-values', bool(hit), lambda: 'no stored %s kernel equals the fake-quantized kernel of %s; fused %s, %s; stored %s' % (kind, n.layer.name, e['fused'], want.ravel()[:6], [(k, a.shape, a.ravel()[:6]) for k, a in left]))
    if hit:
      left.pop(hit[0])
