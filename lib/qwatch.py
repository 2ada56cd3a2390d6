"""Watches every tensor and kernel of a quantization-aware model (see checks/c21.py)."""
import numpy as np

from lib import quant, qzoo, zoo

BITS = (8, 8)


def annotate(case, m, groups):
  """Names of the annotated layers, None for all."""
  if not case['part']:
    return None
  r = np.random.RandomState(case['seed'])
  names = []
  for g in groups:
    if r.rand() < .55:
      names += g[:r.randint(1, len(g) + 1)]
  real = {l.name for l in m.layers}
  names = [n for n in names if n in real and (type(m.get_layer(n)).__name__ not in ('InputLayer',))]
  return names or [g for g in groups if g][0][:1]


def supported(names, m, groups):
  """False for annotations that end between a layer and its normalisation."""
  return names is None or not any(qzoo.kind(m.get_layer(n)) == 'BatchNormalization' and not set(g[:g.index(n)]) <= set(names)
                                  for g in groups for n in g if n in names)


def quantize(m, names, **kw):
  from tensorflow_model_optimization.python.core.quantization.keras import quantize as Q
  if names is None and not kw:
    return Q.quantize_model(m)
  k = zoo.K()
  with Q.quantize_scope():
    a = Q.quantize_annotate_model(m) if names is None else k.models.clone_model(m, clone_function=lambda l: Q.quantize_annotate_layer(l) if l.name in names else l)
    return Q.quantize_apply(a, **kw)


def rebuild(q):
  """The same model from its configuration (which may hold the library's own lambdas)."""
  from tf_keras.src.saving import serialization_lib
  from tensorflow_model_optimization.python.core.quantization.keras import quantize as Q
  with Q.quantize_scope(), serialization_lib.SafeModeScope(False):
    return type(q).from_config(q.get_config())


class Watch:
  """Runs a quantized model and holds what the rules expect of every node."""

  def __init__(self, q, original, names, mon, bits=BITS, per_tensor=False, like=None, fix_in=None, fix_out=None, tolerate=False, masks=None):
    k = zoo.K()
    self.q, self.m, self.mon, self.bits, self.tolerate, self.masks = q, original, mon, bits, tolerate, masks or {}
    self.g, self.plan = qzoo.plan(q, original, None if names is None else set(names))
    self.outs = [t for n in self.g.nodes for t in self.g.outputs(n)]
    self.probe = k.Model(q.inputs, self.outs)
    self.refs = {}
    self.twins = {}
    for i, (n, e) in enumerate(self.plan):
      l = qzoo.inner(n.layer)
      if e['act'] == 'sep' and like is not None:
        e['act'] = like.plan[i][1]['act']
      if e['act'] == 'sep':
        e['act'] = self.sep_act(n.layer)
      if e.get('quant_act'):
        e['pre'], e['post'] = e['act'] in qzoo.PRE, e['act'] in qzoo.POST
      if e['weights']:
        kv = self.var(n.layer, e['weights'][0])
        axis = None if per_tensor else e['weights'][1]
        if kv is not None:
          ch = {'last': kv.shape[-1], 'out': kv.shape[-2], None: None}[axis]
          self.refs[i, 'w'] = quant.Ref('LastValue', bits[0], axis is not None, True, True, ch)
      if e['input']:
        self.refs[i, 'in'] = quant.Ref('AllValues', bits[1])
      for what in ('pre', 'post', 'out'):
        if e[what]:
          self.refs[i, what] = quant.Ref('MovingAverage', bits[1])
    if like is not None:
      self.refs = dict(like.refs)
    # constant ranges at the ends: fix_in and fix_out are reference quantizers, or 'none'
    ends = {id(self.g.by_tensor[o]) for o in self.g.out_ids}
    for i, (n, e) in enumerate(self.plan):
      if e['cls'] == 'QuantizeLayer' and fix_in is not None:
        e['input'] = fix_in != 'none'
        self.refs[i, 'in'] = fix_in
      if id(n) in ends and fix_out is not None:
        for what in ('pre', 'post', 'out'):
          if e[what]:
            self.refs[i, what] = fix_out

  def sep_act(self, l):
    """The activation of the separable convolution this pointwise convolution came from."""
    if not hasattr(self, 'seps'):
      self.seps = [n.layer for n in qzoo.Graph(self.m).nodes if type(n.layer).__name__.startswith('SeparableConv')]
    p = [v for v in l.weights if v.name.split('/')[-1].split(':')[0] in ('kernel', 'bias')]
    for o in self.seps:
      w = o.get_weights()[1:]
      if len(w) == len(p) and all(np.array_equal(a.ravel(), b.numpy().ravel()) for a, b in zip(w, p)):
        self.seps.remove(o)
        return qzoo.act_name(o)
    return 'linear'

  def var(self, layer, attr):
    for v in layer.weights:
      if v.name.split('/')[-1].split(':')[0] == attr:
        return v
    return None

  def float_layer(self, i, l, e):
    """An unquantized copy of the layer without its activation."""
    if i not in self.twins:
      cfg = l.get_config()
      if e['cls'] in qzoo.WEIGHTS:
        cfg['activation'] = 'linear'
      self.twins[i] = type(l).from_config(cfg)
    return self.twins[i]

  def tf_shape(self, v):
    import tensorflow as tf
    return tf.TensorShape(v.shape)

  def step(self, x, training, where):
    """One observed forward pass, judged."""
    mon, g = self.mon, self.g
    before = {}
    for i, (n, e) in enumerate(self.plan):
      if e['cls'] == 'BatchNormalization':
        before[i] = qzoo.inner(n.layer).get_weights()
    res = self.probe(x, training=training)
    res = res if isinstance(res, list) else [res]
    seen = {id(t): np.asarray(v) for t, v in zip(self.outs, res)}
    xs = x if isinstance(x, list) else [x]
    for i, (n, e) in enumerate(self.plan):
      l, k = qzoo.inner(n.layer), e['cls']
      if k == 'InputLayer':
        continue
      got = seen[id(g.outputs(n)[0])]
      args = [seen[id(t)] for t in g.inputs(n)]
      tag = lambda: '%s %s (%s%s)' % (where, n.layer.name, k, ' training' if training else '')
      arg = args if len(args) > 1 else args[0]
      mon.event('tensors')

      def fq(what, val, out, clause):
        ref = self.refs[i, what]
        if training:
          ref.train(val)
        bad = quant.bad_any(val, out, ref.lo, ref.hi, ref.bits, ref.narrow, slack=2e-3)
        return mon.check(clause, not bad, lambda: '%s: %s quantizer: %s' % (tag(), what, bad))

      def same(val, clause='untouched'):
        s = 1e-5 * max(1e-3, float(np.abs(val).max(initial=0)), max((float(np.abs(a).max(initial=0)) for a in args), default=0) if e['cls'] in qzoo.WEIGHTS else 0)
        return mon.check(clause, val.shape == got.shape and np.allclose(got, val, rtol=1e-5, atol=s), lambda: '%s: expected no quantization here; output differs from the float layer by %s' % (
            tag(), float(np.max(np.abs(got - val))) if val.shape == got.shape else (got.shape, val.shape)))

      if k == 'QuantizeLayer':
        if e['input']:
          fq('in', arg, got, 'input')
        else:
          same(arg, 'input')
        continue
      if k == 'Lambda':
        same(np.squeeze(arg, 1) if 'squeeze' in l.name else np.expand_dims(arg, 1))
        continue
      if k in ('Dropout', 'SpatialDropout1D', 'SpatialDropout2D', 'SpatialDropout3D') and training:
        keep = arg / (1 - l.rate)
        mon.check('dropout', got.shape == arg.shape and bool(np.all((got == 0) | (np.abs(got - keep) <= 1e-5 * np.abs(keep)))), lambda: '%s: neither dropped nor scaled' % tag())
        continue
      t = self.float_layer(i, l, e)
      if k in qzoo.WEIGHTS:
        attr, axis = qzoo.WEIGHTS[k]
        kv = self.var(n.layer, attr).numpy()
        if n.layer.name in self.masks:
          kv = kv * self.masks[n.layer.name]
        used = np.asarray(getattr(l, attr))
        bv = self.var(n.layer, 'bias')
        if not t.built:
          t.build(self.tf_shape(arg))
        if e['weights']:
          ref = self.refs[i, 'w']
          kk, uu = (np.swapaxes(v, -1, -2) if axis == 'out' else v for v in (kv, used))
          if e['finding'] and np.array_equal(kv, used):
            if not self.tolerate:
              mon.check('kernel', False, lambda: '%s: the kernel is not quantized' % tag(), mechanism='float-kernel-before-relu')
          else:
            if training:
              ref.train(kk)
            bad = quant.bad_any(kk, uu, ref.lo, ref.hi, self.bits[0], True)
            mon.check('kernel', not bad, lambda: '%s: kernel: %s' % (tag(), bad))
        else:
          mon.check('float-kernel', np.array_equal(kv, used), lambda: '%s: the kernel of a layer that is not quantized changed' % tag())
        if bv is not None:
          mon.check('bias', np.array_equal(bv.numpy(), np.asarray(l.bias)), lambda: '%s: the bias in use differs from the variable' % tag())
        t.set_weights([used] + ([np.asarray(bv)] if bv is not None else []))
        val = np.asarray(t(arg))
        act = zoo.K().activations.get(e['act'] if e['act'] not in (None, 'noop') else 'linear')
        if e['pre']:
          # the quantized pre-activation cannot be seen directly: accept both neighbours
          ref = self.refs[i, 'pre']
          if training:
            ref.train(val)
          self.after_pre(i, e, val, got, act, ref, training, tag)
          continue
        val = np.asarray(act(zoo.K().backend.constant(val)))
        if e['post']:
          fq('post', val, got, 'activation')
        else:
          same(val, 'activation' if e['weights'] else 'untouched')
        continue
      if k == 'BatchNormalization':
        if not t.built:
          t.build(self.tf_shape(arg))
        t.set_weights(before[i])
        val = np.asarray(t(arg, training=training))
        mon.check('statistics', all(np.allclose(p, r, rtol=1e-4, atol=1e-5) for p, r in zip(t.get_weights(), l.get_weights())), lambda: '%s: moving statistics differ from the float layer' % tag())
      else:
        if l.weights:
          if not t.built:
            t.build(self.tf_shape(arg))
          t.set_weights(l.get_weights())
        val = np.asarray(t(arg))
      if e['out']:
        fq('out', val, got, 'output')
      else:
        same(val)
    return seen

  def after_pre(self, i, e, val, got, act, ref, training, tag):
    """Outputs of activations that see a quantized input (and, for gelu, quantize their output too)."""
    mon = self.mon
    why, trained = [], False
    for scale, lo, hi in quant.params(ref.lo, ref.hi, ref.bits, ref.narrow):
      z = (np.clip(val.astype('f8'), lo, hi) - lo) / scale
      near = np.abs(z - np.floor(z) - .5) < 2e-3
      if e['act'] == 'softmax':
        rows = ~near.any(-1, keepdims=True) & np.ones_like(near)
      else:
        rows = ~near
      mid = (np.floor(z + .5) * scale + lo).astype('f')
      y = np.asarray(act(zoo.K().backend.constant(mid)))
      if e['post']:
        post = self.refs[i, 'post']
        if training and not trained:
          post.train(y)
          trained = True
        if rows.all():
          bad = quant.bad_any(y, got, post.lo, post.hi, post.bits, post.narrow, slack=2e-2)
        else:
          bad = None if y.shape == got.shape else 'shape'
      else:
        ok = y.shape == got.shape and np.allclose(y[rows], got[rows], atol=3e-5, rtol=1e-4)
        bad = None if ok else 'off the activation of the quantized input by %s' % (np.max(np.abs(y - got)) if y.shape == got.shape else (y.shape, got.shape))
      if not bad:
        return mon.check('activation', True)
      why.append(bad)
    return mon.check('activation', False, lambda: '%s: %s before %s: %s' % (tag(), 'pre-activation quantizer', e['act'], why))


def perturb(q, r, by=.2):
  for v in q.trainable_weights:
    v.assign(v.numpy() + (r.randn(*v.shape) * by).astype('f'))
