"""C31: summing partially decoded encodings equals summing decoded values."""
import numpy as np

from lib import enc

PROP = 'C31'
RULE = ('one case = one random tree of encoding stages (all shipped commuting and non-commuting stages plus four written for the monitor: linear two-way split, '
        'sign/magnitude, mean, and an adaptive stage whose decoding uses num_summands and the input shape), 1-6 clients sharing parameters, run on the core '
        'encoder eagerly, traced, traced with unknown shapes, or through GatherEncoder; non-trivial = distinct (tree kinds, commuting pattern, mode, clients)')
CLAUSES = ['sum', 'claims', 'composed', 'part-structure', 'params-split', 'shapes-split', 'gather-sum', 'gather-claims', 'shape-dtype']


def cases(rng, tier):
  out = []
  for i in range(150 if tier == 'quick' else 4000):
    rank = rng.choice([1, 1, 2, 2, 3])
    sh = [rng.choice([1, 2, 3, 5, 8, 17] if rank < 3 else [1, 2, 3, 4]) for _ in range(rank)]
    commuting = ['probe', 'probe', 'split', 'identity', 'flatten', 'mean', 'hadamard', 'ufix', 'clipv'] if rng.random() < .35 else None
    if commuting:
      commuting = [k for k in commuting]
    while True:
      nd = enc.tree(rng, rank, kinds=commuting)
      if enc.size(nd) > 1 or rng.random() < .15:
        break
    out.append(dict(nd=nd, sh=sh, dt=rng.choice(['f32', 'f32', 'f64']), n=rng.choice([1, 2, 3, 6]), up=rng.random() < .3,
                    mode=rng.choice(['eager', 'eager', 'graph', 'dynamic', 'gather', 'gather', 'gather']),
                    dist=rng.choice(['normal', 'spike', 'sparse', 'lattice', 'positive', 'const']), seed=rng.randrange(10**6), cost=1 + enc.size(nd)))
  return out


def run(case, mon):
  import tensorflow as tf
  from tensorflow_model_optimization.python.core.internal.tensor_encoding.core import core_encoder as ce, gather_encoder
  K = ce.EncoderKeys
  rs = np.random.RandomState(case['seed'])
  nd, sh, n, mode = case['nd'], tuple(case['sh']), case['n'], case['mode']
  tfdt = getattr(tf, enc.DT[case['dt']])
  e = (enc.composer_up if case['up'] else enc.composer)(nd).make()
  key = lambda st, i: st.compressible_tensors_keys[int(i)]
  pattern = []

  def fully(nd):
    return enc.commutes(nd) and all(fully(c) for c in nd['c'].values())

  def claims(nd, e, st, prev):
    cur = prev and enc.commutes(nd)
    pattern.append(int(cur))
    mon.check('claims', e.stage.commutes_with_sum == enc.commutes(nd) and e.fully_commutes_with_sum == fully(nd) and st[K.COMMUTE] == cur
              and set(st[K.CHILDREN]) == set(e.children) == {key(e.stage, i) for i in nd['c']},
              lambda: '%s commutes %s, fully %s, in tree %s' % (nd, e.stage.commutes_with_sum, e.fully_commutes_with_sum, st))
    for i, c in nd['c'].items():
      claims(c, e.children[key(e.stage, i)], st[K.CHILDREN][key(e.stage, i)], cur)
  claims(nd, e, e.commuting_structure, True)
  mon.nontrivial(str(sorted(enc.kinds_of(nd))), str(pattern), mode, n)
  for k in enc.kinds_of(nd): mon.event(k)
  mon.event('stages', enc.size(nd)); mon.event('clients', n)

  xs = [enc.values(rs, sh, case['dist']) for _ in range(n)]
  xs = [tf.constant(x, tfdt) for x in xs]
  num = lambda s: tf.nest.map_structure(lambda t: t.numpy() if hasattr(t, 'numpy') else t, s)

  def composed(e, enc_t, p, shp):
    t = {k: composed(e.children[k], v, p[K.CHILDREN][k], shp[K.CHILDREN][k]) if k in e.children else v for k, v in enc_t.items()}
    return e.stage.decode(t, p[K.PARAMS], num_summands=None, shape=shp[K.SHAPE])

  def total(parts):
    f = parts[0]
    for p in parts[1:]:
      f = tf.nest.map_structure(lambda a, b: a + b, f, p)
    return f

  # values met on the way: the scale rounding errors are relative to
  def scale_of(*structs):
    m = 1.
    for s in structs:
      for t in tf.nest.flatten(s):
        if hasattr(t, 'numpy') and (t.dtype.is_floating) and t.shape.num_elements():
          m = max(m, float(np.max(np.abs(np.asarray(t.numpy(), np.float64)))))
    return m
  eps = 3e-6 if case['dt'] == 'f32' else 1e-11

  def verdict(clause, got, dec, scale):
    want = sum(np.asarray(d.numpy(), np.float64) for d in dec)
    g = np.asarray(got.numpy(), np.float64)
    mon.check('shape-dtype', g.shape == sh and got.dtype == tfdt and all(tuple(d.shape) == sh and d.dtype == tfdt for d in dec),
              lambda: '%s %s instead of %s %s' % (g.shape, got.dtype, sh, tfdt))
    if g.shape == want.shape:
      err = np.max(np.abs(g - want)) if g.size else 0.
      mon.check(clause, np.isfinite(err) and err <= eps * scale * n * 50, lambda: 'sum of %d decoded off by %g (scale %g) for %s' % (n, err, scale, nd))

  if mode == 'gather':
    g = gather_encoder.GatherEncoder.from_encoder(e, tf.TensorSpec(sh, tfdt))
    mon.check('gather-claims', g.fully_commutes_with_sum == fully(nd), 'fully_commutes_with_sum %s for %s' % (g.fully_commutes_with_sum, nd))
    st = g.initial_state()
    ep, bp, ap = g.get_params(st)
    en = [g.encode(x, ep)[0] for x in xs]
    parts = [g.decode_before_sum(q, bp) for q in en]
    got = g.decode_after_sum(total(parts), ap, n)
    dec = [g.decode_after_sum(q, ap, 1) for q in parts]
    # the same bits decoded by the plain encoder, when nothing random happened in between
    verdict('gather-sum', got, dec, scale_of(*(xs + parts + en + dec)))
    if not enc.kinds_of(nd) & {'hadamard', 'kashin', 'uniform', 'ufix', 'prng', 'pc'}:
      ep2, dp2 = e.get_params(e.initial_state())
      ref = []
      for x in xs:
        t, _, shp = e.encode(x, ep2)
        ref.append(e.decode(t, dp2, shp))
      verdict('gather-sum', got, ref, scale_of(*(xs + parts + en + ref)))
    return

  state = e.initial_state()
  ep, dp = e.get_params(state)
  bp, ap = ce.split_params_by_commuting_structure(dp, e.commuting_structure)

  def halves(clause, nd, e, full, b, a, k, prev):
    cur = prev and enc.commutes(nd)
    blank = {q: None for q in full[k]} if isinstance(full[k], dict) else None
    wb, wa = (blank, full[k]) if cur else (full[k], blank)
    same = lambda x, y: (x is None) == (y is None) and (x is y or x is None or (isinstance(x, dict) and isinstance(y, dict) and set(x) == set(y) and all(x[q] is y[q] for q in x)))
    mon.check(clause, same(wb, b[k]) and same(wa, a[k]), lambda: '%s (commuting here: %s): %s split into %s | %s' % (nd['k'], cur, full[k], b[k], a[k]))
    for i, c in nd['c'].items():
      q = key(e.stage, i)
      halves(clause, c, e.children[q], full[K.CHILDREN][q], b[K.CHILDREN][q], a[K.CHILDREN][q], k, cur)
  halves('params-split', nd, e, dp, bp, ap, K.PARAMS, True)

  def shape_of(part, nd, e, prev=True):
    """Expected nesting of the partially decoded value."""
    if not enc.commutes(nd):
      return tf.is_tensor(part)
    if not isinstance(part, dict):
      return False
    kids = {key(e.stage, i): c for i, c in nd['c'].items()}
    return all(shape_of(v, kids[k], e.children[k]) if k in kids else tf.is_tensor(v) for k, v in part.items()) and set(kids) <= set(part)
  if mode == 'eager':
    en, shp = zip(*[(lambda r: (r[0], r[2]))(e.encode(x, ep)) for x in xs])
    bs, as_ = ce.split_shapes_by_commuting_structure(shp[0], e.commuting_structure)
    halves('shapes-split', nd, e, shp[0], bs, as_, K.SHAPE, True)
    parts = [e.decode_before_sum(t, bp, bs) for t in en]
    mon.check('part-structure', shape_of(parts[0], nd, e), lambda: 'partially decoded %s for %s' % (parts[0], nd))
    if isinstance(parts[0], dict):
      # what still has to be summed was decoded to numbers the commuting stages understand
      mon.event('partial')
    got = e.decode_after_sum(total(parts), ap, n, as_)
    dec = [e.decode(t, dp, s) for t, s in zip(en, shp)]
    for d, t, s in zip(dec, en, shp):
      c = composed(e, t, dp, s)
      mon.check('composed', np.array_equal(c.numpy(), d.numpy(), equal_nan=True), 'decode differs from the composition of its stages for %s' % nd)
    verdict('sum', got, dec, scale_of(*(xs + list(parts) + list(en) + dec)))
    return
  # rotations need a statically known last dimension (documented)
  known = mode == 'graph' or enc.kinds_of(nd) & {'hadamard', 'kashin', 'pc'}
  spec = tf.TensorSpec(sh if known else [None] * len(sh), tfdt)
  ept, dpt = [tf.nest.map_structure(lambda v: v, q) for q in (ep, dp)]

  @tf.function(input_signature=[[spec] * n])
  def f(xs):
    en, shp = zip(*[(lambda r: (r[0], r[2]))(e.encode(x, ept)) for x in xs])
    bs, as_ = ce.split_shapes_by_commuting_structure(shp[0], e.commuting_structure)
    parts = []
    for t, s in zip(en, shp):
      b, _ = ce.split_shapes_by_commuting_structure(s, e.commuting_structure)
      parts.append(e.decode_before_sum(t, bp, b))
    return e.decode_after_sum(total(parts), ap, tf.constant(n), as_), [e.decode(t, dpt, s) for t, s in zip(en, shp)], list(parts), list(en)
  got, dec, parts, en = f(xs)
  verdict('sum', got, dec, scale_of(*(list(xs) + list(parts) + list(en) + list(dec))))
