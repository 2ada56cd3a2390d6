"""C32: encoders thread state and parameters through rounds faithfully."""
import numpy as np

from lib import enc

PROP = 'C32'
RULE = ('one case = one random tree of deterministic stages (adaptive stages whose state depends on sum, minimum, maximum and stack of all client update tensors; '
        'two-output stages; shape-dependent stages) driven for 1-5 rounds with 1-4 clients through the core encoder (eager or traced), SimpleEncoder or '
        'GatherEncoder, against a NumPy model of the whole tree; or misuse of one of the interfaces; non-trivial = distinct (tree kinds, front end, rounds, clients)')
CLAUSES = ['state', 'params', 'encoded', 'decoded', 'initial', 'default-state', 'functional', 'modes', 'decode-sum', 'rejects', 'dictionaries']
KINDS = ['probe', 'probe', 'probe', 'split', 'signs', 'identity', 'flatten', 'mean', 'clipv']


def cases(rng, tier):
  out = []
  for i in range(120 if tier == 'quick' else 3500):
    rank = rng.choice([1, 1, 2, 3])
    while True:
      nd = enc.tree(rng, rank, kinds=KINDS)
      if 'probe' in enc.kinds_of(nd) and (enc.size(nd) > 1 or rng.random() < .2):
        break
    out.append(dict(nd=nd, sh=[rng.choice([1, 2, 3, 5]) for _ in range(rank)], dt=rng.choice(['f32', 'f64']), n=rng.choice([1, 2, 4]), rounds=rng.choice([1, 2, 3, 5]),
                    up=rng.random() < .3, front=rng.choice(['core', 'core', 'core-graph', 'simple', 'gather', 'gather', 'gather-graph']), reject=i % 12 == 0,
                    dist=rng.choice(['normal', 'spike', 'positive', 'negative', 'sparse']), seed=rng.randrange(10**6), cost=2 + enc.size(nd)))
  for i in range(4 if tier == 'quick' else 100):
    out.append(dict(dicts=True, seed=rng.randrange(10**6)))
  return out


def dicts(case, mon):
  """Splitting parameters into Python and TensorFlow values, and merging them again."""
  import collections
  import tensorflow as tf
  from tensorflow_model_optimization.python.core.internal.tensor_encoding.utils import py_utils as U
  r = np.random.RandomState(case['seed'])

  def make(depth):
    d = collections.OrderedDict()
    for i in range(r.randint(0 if depth < 3 else 1, 5)):
      kind = r.randint(5 if depth else 4)
      d['k%d' % i] = [lambda: float(r.randn()), lambda: tf.constant(r.randn()), lambda: np.float32(r.randn()), lambda: tf.constant(r.randn(2)), lambda: make(depth - 1)][kind]()
    return d

  def part(d, tensors):
    return {k: part(v, tensors) if isinstance(v, dict) else v for k, v in d.items() if isinstance(v, dict) or tf.is_tensor(v) == tensors}

  def same(a, b):
    return isinstance(a, dict) == isinstance(b, dict) and (a is b if not isinstance(a, dict) else set(a) == set(b) and all(same(a[k], b[k]) for k in a))

  def at(d, path):
    for p in path:
      d = d[p]
    return d

  def paths(d, path=()):
    return [path] + [q for k, v in d.items() if isinstance(v, dict) for q in paths(v, path + (k,))]

  def copy(d):
    return collections.OrderedDict((k, copy(v) if isinstance(v, dict) else v) for k, v in d.items())
  for _ in range(20):
    d = make(3)
    p, t = U.split_dict_py_tf(d)
    mon.check('dictionaries', same(p, part(d, False)) and same(t, part(d, True)), lambda: 'split of %s: %s and %s' % (d, p, t))
    for a, b in ((p, t), (t, p)):
      m = U.merge_dicts(a, b)
      mon.check('dictionaries', same(m, d), lambda: 'merging the halves of %s gives %s' % (d, m))
      where = paths(d)
      path = where[r.randint(len(where))]
      # a value in both, a dictionary in one only, a dictionary against a value
      for bad in (lambda u, v: (u.update(x=1.), v.update(x=2.)), lambda u, v: u.update(x={}), lambda u, v: v.update(x={}), lambda u, v: (u.update(x={}), v.update(x=1.)), lambda u, v: (u.update(x=1.), v.update(x={}))):
        u, v = copy(a), copy(b)
        bad(at(u, path), at(v, path))
        mon.raises('dictionaries', lambda: U.merge_dicts(u, v), ValueError, 'merging %s and %s' % (u, v))
    flat = [('/'.join(path), v) for path, v in ((q + (k,), v) for q in paths(d) for k, v in at(d, q).items()) if not isinstance(v, dict)]
    got = U.flatten_with_joined_string_paths(d)
    mon.check('dictionaries', sorted(k for k, _ in got) == sorted(k for k, _ in flat) and all(dict(flat)[k] is v for k, v in got), lambda: 'flattened %s: %s' % (d, got))
  for bad in (None, [1.], 3.):
    mon.raises('dictionaries', lambda: U.split_dict_py_tf(bad), TypeError, 'splitting %r' % (bad,))
    mon.raises('dictionaries', lambda: U.merge_dicts(bad, {}), TypeError, 'merging %r' % (bad,))
    mon.raises('dictionaries', lambda: U.merge_dicts({}, bad), TypeError, 'merging %r' % (bad,))
  mon.nontrivial('dicts', case['seed'])


class Ambiguous(Exception):
  pass


def keyname(nd, i):
  return {'probe': ['pv'], 'split': ['hi', 'a_lo'], 'signs': ['mag', 'sg'], 'identity': ['identity_values'], 'flatten': ['flattened_values'],
          'mean': ['mv'], 'clipv': [None]}[nd['k']][int(i)]


def st0(nd):
  own = dict(n=0., s=nd['s0'], lo=0., hi=0., cnt=0.) if nd['k'] == 'probe' else {}
  return dict(own=own, kids={i: st0(c) for i, c in nd['c'].items()})


def par(st):
  o = st['own']
  return (1.25 + .1 * np.tanh(o['s']) + .01 * o['n'], .3 * np.tanh(o['hi']) - .2 * np.tanh(o['lo']) + .001 * o['cnt']) if o else None


def ref_encode(nd, st, x):
  """-> (tree of encoded arrays, tree of update tensors, decoded value)."""
  k, sut = nd['k'], {}
  if k == 'probe':
    sc, off = par(st)
    kk = 2. if nd['py'] else 1.
    y = x * sc * kk + (off if (not nd['commute'] or nd['num']) else 0.)
    y = y.reshape(-1) if nd['shp'] else y
    v = x.reshape(-1)
    sut = dict(sum=v.sum(), mn=v.min(), mx=v.max(), stack=v[:2])
    outs = [y]
    back = lambda o: ((o[0] - (off if (not nd['commute'] or nd['num']) else 0.)) / (sc * kk)).reshape(x.shape)
  elif k == 'split':
    d = np.abs(x / 4. - np.round(x / 4.))
    if np.any((d < 1e-4) & (x != 0)):
      raise Ambiguous
    hi = np.floor(x / 4.)
    outs = [hi, x - 4. * hi]
    back = lambda o: 4. * o[0] + o[1]
  elif k == 'signs':
    if np.any((np.abs(x) < 1e-4) & (x != 0)):
      raise Ambiguous
    outs = [np.abs(x), np.sign(x)]
    back = lambda o: o[0] * o[1]
  elif k == 'flatten':
    outs = [x.reshape(-1)]
    back = lambda o: o[0].reshape(x.shape)
  elif k == 'mean':
    outs = [x.mean(keepdims=True)]
    back = lambda o: np.tile(o[0], x.shape)
  else:
    outs = [np.clip(x, nd['lo'], nd['hi']) if k == 'clipv' else x]
    back = lambda o: o[0]
  e, u, dec = {}, dict(own=sut, kids={}), []
  for j, o in enumerate(outs):
    c = nd['c'].get(str(j))
    if c is None:
      e[str(j)] = o
      dec.append(o)
    else:
      e[str(j)], u['kids'][str(j)], d = ref_encode(c, st['kids'][str(j)], o)
      dec.append(d)
  return e, u, back(dec)


def ref_update(nd, st, us):
  o = dict(st['own'])
  if o:
    t = [u['own'] for u in us]
    o = dict(n=o['n'] + 1, s=.5 * o['s'] + .25 * np.tanh(sum(q['sum'] for q in t) + nd['s0']), lo=min(q['mn'] for q in t), hi=max(q['mx'] for q in t),
             cnt=float(sum(q['stack'].size for q in t)))
  return dict(own=o, kids={i: ref_update(c, st['kids'][i], [u['kids'][i] for u in us]) for i, c in nd['c'].items()})


def run(case, mon):
  if case.get('dicts'):
    return dicts(case, mon)
  import tensorflow as tf
  from tensorflow_model_optimization.python.core.internal.tensor_encoding.core import core_encoder as ce, encoding_stage as E, gather_encoder, simple_encoder
  K, M = ce.EncoderKeys, E.StateAggregationMode
  rs = np.random.RandomState(case['seed'])
  nd, sh, front, n = case['nd'], tuple(case['sh']), case['front'], case['n']
  tfdt = getattr(tf, enc.DT[case['dt']])
  spec = tf.TensorSpec(sh, tfdt)
  e = (enc.composer_up if case['up'] else enc.composer)(nd).make()
  if front == 'simple':
    n = 1
  mon.event(front); mon.event('rounds', case['rounds']); mon.nontrivial(str(sorted(enc.kinds_of(nd))), enc.size(nd), front, case['rounds'], n)
  key = lambda ee, i: ee.stage.compressible_tensors_keys[int(i)]
  near = lambda a, b: np.shape(a) == np.shape(b) and bool(np.all(np.abs(np.asarray(a, np.float64) - b) <= 1e-4 * np.maximum(1., np.abs(b)) * 4))

  if case['reject']:
    return misuse(case, mon, e, nd, sh, tfdt, spec)

  def same_state(s, ref, ee, nd, where):
    own = {k: float(v) for k, v in s[K.STATE].items()}
    mon.check('initial' if where == 0 else 'state', set(own) == set(ref['own']) and all(near(own[k], ref['own'][k]) for k in own),
              lambda: 'round %s %s: state %s, expected %s' % (where, nd['k'], own, ref['own']))
    for i, c in nd['c'].items():
      same_state(s[K.CHILDREN][key(ee, i)], ref['kids'][i], ee.children[key(ee, i)], c, where)

  def flat_ref(ref):
    return sorted(list(ref['own'].values()) + [v for c in ref['kids'].values() for v in flat_ref(c)])

  def flat_state(s, ref, where):
    got = sorted(float(v) for v in s)
    want = flat_ref(ref)
    mon.check('initial' if where == 0 else 'state', len(got) == len(want) and all(near(a, b) for a, b in zip(got, want)), lambda: 'round %s: state %s, expected %s' % (where, got, want))

  def same_params(p, ref, ee, nd, r):
    want = par(ref)
    if want:
      got = {k: float(v) for k, v in p[K.PARAMS].items()}
      mon.check('params', near(got['scale'], want[0]) and near(got['off'], want[1]), lambda: 'round %d: parameters %s, expected %s' % (r, got, want))
    for i, c in nd['c'].items():
      same_params(p[K.CHILDREN][key(ee, i)], ref['kids'][i], ee.children[key(ee, i)], c, r)

  def same_encoded(t, ref, ee, nd, r):
    for i, v in ref.items():
      g = t[key(ee, i) if nd['k'] != 'signs' else ['mag', 'sg'][int(i)]]
      if isinstance(v, dict):
        same_encoded(g, v, ee.children[key(ee, i)], nd['c'][i], r)
      else:
        mon.check('encoded', near(g.numpy(), v), lambda: 'round %d %s: encoded %s, expected %s' % (r, nd['k'], g, v))

  def flat_encoded(d, ref, ee, nd, r, path=''):
    for i, v in ref.items():
      p = path + '/' + key(ee, i)
      if isinstance(v, dict):
        flat_encoded(d, v, ee.children[key(ee, i)], nd['c'][i], r, p)
      else:
        hit = [q for q in d if str(q).endswith(p)]
        if len(hit) > 1:
          hit = [min(hit, key=len)]
        mon.check('encoded', len(hit) == 1 and near(d[hit[0]].numpy(), v), lambda: 'round %d %s: encoded %s, expected %s' % (r, p, {str(q): w.numpy() for q, w in d.items()}, v))

  ref = st0(nd)
  xs_all = [[rs.permutation(enc.values(rs, sh, case['dist']).ravel()).reshape(sh) for _ in range(n)] for _ in range(case['rounds'])]
  cast = lambda x: tf.constant(x, tfdt)
  agg1 = lambda m, ts: {M.SUM: lambda: tf.add_n(ts), M.MIN: lambda: tf.reduce_min(tf.stack(ts), 0), M.MAX: lambda: tf.reduce_max(tf.stack(ts), 0), M.STACK: lambda: tf.stack(ts)}[m]()
  graph = tf.function if front.endswith('graph') else (lambda f: f)

  def check_modes(m, ee, nd):
    want = dict(z_sum=M.SUM, a_min=M.MIN, m_max=M.MAX, k_stack=M.STACK) if nd['k'] == 'probe' else {}
    mon.check('modes', dict(m[K.TENSORS]) == want and set(m[K.CHILDREN]) == set(ee.children), lambda: 'aggregation modes %s of %s' % (m, nd['k']))
    for i, c in nd['c'].items():
      check_modes(m[K.CHILDREN][key(ee, i)], ee.children[key(ee, i)], c)
  try:
    if front.startswith('core'):
      modes = e.state_update_aggregation_modes
      check_modes(modes, e, nd)
      state = e.initial_state()
      same_state(state, ref, e, nd, 0)
      for r, xs in enumerate(xs_all):
        want = [ref_encode(nd, ref, x) for x in xs]
        shapes = []

        def f(state, xs):
          ep, dp = e.get_params(state)
          res = [e.encode(x, ep) for x in xs]
          shapes[:] = [q[2] for q in res]
          suts = [tf.nest.flatten(q[1]) for q in res]
          agg = tf.nest.pack_sequence_as(res[0][1], [agg1(m, list(t)) for m, t in zip(tf.nest.flatten(modes), zip(*suts))])
          return ep, [q[0] for q in res], [e.decode(q[0], dp, q[2]) for q in res], e.update_state(state, agg)
        before = [float(v) for v in tf.nest.flatten(state)]
        ep, ens, decs, nxt = graph(f)(state, [cast(x) for x in xs])
        same_params(ep, ref, e, nd, r)
        for t, d, w in zip(ens, decs, want):
          same_encoded(t, w[0], e, nd, r)
          mon.check('decoded', near(d.numpy(), w[2]) and d.dtype == tfdt, lambda: 'round %d: decoded %s, expected %s' % (r, d, w[2]))
        mon.check('functional', before == [float(v) for v in tf.nest.flatten(state)], 'the state passed in changed')
        tf.nest.assert_same_structure(state, nxt)
        ref = ref_update(nd, ref, [w[1] for w in want])
        state = nxt
        same_state(state, ref, e, nd, r + 1)
    elif front == 'simple':
      s = simple_encoder.SimpleEncoder(e, spec)
      simple_encoder.SimpleEncoder(e, tf.TensorSpec(sh + (2,), tfdt))  # an encoder can serve several front ends
      state = s.initial_state()
      flat_state(state, ref, 0)
      for r, (x,) in enumerate(xs_all):
        w = ref_encode(nd, ref, x)
        d, nxt = s.encode(cast(x), state)
        flat_encoded(d, w[0], e, nd, r)
        y = s.decode(d)
        mon.check('decoded', near(y.numpy(), w[2]) and y.dtype == tfdt, lambda: 'round %d: decoded %s, expected %s' % (r, y, w[2]))
        w0 = ref_encode(nd, st0(nd), x)
        d0, n0 = s.encode(cast(x))
        flat_state(n0, ref_update(nd, st0(nd), [w0[1]]), r + 1)
        mon.check('default-state', near(s.decode(d0).numpy(), w0[2]), 'encoding without a state')
        flat_encoded(d0, w0[0], e, nd, r)
        ref, state = ref_update(nd, ref, [w[1]]), nxt
        flat_state(state, ref, r + 1)
    else:
      g = gather_encoder.GatherEncoder.from_encoder(e, spec)
      gather_encoder.GatherEncoder.from_encoder(e, tf.TensorSpec(sh + (2,), tfdt))
      state = g.initial_state()
      flat_state(state, ref, 0)
      a, b = [[v.numpy() for q in g.get_params(*z) for v in q] for z in ((), (state,))]
      mon.check('default-state', all(near(p, q) for p, q in zip(a, b)) and len(a) == len(b), 'parameters without a state %s, with the initial one %s' % (a, b))
      modes = g.state_update_aggregation_modes
      mon.check('modes', sorted(str(m) for m in modes) == sorted(str(m) for m in [M.SUM, M.MIN, M.MAX, M.STACK] * count(nd)), 'modes %s' % (modes,))
      for r, xs in enumerate(xs_all):
        want = [ref_encode(nd, ref, x) for x in xs]
        ep, bp, ap = graph(g.get_params)(state)
        res = [graph(g.encode)(cast(x), ep) for x in xs]
        parts = [graph(g.decode_before_sum)(q[0], bp) for q in res]
        for q, p, w in zip(res, parts, want):
          flat_encoded(q[0], w[0], e, nd, r)
          y = graph(g.decode_after_sum)(p, ap, 1)
          mon.check('decoded', near(y.numpy(), w[2]) and y.dtype == tfdt, lambda: 'round %d: decoded %s, expected %s' % (r, y, w[2]))
        tot = parts[0]
        for p in parts[1:]:
          tot = tf.nest.map_structure(lambda a, b: a + b, tot, p)
        y = graph(g.decode_after_sum)(tot, ap, tf.constant(n)).numpy()
        wsum = sum(w[2] for w in want)
        mon.check('decode-sum', near(y, wsum), lambda: 'round %d: decoded sum %s, expected %s' % (r, y, wsum))
        agg = tuple(agg1(m, list(t)) for m, t in zip(modes, zip(*[q[1] for q in res])))
        before = [float(v) for v in state]
        nxt = graph(g.update_state)(state, agg)
        mon.check('functional', before == [float(v) for v in state] and len(nxt) == len(state), 'the state passed in changed')
        ref, state = ref_update(nd, ref, [w[1] for w in want]), nxt
        flat_state(state, ref, r + 1)
  except Ambiguous:
    mon.event('ambiguous')


def count(nd):
  return (nd['k'] == 'probe') + sum(count(c) for c in nd['c'].values())


def misuse(case, mon, e, nd, sh, tfdt, spec):
  import tensorflow as tf
  from tensorflow_model_optimization.python.core.internal.tensor_encoding.core import core_encoder as ce, encoding_stage as E, gather_encoder, simple_encoder
  G, S = gather_encoder.GatherEncoder.from_encoder, simple_encoder.SimpleEncoder
  TV = (TypeError, ValueError)
  for make, what in ((G, 'gather'), (S, 'simple')):
    mon.raises('rejects', lambda: make(nd, spec), TypeError, '%s encoder from a dict' % what)
    mon.raises('rejects', lambda: make(e.stage, spec), TypeError, '%s encoder from a stage' % what)
    mon.raises('rejects', lambda: make(e, sh), TypeError, '%s encoder with a tuple for a tensorspec' % what)
    mon.raises('rejects', lambda: make(e, tf.TensorSpec([None] + list(sh)[1:], tfdt)), TypeError, '%s encoder with unknown shape' % what)
  other = tf.float64 if tfdt == tf.float32 else tf.float32
  x = tf.ones(sh, tfdt)
  bad = [tf.ones(sh + (1,), tfdt), tf.ones((sh[0] + 1,) + sh[1:], tfdt), tf.ones(sh, other), tf.ones(sh, tf.int32)]
  s = S(e, spec)
  for b in bad:
    mon.raises('rejects', lambda: s.encode(b), TV, 'simple encoder given %s %s instead of %s' % (b.shape, b.dtype, spec))
  st = s.initial_state()
  mon.raises('rejects', lambda: s.encode(x, st[:-1]), TV, 'simple encoder given a shorter state')
  mon.raises('rejects', lambda: s.encode(x, st + (tf.constant(0.),)), TV, 'simple encoder given a longer state')
  d, _ = s.encode(x)
  k = list(d)[0]
  mon.raises('rejects', lambda: s.decode({q: v for q, v in d.items() if q != k}), TV + (KeyError,), 'simple decode of a dictionary without %s' % k)
  g = G(e, spec)
  ep, bp, ap = g.get_params()
  for b in bad:
    mon.raises('rejects', lambda: g.encode(b, ep), TV, 'gather encoder given %s %s instead of %s' % (b.shape, b.dtype, spec))
  st = g.initial_state()
  mon.raises('rejects', lambda: g.get_params(st[:-1]), TV, 'a shorter state')
  mon.raises('rejects', lambda: g.encode(x, ep[:-1]), TV, 'fewer parameters')
  mon.raises('rejects', lambda: g.encode(x, ep[:-1] + (tf.zeros([7, 7]),)), TV, 'parameters of another shape')
  en, sut = g.encode(x, ep)
  k = list(en)[-1]
  mon.raises('rejects', lambda: g.decode_before_sum({q: v for q, v in en.items() if q != k}, bp), TV, 'encoded values without %s' % k)
  mon.raises('rejects', lambda: g.decode_before_sum(en, bp + (tf.constant(1.),)), TV, 'surplus parameters')
  part = g.decode_before_sum(en, bp)
  mon.raises('rejects', lambda: g.decode_after_sum(part, ap + (tf.constant(1.),), 1), TV, 'surplus parameters')
  mon.raises('rejects', lambda: g.update_state(st, sut[:-1]), TV, 'fewer update tensors')
  mon.raises('rejects', lambda: g.update_state(st[:-1], sut), TV, 'a shorter state')
  c = ce.EncoderComposer(enc.stage(dict(k='split', c={})))
  mon.raises('rejects', lambda: ce.EncoderComposer(e), TypeError, 'composer of an encoder')
  mon.raises('rejects', lambda: c.add_child(enc.stage(dict(k='mean', c={})), 'nope'), KeyError, 'unknown key')
  c.add_child(enc.stage(dict(k='mean', c={})), 'hi')
  mon.raises('rejects', lambda: c.add_child(enc.stage(dict(k='mean', c={})), 'hi'), KeyError, 'key used twice')
  mon.raises('rejects', lambda: c.add_parent(enc.stage(dict(k='mean', c={})), 'hi'), KeyError, 'unknown parent key')
  mon.raises('rejects', lambda: E.as_adaptive_encoding_stage(e), TypeError, 'adapting an encoder')
