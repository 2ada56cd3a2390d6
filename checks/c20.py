"""C20: the graph rewriting engine replaces exactly the matched patterns.

The transforms are the monitor: every `replacement` call is an observed rewriting step. The
monitor keeps its own picture of the graph (from the generator, not from Keras), holds each step
against the matching rules (pattern, candidates, reuse, single use of inner layers, order of
inputs, the weights and metadata handed over), applies the replacement to its picture, and at the
end demands that no rule applies any more and that the returned model is exactly the picture:
layers, configurations, connections with tensor index and call arguments, inputs, outputs,
weights and metadata."""
import collections
import copy
import re

import numpy as np

from lib import zoo

PROP = 'C20'
RULE = ('one case = a random functional or sequential model (branches, repeated inputs, shared layers, multi-tensor operations, call arguments) and 1 to 4 random tree patterns with '
        'replacements that rename, retag, reweight, reconfigure, insert or merge layers; non-trivial = distinct sequences of rewriting steps')
CLAUSES = ['step', 'complete', 'layers', 'connections', 'weights', 'metadata', 'ends', 'function', 'untouched', 'node']

LIMIT = 2          # how often the name of a layer may grow


# --- random models ---------------------------------------------------------

def cases(rng, tier):
  out = []
  for i in range(150 if tier == 'quick' else 6000):
    out.append(dict(seq=i % 4 == 0, size=rng.randrange(2, 9 if tier == 'quick' else 14), n_in=rng.choice([1, 1, 2]), n_out=rng.choice([1, 1, 2, 3]), rules=rng.randrange(1, 5),
                    cand=rng.choice(['all', 'none', 'some', 'some', 'empty'] if i % 10 == 0 else ['all', 'some', 'all']), seed=rng.randrange(10**8)))
  return out


def node(name, cls, cfg, inputs, kwargs=None):
  return dict(name=name, cls=cls, cfg=cfg, inputs=inputs, kwargs=kwargs or {}, weights=None, meta={}, uses=1)


def leaf_cfg(r, cls):
  return {'Dense': lambda: dict(units=4, activation=['relu', 'linear', 'linear', 'tanh'][r.randint(4)], use_bias=bool(r.rand() < .7)),
          'ReLU': lambda: dict(max_value=[None, 6.0][r.randint(2)]),
          'Activation': lambda: dict(activation=['relu', 'tanh'][r.randint(2)]),
          'BatchNormalization': lambda: dict(momentum=.9),
          'Dropout': lambda: dict(rate=.5)}[cls]()


def generate(case):
  """A list of nodes in build order; inputs are (name, tensor index)."""
  r = np.random.RandomState(case['seed'])
  nodes, n = [], [0]

  def add(cls, cfg, inputs, kwargs=None):
    n[0] += 1
    name = '%s_%d' % ({'InputLayer': 'in', 'BatchNormalization': 'bn'}.get(cls, cls.lower()), n[0])
    nodes.append(node(name, cls, cfg, inputs, kwargs))
    return (name, 0)
  simple = ['Dense', 'Dense', 'ReLU', 'Activation', 'BatchNormalization', 'Dropout']
  if case['seq']:
    live = add('InputLayer', {}, [])
    for _ in range(case['size']):
      cls = simple[r.randint(6)]
      live = add(cls, leaf_cfg(r, cls), [live])
    return nodes, [live]
  ins = [add('InputLayer', {}, []) for _ in range(case['n_in'])]
  live = list(ins)
  pick = lambda: live[r.randint(len(live))] if r.rand() < .45 else live[-1]
  for _ in range(case['size']):
    what = r.rand()
    if what < .55:
      cls = simple[r.randint(6)]
      a = pick()
      kw = dict(training=[False, False][r.randint(2)]) if cls in ('BatchNormalization', 'Dropout') and r.rand() < .4 else None
      live.append(add(cls, leaf_cfg(r, cls), [a], kw))
    elif what < .8:
      cls = ['Add', 'Concatenate'][r.randint(2)]
      k = r.randint(2, 4)
      t = [pick() if r.rand() < .6 else add('Dense', leaf_cfg(r, 'Dense'), [pick()]) for _ in range(k)]
      r.shuffle(t)
      t = [tuple([v[0], int(v[1])]) for v in t]
      y = add(cls, {}, t)
      if cls == 'Concatenate':
        y = add('Dense', leaf_cfg(r, 'Dense'), [y])
      live.append(y)
    elif what < .9:
      # one layer applied twice
      a, b = pick(), pick()
      y = add('Dense', leaf_cfg(r, 'Dense'), [a])
      nodes[-1]['uses'] = 2
      nodes[-1]['second'] = b
      live.append(add('Add', {}, [y, (y[0], 'second')]))
    else:
      # an operation with two tensors
      y = add('Split', {}, [pick()])
      c = add('Concatenate', {}, [(y[0], 1), (y[0], 0)] if r.rand() < .5 else [(y[0], 1), pick()])
      live.append(add('Dense', leaf_cfg(r, 'Dense'), [c]))
  outs = [live[-1]]
  for _ in range(case['n_out'] - 1):
    o = pick()
    if (o not in outs or r.rand() < .5) and not o[0].startswith('in'):
      outs.append(o)                     # at times the same tensor twice
  if len(outs) > 1 and r.rand() < .25:
    outs.append(outs[0])
  # keep what the outputs need
  need, todo = set(), [o[0] for o in outs]
  by = {v['name']: v for v in nodes}
  while todo:
    v = by[todo.pop()]
    if v['name'] not in need:
      need.add(v['name'])
      todo += [t[0] for t in v['inputs']] + ([v['second'][0]] if 'second' in v else [])
  need |= {t[0] for t in ins}
  return [v for v in nodes if v['name'] in need], outs


def make(case):
  import tensorflow as tf
  k = zoo.K(); L = k.layers
  nodes, outs = generate(case)

  class Split(L.Layer):
    def call(self, x):
      return tf.split(x, 2, -1)
  case['custom'] = {'Split': Split}
  build = lambda v: (Split if v['cls'] == 'Split' else getattr(L, v['cls']))(name=v['name'], **v['cfg'])
  if case['seq']:
    m = k.Sequential([L.InputLayer((4,), name=nodes[0]['name'])] + [build(v) for v in nodes[1:]])
  else:
    t = {}
    for v in nodes:
      if v['cls'] == 'InputLayer':
        t[v['name'], 0] = k.Input((4,), name=v['name'])
        continue
      l = build(v)
      args = [t[i] for i in v['inputs']]
      y = l(args if len(args) > 1 else args[0], **v['kwargs'])
      for i, o in enumerate(y if isinstance(y, list) else [y]):
        t[v['name'], i] = o
      if 'second' in v:
        t[v['name'], 'second'] = l(t[v['second']])
    ys = [t[o] for o in outs]
    m = k.Model([t[v['name'], 0] for v in nodes if v['cls'] == 'InputLayer'], ys if len(ys) > 1 else ys[0])
  r = np.random.RandomState(case['seed'] + 1)
  m.set_weights([(np.abs(r.randn(*w.shape)) + .3 if 'variance' in w.name else r.randn(*w.shape)).astype('f') for w in m.weights])
  g = collections.OrderedDict((v['name'], v) for v in nodes)
  for name, v in g.items():
    if case['seq'] and v['cls'] == 'InputLayer':
      continue
    l = m.get_layer(name)
    v['weights'] = collections.OrderedDict((w.name.split('/')[-1], w.numpy()) for w in l.weights)
  return m, g, outs


# --- patterns --------------------------------------------------------------

def patterns(case, r, g):
  """Random patterns [class regex, config, inputs]; the first names are drawn from what is common."""
  cls = ['Dense', 'ReLU', 'Activation', 'BatchNormalization', 'ReLU|Activation', 'Dense|Dropout', '.*', 'Drop.*', 'Dense|BatchNormalization|ReLU', 'Dens', 'InputLayer', 'Batch', 'Split']

  def leaf(depth):
    c = cls[r.randint(len(cls))]
    cfg = {}
    if r.rand() < .3:
      cfg = [{'activation': 'relu'}, {'units': 4}, {'max_value': 6.0}, {'name': '(dense|relu)_[0-4].*'}, {'activation': 'linear|tanh'}, {'use_bias': True, 'units': '4'}][r.randint(6)]
    kids = [leaf(depth - 1)] if depth and r.rand() < .7 else []
    return [c, cfg, kids]

  def like(name, depth):
    # a pattern found in the graph, blurred
    v = g[name]
    c = [v['cls'], v['cls'], v['cls'] + '|ReLU', '.*', v['cls'][:3] + '.*'][r.randint(5)]
    cfg = {}
    if r.rand() < .3 and v['cfg']:
      key = sorted(v['cfg'])[r.randint(len(v['cfg']))]
      cfg = {key: v['cfg'][key] if r.rand() < .8 else '.*a.*'}
    kids = [like(t[0], depth - 1) for t in v['inputs']] if depth and r.rand() < .9 else []
    return [c, cfg, kids]
  if r.rand() < .7:
    inner = [n for n in g if g[n]['inputs']]
    if inner:
      return like(inner[r.randint(len(inner))], r.randint(4))
  if r.rand() < .25 and not case['seq']:
    return [['Add', 'Concatenate', 'Add|Concatenate'][r.randint(3)], {}, [leaf(r.randint(2)) for _ in range(r.randint(1, 4))]]
  return leaf(r.randint(3))


KINDS = ['same', 'tag', 'rename', 'after', 'before', 'merge', 'weights', 'config', 'rename', 'after', 'merge']


class Engine:
  """The monitor's picture of the graph and the rules."""

  def __init__(self, case, g, outs, cand, mon):
    self.case, self.g, self.outs, self.cand, self.mon = case, g, [list(o) for o in outs], None if cand is None else set(cand), mon
    self.done = collections.defaultdict(set)
    self.steps, self.ever = [], set()

  def connections(self, v):
    return [t for t in v['inputs']] + ([v['second']] if 'second' in v else [])

  def uses(self, name):
    return sum(t[0] == name for v in self.g.values() for t in self.connections(v)) + sum(o[0] == name for o in self.outs)

  def legal(self, name, p, head=True):
    """The matched tree [name, children] or None."""
    v = self.g[name]
    if self.cand is not None and name not in self.cand:
      return None
    if not re.fullmatch(p[0], v['cls']):
      return None
    full = dict(v['cfg'], name=name)
    for key, want in p[1].items():
      have = full.get(key)
      if not (have == want or re.fullmatch(str(want), str(have))):
        return None
    if not self.case['seq']:
      if v['uses'] > 1 or (not head and self.uses(name) != 1):
        return None
    if not p[2]:
      return [name, []]
    feeds = [t[0] for t in v['inputs']]
    if len(feeds) != len(p[2]) or len(set(feeds)) != len(feeds):
      return None
    kids = [self.legal(f, q, False) for f, q in zip(feeds, p[2])]
    return None if None in kids else [name, kids]

  def width(self, name, index=0):
    v = self.g[name]
    ws = [self.width(*t) for t in v['inputs']]
    return {'Dense': 4, 'InputLayer': 4, 'Split': ws and ws[0] // 2, 'Concatenate': sum(ws)}.get(v['cls'], ws and ws[0])

  def check_node(self, n, tree, where):
    mon, v = self.mon, self.g[tree[0]]
    cfg = n.layer['config']
    mon.check('node', n.layer['class_name'].split('>')[-1] == v['cls'] and all(cfg.get(a) == b for a, b in v['cfg'].items()), lambda: '%s: %s was handed over as %s %s' % (where, v['name'], n.layer['class_name'], cfg))
    w = v['weights'] or {}
    mon.check('node', list(n.weights) == list(w) and all(np.array_equal(a, w[b]) for b, a in n.weights.items()), lambda: '%s: %s came with other weights' % (where, v['name']))
    mon.check('node', n.metadata == v['meta'], lambda: '%s: %s came with metadata %s instead of %s' % (where, v['name'], n.metadata, v['meta']))
    mon.check('node', len(n.input_layers) == len(tree[1]), lambda: '%s: %s has %d inputs' % (where, v['name'], len(n.input_layers)))
    for a, b in zip(n.input_layers, tree[1]):
      self.check_node(a, b, where)

  def names(self, n):
    return [n.layer['config']['name'], [self.names(i) for i in n.input_layers]]


def transform_class(index, pattern, kind, eng):
  import tensorflow_model_optimization.python.core.quantization.keras.graph_transformations.transforms as T
  k = zoo.K()

  def to_pattern(p):
    return T.LayerPattern(p[0], dict(p[1]), [to_pattern(q) for q in p[2]])

  def fresh(cls, cfg, name, inputs, weights=None, meta=None):
    l = getattr(k.layers, cls)(name=name, **cfg)
    from tensorflow_model_optimization.python.core.quantization.keras import utils
    c = utils.serialize_layer(l, use_legacy_format=True)
    c['name'] = name
    return T.LayerNode(c, weights, inputs, meta)

  def replacement(self, match):
    g, mon = eng.g, eng.mon
    got = eng.names(match)
    head = got[0]
    where = 'rule %d (%s %s) at %s' % (index, kind, pattern, head)
    known = head in g
    tree = eng.legal(head, pattern) if known else None
    mon.check('step', known and tree == got and head not in eng.done[index], lambda: '%s: matched %s, legal would be %s%s' % (where, got, tree, ', again' if head in eng.done[index] else ''))
    if not known or tree != got:
      return match
    eng.done[index].add(head)
    eng.check_node(match, tree, where)
    flat = lambda t: [t[0]] + [n for c in t[1] for n in flat(c)]
    chain = all(len(n) < 2 for n in [tree[1]] + [c[1] for c in tree[1]])
    v = g[head]
    leaf, leaf_node = tree, match
    while leaf[1]:
      leaf, leaf_node = leaf[1][0], leaf_node.input_layers[0]
    kd = kind
    grown = head.count('_r') + head.count('_a') + head.count('_b')
    if kd == 'rename' and (grown >= LIMIT or v['cls'] in ('InputLayer',)): kd = 'same'
    if kd == 'after' and (grown >= LIMIT or v['cls'] == 'Split' or (eng.case['seq'] and v['cls'] == 'InputLayer')): kd = 'same'
    if kd == 'before' and (not chain or len(g[leaf[0]]['inputs']) != 1 or grown + leaf[0].count('_b') >= LIMIT): kd = 'same'
    if kd == 'merge' and (not chain or v['cls'] in ('InputLayer', 'Split', 'Add', 'Concatenate') or any(g[n]['cls'] in ('InputLayer', 'Split', 'Add', 'Concatenate') for n in flat(tree))
                          or eng.width(*g[leaf[0]]['inputs'][0]) != 4 or eng.width(head) != 4 or grown >= LIMIT): kd = 'same'
    if kd == 'weights' and not v['weights']: kd = 'tag'
    if kd == 'config' and v['cls'] not in ('Dense', 'Activation'): kd = 'tag'
    grows = {'rename': head + '_r', 'after': head + '_a', 'merge': head + '_a', 'before': leaf[0] + '_b'}.get(kd)
    if grows and grows in eng.ever:
      kd = 'same'
    eng.ever.add(grows)
    eng.steps.append((index, kd, head))
    if kd == 'same':
      return match
    if kd == 'tag':
      match.metadata['tag'] = match.metadata.get('tag', ()) + (index,)
      v['meta'] = dict(v['meta'], tag=v['meta'].get('tag', ()) + (index,))
      return match
    if kd == 'weights':
      new = collections.OrderedDict((a, b * 2) for a, b in match.weights.items())
      match.weights = new
      v['weights'] = collections.OrderedDict((a, b * 2) for a, b in v['weights'].items())
      return match
    if kd == 'config':
      match.layer['config']['activation'] = 'sigmoid'
      v['cfg'] = dict(v['cfg'], activation='sigmoid')
      return match

    def redirect(old, new):
      for u in g.values():
        if u['name'] != new:
          u['inputs'] = [(new, t[1]) if t[0] == old else t for t in u['inputs']]
          if 'second' in u and u['second'][0] == old:
            u['second'] = (new, u['second'][1])
      for o in eng.outs:
        if o[0] == old:
          o[0] = new
    if kd == 'rename':
      new = head + '_r'
      match.layer['config']['name'] = new
      match.layer['name'] = new
      redirect(head, new)
      g.pop(head)
      g[new] = dict(v, name=new)
      added = [new]
    elif kd == 'after':
      new = head + '_a'
      cls, cfg = [('Activation', {'activation': 'relu'}), ('Dense', dict(units=4, activation='linear', use_bias=True)), ('BatchNormalization', {'momentum': .9})][index % 3]
      if eng.width(head) != 4:
        cls, cfg = 'Activation', {'activation': 'relu'}
      meta = {'born': index}
      # the new layer's weights are left to its initializers
      g[new] = node(new, cls, cfg, [])
      redirect(head, new)
      g[new]['inputs'] = [(head, 0)]
      g[new]['meta'] = dict(meta)
      match = fresh(cls, cfg, new, [match], meta=meta)
      added = [new]
    elif kd == 'before':
      new = leaf[0] + '_b'
      cls, cfg = [('Activation', {'activation': 'tanh'}), ('ReLU', {'max_value': 6.0})][index % 2]
      leaf_node.input_layers = [fresh(cls, cfg, new, [], meta={'born': index})]
      g[new] = node(new, cls, cfg, list(g[leaf[0]]['inputs']))
      g[new]['meta'] = {'born': index}
      g[leaf[0]]['inputs'] = [(new, 0)]
      added = [new]
    else:
      new = head + '_a'
      w = collections.OrderedDict([('kernel:0', np.full((4, 4), .1 * (index + 1), 'f')), ('bias:0', np.arange(4).astype('f'))])
      g[new] = node(new, 'Dense', dict(units=4, activation='linear', use_bias=True), [])
      redirect(head, new)
      g[new]['inputs'] = list(g[leaf[0]]['inputs'])
      g[new]['weights'] = collections.OrderedDict(w)
      for n in flat(tree):
        g.pop(n)
      match = fresh('Dense', g[new]['cfg'], new, [], weights=w)
      added = [new]
    if eng.cand is not None:
      eng.cand |= set(added)
    return match
  return type('Rule%d' % index, (T.Transform,), dict(pattern=lambda self: to_pattern(pattern), replacement=replacement, custom_objects=lambda self: dict(eng.case['custom'])))


# --- the case --------------------------------------------------------------

def extract(m, seq):
  """Connections of the built model: name -> list of calls [(inputs), kwargs]."""
  calls = collections.OrderedDict()
  if seq:
    prev = m._input_layers[0].name if hasattr(m, '_input_layers') and m._input_layers else None
    calls[m.inputs[0]._keras_history.layer.name] = []
    prev = m.inputs[0]._keras_history.layer.name
    for l in m.layers:
      calls[l.name] = [([(prev, 0)], {})]
      prev = l.name
    return calls, [(prev, 0)]
  live = {id(n) for ns in m._nodes_by_depth.values() for n in ns}
  for l in m.layers:
    calls[l.name] = []
    for n in l._inbound_nodes:
      if id(n) in live and not n.is_input:
        hs = [t._keras_history for t in n.keras_inputs]
        kw = {a: b for a, b in n.call_kwargs.items() if b is not None and not (a == 'mask')}
        calls[l.name].append(([(h.layer.name, h.node_index if h.layer.name in multi(m) and h.node_index else h.tensor_index) for h in hs], kw))
  return calls, [(t._keras_history.layer.name, t._keras_history.node_index or t._keras_history.tensor_index) for t in m.outputs]


def multi(m):
  return {l.name for l in m.layers if len(l._inbound_nodes) > 1}


def run(case, mon):
  from tensorflow_model_optimization.python.core.quantization.keras.graph_transformations import model_transformer as MT
  case = dict(case)
  m, g, outs = make(case)
  r = np.random.RandomState(case['seed'] + 2)
  names = list(g)
  cand = {'all': None, 'none': None, 'empty': set(), 'some': {n for n in names if r.rand() < .7}}[case['cand']]
  if case['cand'] == 'all' and r.rand() < .5:
    cand = set(names)
  meta = {n: {'was': n} for n in names if r.rand() < .6}
  for n, v in meta.items():
    g[n]['meta'] = dict(v)
  eng = Engine(case, g, outs, cand, mon)
  rules = [(patterns(case, r, g), KINDS[r.randint(len(KINDS))]) for _ in range(case['rules'])]
  objs = [transform_class(i, p, kd, eng)() for i, (p, kd) in enumerate(rules)]
  given = (None if cand is None else set(cand), copy.deepcopy(meta), [w.copy() for w in m.get_weights()], [l.name for l in m.layers])
  k = zoo.K()
  with k.utils.custom_object_scope(case['custom']):
    x = [np.random.RandomState(i).randn(5, 4).astype('f') for i in range(len(m.inputs))]
    y0 = [np.asarray(v) for v in zoo_flat(m(x if len(x) > 1 else x[0], training=False))]
    out, meta_out = MT.ModelTransformer(m, objs, cand, meta).transform()

  for i, (p, kd) in enumerate(rules):
    for n in list(g):
      t = eng.legal(n, p)
      mon.check('complete', t is None or n in eng.done[i], lambda: 'rule %d %s still applies to %s (%s) after steps %s' % (i, p, n, t, eng.steps))
  calls, ends = extract(out, case['seq'])
  want = {n for n in g}
  have = set(calls)
  mon.check('layers', want == have, lambda: 'layers missing %s, unexpected %s after %s' % (want - have, have - want, eng.steps))
  if want != have:
    return
  for n, v in g.items():
    l = next((l for l in out.layers if l.name == n), None)
    if l is not None:
      cfg = l.get_config()
      mon.check('layers', type(l).__name__ == v['cls'] and all(cfg.get(a) == b for a, b in v['cfg'].items()), lambda: '%s became %s %s instead of %s %s' % (n, type(l).__name__, cfg, v['cls'], v['cfg']))
      if v['weights'] is not None:
        w = [q.numpy() for q in l.weights]
        mon.check('weights', len(w) == len(v['weights']) and all(np.array_equal(a, b) for a, b in zip(w, v['weights'].values())), lambda: 'weights of %s changed' % n)
    due = [([tuple(t) for t in v['inputs']], v['kwargs'])] if v['inputs'] else []
    if 'second' in v:
      due.append(([tuple(v['second'])], {}))
    norm = lambda cs: [([(a, 1 if b == 'second' else b) for a, b in i], kw) for i, kw in cs]
    mon.check('connections', norm(calls[n]) == norm(due), lambda: '%s is called with %s instead of %s after %s' % (n, calls[n], due, eng.steps))
    mon.check('metadata', meta_out.get(n, {}) == v['meta'], lambda: 'metadata of %s is %s instead of %s' % (n, meta_out.get(n), v['meta']))
  mon.check('metadata', set(meta_out) <= want, lambda: 'metadata for layers that are gone: %s' % (set(meta_out) - want))
  mon.check('ends', [(a, 1 if b == 'second' else b) for a, b in eng.outs] == [tuple(e) for e in ends] and len(out.inputs) == len(m.inputs) and
            [t.name for t in out.inputs] == [t.name for t in m.inputs], lambda: 'outputs %s instead of %s; inputs %s' % (ends, eng.outs, [t.name for t in out.inputs]))
  if all(kd in ('same', 'tag', 'rename') for _, kd, _ in eng.steps):
    y1 = [np.asarray(v) for v in zoo_flat(out(x if len(x) > 1 else x[0], training=False))]
    mon.check('function', all(np.allclose(a, b, atol=1e-5) for a, b in zip(y0, y1)), lambda: 'renaming changed the outputs (%s)' % eng.steps)
  mon.check('untouched', cand == given[0] and meta == given[1] and all(np.array_equal(a, b) for a, b in zip(m.get_weights(), given[2])) and [l.name for l in m.layers] == given[3],
            'the model, candidates or metadata passed in changed')
  mon.event('steps', len(eng.steps))
  for s in eng.steps:
    mon.event('step ' + s[1])
  if eng.steps:
    mon.nontrivial(str(eng.steps), str(sorted(g)))
  mon.sample = dict(rules=[str(x) for x in rules], steps=eng.steps)


def zoo_flat(y):
  return y if isinstance(y, (list, tuple)) else [y]
