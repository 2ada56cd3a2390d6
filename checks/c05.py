"""C05: masks, steps and weights over training histories."""
import numpy as np
from checks.c02 import check_mask as mag_mask
from lib import dist, zoo

PROP = 'C05'
CLAUSES = ['step-counter', 'inference-inert', 'mask-schedule', 'forward-masked', 'epoch-end-zero', 'no-callback-fails',
           'mask-binary', 'order', 'count', 'shape-dtype', 'replicas']
setup = dist.setup
RULE = ('one case = a model with pruned layers (each with its own schedule) and a random history of fit / train_on_batch / '
        'evaluate / predict / call / custom loop / recompile / callback-less training; a reference automaton of step and mask '
        'watches every batch, also with two replicas training under a mirrored strategy, and in half, mixed and double precision; non-trivial = distinct (family, history word, schedule shape, optimizer)')
ASSUMPTIONS = ['every pruned layer is called once per batch']

FAMS = ['mlp', 'mlp_mode', 'conv', 'residual', 'nested', 'lstm', 'gru', 'stacked', 'embed', 'conv1d', 'mha', 'two_in', 'rnn', 'conv_sep']
OPS = ['fit', 'fit', 'tob', 'evaluate', 'predict', 'call', 'custom', 'recompile', 'fit2', 'setw', 'stepfit']


def cases(rng, tier):
  out = []
  n = 40 if tier == 'quick' else 600
  for i in range(n):
    sp = zoo.spec(rng, [FAMS[i % len(FAMS)]])
    scheds = []
    for _ in range(4):
      b = rng.choice([0, 0, 1, 2, 3])
      f = rng.choice([1, 1, 2, 3])
      if rng.random() < .5:
        scheds.append(['const', rng.choice([0.3, 0.5, 0.8]), b, rng.choice([-1, b + 4, b, b + 9]), f])
      else:
        scheds.append(['poly', rng.choice([0.0, 0.2]), rng.choice([0.6, 0.9]), b, b + rng.choice([1, 4, 8]), rng.choice([1, 3]), f])
    out.append(dict(sp=sp, scheds=scheds, per_layer=bool(rng.random() < .5), opt=rng.choice(['sgd', 'mom', 'adam', 'rmsprop']),
                    eager=bool(i % 3 != 0), ops=[rng.choice(['predict', 'evaluate', 'call', 'fit', 'fit', 'fit'])] +
                    [rng.choice(OPS) for _ in range(3 if i % 3 == 0 else 5)], seed=rng.randrange(10**6),
                    nocb=rng.choice(['tob', 'fit', 'call']), cost=3 if i % 3 else 6))
  for c in out[::6]:
    c['ops'][1:2] = ['custom', 'tob']  # a loop run as a graph
  for i in range(4 if tier == 'quick' else 40):
    c = dict(out[rng.randrange(n)], kind='policy', policy=['mixed_float16', 'mixed_bfloat16', 'float64', 'float16'][i % 4], sp=zoo.spec(rng, [['mlp', 'conv1d', 'lstm', 'nested', 'embed'][i % 5]]),
             eager=False, fits=[1, 1], bs=[rng.choice([2, 3]), 4], opt='sgd', cost=3)
    out.append(c)
  for i in range(4 if tier == 'quick' else 40):
    c = dict(out[rng.randrange(n)], kind='dist', sp=zoo.spec(rng, [['mlp', 'conv1d', 'residual', 'nested'][i % 4]]), eager=False,
             fits=[rng.choice([1, 2]), 1], bs=[rng.choice([2, 3, 4]), 4], cost=6)
    out.append(c)
  return out


def sched(d):
  from tensorflow_model_optimization.python.core.sparsity.keras import pruning_schedule as ps
  if d[0] == 'const':
    return ps.ConstantSparsity(d[1], d[2], d[3], d[4])
  return ps.PolynomialDecay(d[1], d[2], d[3], d[4], d[5], d[6])


def ref_sched(d, step):
  """Independent reference of the schedule: (active, sparsity)."""
  if d[0] == 'const':
    b, e, f = d[2:5]
    return step >= b and (e == -1 or step <= e) and (step - b) % f == 0, d[1]
  s0, s1, b, e, pw, f = d[1:]
  p = min(1., max(0., (step - b) / (e - b)))
  # not exact: in single precision the value may lie on either side of a half
  return b <= step <= e and (step - b) % f == 0, s1 + (s0 - s1) * (1 - p) ** pw + 1e-12


def prunable(model):
  from tensorflow_model_optimization.python.core.sparsity.keras import pruning_wrapper
  return pruning_wrapper.collect_prunable_layers(model)


class Snap:

  def __init__(self, layers):
    self.step = [int(l.pruning_step.numpy()) for l in layers]
    self.w = [[w.numpy().copy() for w, _, _ in l.pruning_vars] for l in layers]
    self.m = [[m.numpy().copy() for _, m, _ in l.pruning_vars] for l in layers]
    self.t = [[float(t.numpy()) for _, _, t in l.pruning_vars] for l in layers]


def same(a, b):
  return all(np.array_equal(p, q) for x, y in zip(a, b) for p, q in zip(x, y))


def wrap(keras, prune, model, scheds, per_layer):
  """Wraps a model; optionally a different schedule per layer."""
  if not per_layer:
    return prune.prune_low_magnitude(model, sched(scheds[0])), lambda name: scheds[0]
  names, pick = [], {}

  def fn(layer):
    if isinstance(layer, keras.Model):
      return keras.models.clone_model(layer, clone_function=fn)
    d = scheds[len(names) % len(scheds)]
    names.append(layer.name)
    pick[layer.name] = d
    return prune.prune_low_magnitude(layer, sched(d))
  return keras.models.clone_model(model, clone_function=fn), lambda name: pick[name]


def run_dist(case, mon):
  """Two replicas training together, or another precision: the same automaton holds."""
  import tensorflow as tf
  from tensorflow_model_optimization.python.core.keras.compat import keras
  from tensorflow_model_optimization.python.core.sparsity.keras import prune, pruning_callbacks
  alone = case['kind'] == 'policy'
  strat = tf.distribute.get_strategy() if alone else dist.strategy()
  label = case.get('policy', 'two replicas')
  base, x = zoo.build(case['sp'])
  with strat.scope():
    model = keras.models.clone_model(base)
    model.set_weights(base.get_weights())
    model, which = wrap(keras, prune, model, case['scheds'], case['per_layer'])
    opt = dict(sgd=lambda: keras.optimizers.legacy.SGD(0.05, clipnorm=1.), mom=lambda: keras.optimizers.legacy.SGD(0.02, momentum=0.9, clipnorm=1.),
               adam=lambda: keras.optimizers.legacy.Adam(0.02), rmsprop=lambda: keras.optimizers.RMSprop(0.01))[case['opt']]()
    model.compile(opt, 'mse')
  layers = prunable(model)
  defs = [which(l.layer.name) for l in layers]
  n = len(x[0]) if isinstance(x, list) else len(x)
  y = zoo.targets(model, n, case['seed'])
  step = [-1] * len(layers)
  pre = {}

  def same_everywhere(where):
    for l in layers:
      for v in l.variables:
        mon.check('replicas', dist.agree(v, 2 - alone), lambda: '%s: %s differs between the replicas' % (where, v.name))

  def note():
    pre['w'] = [[dist.copies(w)[0] for w, _, _ in l.pruning_vars] for l in layers]
    pre['m'] = [[dist.copies(m)[0] for _, m, _ in l.pruning_vars] for l in layers]

  def look(where):
    same_everywhere(where)
    mon.event('replicated-batches')
    for i, l in enumerate(layers):
      step[i] += 1
      got = [int(v) for v in dist.copies(l.pruning_step)]
      mon.check('step-counter', got == [step[i]] * (2 - alone), lambda: '%s: steps of %s are %s, expected %d' % (where, l.name, got, step[i]))
      act, s = ref_sched(defs[i], step[i])
      for j, (w, m, t) in enumerate(l.pruning_vars):
        if act:
          mon.event('mask-updates')
          # under a mixed policy the weights are ranked as the layer computes with them
          mag_mask(mon, pre['w'][i][j].astype(tf.as_dtype(l.compute_dtype).as_numpy_dtype), dist.copies(m)[0], float(dist.copies(t)[0]), s, '%s %s step %d' % (where, l.name, step[i]))
        else:
          mon.check('mask-schedule', np.array_equal(pre['m'][i][j], dist.copies(m)[0]), lambda: '%s: mask of %s changed at inactive step %d' % (where, l.name, step[i]))

  def zeros(where):
    same_everywhere(where)
    for l in layers:
      for w, m, _ in l.pruning_vars:
        for a, b in zip(dist.copies(w), dist.copies(m)):
          mon.check('epoch-end-zero', np.all(a[b == 0] == 0), lambda: '%s: %s has non-zero pruned weights' % (where, l.name))

  class Watch(keras.callbacks.Callback):

    def on_train_begin(self, logs=None):
      step[:] = [max(v, 0) for v in step]

    def on_train_batch_begin(self, batch, logs=None):
      note()

    def on_train_batch_end(self, batch, logs=None):
      look('fit on ' + label)
      pre['after'] = [[dist.copies(w)[0] for w, _, _ in l.pruning_vars] for l in layers]

    def on_epoch_end(self, epoch, logs=None):
      zeros('epoch end on ' + label)
      for i, l in enumerate(layers):
        for j, (w, m, _) in enumerate(l.pruning_vars):
          mon.check('epoch-end-zero', np.allclose(dist.copies(w)[0], pre['after'][i][j] * dist.copies(m)[0], rtol=1e-6, atol=0), lambda: '%s: the end of the epoch changed the surviving weights on two replicas' % l.name)

  for epochs, bs in zip(case['fits'], case['bs']):
    model.fit(x, y, batch_size=bs, epochs=epochs, shuffle=False, verbose=0, callbacks=[pruning_callbacks.UpdatePruningStep(), Watch()])
    before = [dist.copies(m)[0] for l in layers for _, m, _ in l.pruning_vars]
    model.predict(x, batch_size=4, verbose=0)
    same_everywhere('after predict')
    got = [dist.copies(m)[0] for l in layers for _, m, _ in l.pruning_vars]
    mon.check('inference-inert', all(np.array_equal(a, b) for a, b in zip(before, got)) and [int(dist.copies(l.pruning_step)[-1]) for l in layers] == step, 'predict on two replicas moved masks or steps')
  # the exported weights are those of the replicas, pruned
  plain = keras.models.clone_model(base)
  full = prune.strip_pruning(model)
  kept = [np.asarray(v) for v in full.get_weights()]
  plain.set_weights(kept)
  mon.check('forward-masked', zoo.close([np.asarray(v) for v in tf.nest.flatten(model.predict(x, verbose=0))], zoo.outputs(plain, x), 2e-5 if label in ('float64', 'two replicas') else 3e-2), 'the stripped weights give other outputs than the replicas')
  mon.nontrivial('dist', label, case['sp']['fam'], tuple(case['fits']), tuple(case['bs']), tuple(map(tuple, case['scheds'][:1 + 3 * case['per_layer']])), case['opt'])


def run(case, mon):
  if case.get('kind') in ('dist', 'policy'):
    with dist.policy(case.get('policy')):
      return run_dist(case, mon)
  import tensorflow as tf
  from tensorflow_model_optimization.python.core.keras.compat import keras
  from tensorflow_model_optimization.python.core.sparsity.keras import prune, pruning_callbacks
  base, x = zoo.build(case['sp'])
  plain = keras.models.clone_model(base)
  plain.set_weights(base.get_weights())
  init = base.get_weights()
  model, which = wrap(keras, prune, base, case['scheds'], case['per_layer'])
  layers = prunable(model)
  defs = [which(l.layer.name) for l in layers]
  n = len(x[0]) if isinstance(x, list) else len(x)
  y = zoo.targets(model, n, case['seed'])
  sl = lambda a, i, j: [v[i:j] for v in a] if isinstance(a, list) else a[i:j]
  # Reference weights-by-name plumbing: the plain twin holds the same variables.
  inner_vars = [w for l in zoo.all_layers(model) for w in getattr(l, 'layer', l).weights]
  twin_vars = [w for l in zoo.all_layers(plain) for w in l.weights]
  assert [w.shape for w in inner_vars] == [w.shape for w in twin_vars]
  masked_ids = {id(w): (i, j) for i, l in enumerate(layers) for j, (w, _, _) in enumerate(l.pruning_vars)}

  def compile_():
    opt = dict(sgd=lambda: keras.optimizers.SGD(0.05, clipnorm=1.), mom=lambda: keras.optimizers.SGD(0.05, momentum=0.9, clipnorm=1.),
               adam=lambda: keras.optimizers.Adam(0.02), rmsprop=lambda: keras.optimizers.RMSprop(0.01))[case['opt']]()
    model.compile(opt, 'mse', run_eagerly=case['eager'])
    plain.compile(keras.optimizers.SGD(0.0), 'mse', run_eagerly=True)

  def ref_out(before, masks, xb):
    """Outputs the plain twin gives with the masked weights (inference mode)."""
    for v, t in zip(before, twin_vars):
      t.assign(v)
    for vi, w in enumerate(inner_vars):
      if id(w) in masked_ids:
        i, j = masked_ids[id(w)]
        twin_vars[vi].assign(before[vi] * masks[i][j])
    return zoo.outputs(plain, xb)

  has_mode = case['sp']['fam'] in ('mlp_mode', 'conv')
  expect_step = [-1] * len(layers)

  def after_batch(pre, raw, xb, loss, label):
    """pre: Snap before the batch; raw: all inner variables before the batch."""
    post = Snap(layers)
    mon.event('train-batches')
    for i, l in enumerate(layers):
      expect_step[i] += 1
      mon.check('step-counter', post.step[i] == expect_step[i], lambda: '%s: %s step is %d, expected %d' % (label, l.name, post.step[i], expect_step[i]))
      act, s = ref_sched(defs[i], expect_step[i])
      for j in range(len(l.pruning_vars)):
        if act:
          mon.event('mask-updates')
          mag_mask(mon, pre.w[i][j], post.m[i][j], post.t[i][j], s, '%s %s step %d' % (label, l.name, expect_step[i]))
        mon.check('shape-dtype', post.m[i][j].shape == pre.w[i][j].shape and post.m[i][j].dtype == pre.w[i][j].dtype)
        if not act:
          mon.check('mask-schedule', np.array_equal(pre.m[i][j], post.m[i][j]) and pre.t[i][j] == post.t[i][j],
                    lambda: '%s: %s mask or threshold changed at inactive step %d' % (label, l.name, expect_step[i]))
    if loss is not None and not has_mode:
      yp = ref_out(raw, post.m, xb[0])
      ys = xb[1] if isinstance(xb[1], list) else [xb[1]]
      want = sum(float(np.mean((p.astype('float64') - q) ** 2)) for p, q in zip(yp, ys))
      mon.check('forward-masked', abs(want - loss) <= 1e-4 * max(1., abs(want)),
                lambda: '%s: training loss %r but masked weights give %r' % (label, loss, want))
    return post

  state = {}

  class Watch(keras.callbacks.Callback):

    def on_train_begin(self, logs=None):
      for i in range(len(expect_step)):
        if expect_step[i] == -1:
          expect_step[i] = 0
      got = Snap(layers).step
      mon.check('step-counter', got == expect_step, lambda: 'after train begin steps are %r, expected %r' % (got, expect_step))

    def on_train_batch_begin(self, batch, logs=None):
      state['pre'] = Snap(layers)
      state['raw'] = [w.numpy().copy() for w in inner_vars]

    def on_train_batch_end(self, batch, logs=None):
      bs = state['bs']
      xb = (sl(x, batch * bs, min(n, (batch + 1) * bs)), sl(y, batch * bs, min(n, (batch + 1) * bs)))
      # The reported loss is a running mean over the epoch.
      if batch == 0:
        state['sum'], state['cnt'] = 0., 0
      k = len(xb[0][0]) if isinstance(xb[0], list) else len(xb[0])
      tot = logs['loss'] * (state['cnt'] + k)
      loss = (tot - state['sum']) / k
      state['sum'], state['cnt'] = tot, state['cnt'] + k
      state['post'] = after_batch(state['pre'], state['raw'], xb, loss, 'fit')

  def epoch_end(label):
    s = Snap(layers)
    for i, l in enumerate(layers):
      for j in range(len(l.pruning_vars)):
        mon.check('epoch-end-zero', np.all(s.w[i][j][s.m[i][j] == 0] == 0),
                  lambda: '%s: %s has non-zero pruned weights at the end of the epoch' % (label, l.name))
        if 'post' in state:
          mon.check('epoch-end-zero', np.array_equal(s.w[i][j], state['post'].w[i][j] * s.m[i][j]),
                    lambda: '%s: the end of the epoch changed the surviving weights of %s' % (label, l.name))

  class EpochEnd(keras.callbacks.Callback):
    def on_epoch_end(self, epoch, logs=None):
      epoch_end('fit epoch %d' % epoch)

  def do_fit(epochs, bs):
    state['bs'] = bs
    model.fit(x, y, batch_size=bs, epochs=epochs, shuffle=False, verbose=0,
              callbacks=[pruning_callbacks.UpdatePruningStep(), Watch(), EpochEnd()])

  compile_()
  # Training without the callback must fail loudly and train nothing.
  raw0 = [w.numpy().copy() for w in inner_vars]
  if case['nocb'] == 'tob':
    mon.raises('no-callback-fails', lambda: model.train_on_batch(x, y), tf.errors.InvalidArgumentError)
  elif case['nocb'] == 'fit':
    mon.raises('no-callback-fails', lambda: model.fit(x, y, verbose=0), tf.errors.InvalidArgumentError)
  else:
    mon.raises('no-callback-fails', lambda: model(x, training=True), tf.errors.InvalidArgumentError)
  # Start over from untouched variables.
  for l in layers:
    l.pruning_step.assign(-1)
    for _, m_, t_ in l.pruning_vars:
      m_.assign(tf.ones_like(m_))
      t_.assign(tf.zeros_like(t_))
  for w, v in zip(inner_vars, raw0):
    w.assign(v)
  compile_()
  word = []
  for op in case['ops']:
    if expect_step[0] == -1 and op in ('tob', 'custom', 'setw', 'stepfit'):
      op = 'fit'
    word.append(op)
    if op in ('fit', 'fit2'):
      do_fit(2 if op == 'fit2' else 1, 4 if op == 'fit' else 3)
    elif op == 'stepfit':
      # stopping in the middle of an epoch
      state['bs'] = 2
      model.fit(x, y, batch_size=2, epochs=1, steps_per_epoch=2, shuffle=False, verbose=0,
                callbacks=[pruning_callbacks.UpdatePruningStep(), Watch(), EpochEnd()])
    elif op == 'tob':
      for k in range(2):
        pre, raw = Snap(layers), [w.numpy().copy() for w in inner_vars]
        xb, yb = sl(x, 0, 5), sl(y, 0, 5)
        loss = model.train_on_batch(xb, yb, reset_metrics=True)
        loss = loss[0] if isinstance(loss, (list, tuple)) else loss
        after_batch(pre, raw, (xb, yb), float(loss), 'train_on_batch')
    elif op == 'custom':
      cb = pruning_callbacks.UpdatePruningStep()
      cb.set_model(model)
      cb.on_train_begin()
      pre, raw = Snap(layers), [w.numpy().copy() for w in inner_vars]

      def train_step():
        with tf.GradientTape() as tape:
          out = model(x, training=True)
          loss = tf.add_n([tf.reduce_mean((a - b) ** 2) for a, b in zip(tf.nest.flatten(out), tf.nest.flatten(y))])
        g = tape.gradient(loss, model.trainable_variables)
        model.optimizer.apply_gradients([(a, b) for a, b in zip(g, model.trainable_variables) if a is not None])
        return loss
      model.optimizer.build(model.trainable_variables)
      loss = (train_step if case['eager'] else tf.function(train_step))()
      state['post'] = after_batch(pre, raw, (x, y), float(loss), 'custom loop')
      cb.on_epoch_end(0)
      epoch_end('custom loop')
    elif op == 'recompile':
      compile_()
    elif op == 'setw':
      for l in layers:
        l.set_weights([w + 0.01 for w in l.get_weights()])
    else:
      pre, raw = Snap(layers), [w.numpy().copy() for w in inner_vars]
      want = ref_out(raw, pre.m, x)
      if op == 'evaluate':
        model.evaluate(x, y, batch_size=4, verbose=0)
        got = None
      elif op == 'predict':
        got = model.predict(x, batch_size=4, verbose=0)
      else:
        got = model(x) if case['seed'] % 2 else model(x, training=False)
      post = Snap(layers)
      mon.event('inference-calls')
      mon.check('inference-inert', pre.step == post.step and same(pre.m, post.m) and pre.t == post.t,
                lambda: '%s changed step, mask or threshold' % op)
      for i in range(len(layers)):
        for a, b, c in zip(pre.w[i], post.w[i], pre.m[i]):
          mon.check('inference-inert', np.array_equal(a * c, b * c), lambda: '%s changed surviving weights' % op)
      if got is not None:
        got = [np.asarray(g) for g in (got if isinstance(got, (list, tuple)) else [got])]
        mon.check('forward-masked', zoo.close(got, want, 2e-5), lambda: '%s output is not that of the masked weights' % op)
  mon.nontrivial(case['sp']['fam'], tuple(word), tuple(map(tuple, case['scheds'][:1 + 3 * case['per_layer']])), case['opt'], case['eager'])
  mon.sample = dict(fam=case['sp']['fam'], ops=word, opt=case['opt'], final_steps=expect_step[:3])
