"""C06: saving and restoring a model that is being pruned."""
import os
import shutil
import tempfile
import numpy as np
from checks import c05
from lib import zoo

PROP = 'C06'
CLAUSES = ['settings-restored', 'state-restored', 'outputs-restored', 'continuation', 'clone-settings']
RULE = ('one case = (model family, schedule, block/structure setting, optimizer, number of batches before the stop, save '
        'format): the run is repeated without interruption and all variables are compared; non-trivial = distinct tuple of those')

FMT = ['h5', 'keras', 'tf', 'weights_h5', 'weights_tf', 'ckpt']
FAMS = ['mlp', 'residual', 'nested', 'conv_bn', 'lstm', 'gru', 'embed', 'two_in', 'conv_sep', 'stacked', 'mha', 'rnn', 'mlp_block', 'mlp_mbyn']


def cases(rng, tier):
  out = []
  for i in range(30 if tier == 'quick' else 500):
    fam = FAMS[i % len(FAMS)]
    sp = zoo.spec(rng, ['mlp' if fam.startswith('mlp') else 'conv_sep' if fam == 'conv_bn' else fam])
    sp['act'] = rng.choice(['relu', 'tanh', 'sigmoid'])
    b, f = rng.choice([0, 1, 2, 4]), rng.choice([1, 2, 3])
    sc = ['const', rng.choice([0.4, 0.7]), b, rng.choice([-1, b + 4]), f] if rng.random() < .5 else [
        'poly', 0.1, 0.8, b, b + rng.choice([3, 6]), rng.choice([1, 3]), f]
    out.append(dict(sp=sp, sc=sc, block=[2, 2] if fam == 'mlp_block' else [1, 1], pool=rng.choice(['AVG', 'MAX']),
                    mbyn=[2, 4] if fam == 'mlp_mbyn' else None, opt=rng.choice(['sgd', 'adam', 'mom']), fmt=FMT[(i + i // 14) % len(FMT)],
                    before=rng.choice([0, 1, 2, 3, 5]) if b < 2 or rng.random() < .4 else rng.randrange(1, b), after=rng.choice([2, 3, 4]), seed=rng.randrange(10**6),
                    clone=rng.choice(['clone', 'config', 'json']), cost=5))
    if out[-1]['fmt'] == 'tf':
      out[-1]['opt'] = 'sgd'  # Keras SavedModels do not restore optimizer slots
  return out


def variables(model):
  vs = []
  for l in zoo.all_layers(model):
    vs += l.variables
  return vs


def run(case, mon):
  import tensorflow as tf
  from tensorflow_model_optimization.python.core.keras.compat import keras
  from tensorflow_model_optimization.python.core.sparsity.keras import prune, pruning_callbacks
  n_b = case['before'] + case['after']

  def make():
    base, x = zoo.build(case['sp'])
    m = prune.prune_low_magnitude(base, c05.sched(case['sc']), block_size=tuple(case['block']), block_pooling_type=case['pool'],
                                  sparsity_m_by_n=case['mbyn'])
    return m, x

  def compile_(m):
    opt = dict(sgd=lambda: keras.optimizers.SGD(0.05, clipnorm=1.), mom=lambda: keras.optimizers.SGD(0.05, momentum=0.9, clipnorm=1.),
               adam=lambda: keras.optimizers.Adam(0.02))[case['opt']]()
    m.compile(opt, 'mse', run_eagerly=True)

  # HDF5 weight files hold no optimizer: the restored run starts with a fresh one.
  weights_only = case['fmt'] == 'weights_h5'
  a, x = make()
  y = zoo.targets(a, 8, case['seed'])
  r = np.random.RandomState(case['seed'])
  order = [r.permutation(8)[:5] for _ in range(n_b)]
  pick = lambda v, ix: [t[ix] for t in v] if isinstance(v, list) else v[ix]

  def train(m, ixs, begin=True):
    if begin:
      cb = pruning_callbacks.UpdatePruningStep()
      cb.set_model(m)
      cb.on_train_begin()
    for ix in ixs:
      m.train_on_batch(pick(x, ix), pick(y, ix))

  def end_epoch(m):
    cb = pruning_callbacks.UpdatePruningStep()
    cb.set_model(m)
    cb.on_train_begin()
    cb.on_epoch_end(0)

  compile_(a)
  b, _ = make()
  for v, w in zip(variables(b), variables(a)):
    v.assign(w)
  compile_(b)
  # Uninterrupted run.
  train(a, order[:case['before']])
  if weights_only:
    compile_(a)
  train(a, order[case['before']:], begin=False)
  end_epoch(a)
  # Interrupted run.
  train(b, order[:case['before']])
  names = [(v.name, v.shape) for v in variables(b)]
  saved = [v.numpy() for v in variables(b)]
  d = tempfile.mkdtemp()
  try:
    with prune.prune_scope():
      if case['fmt'].startswith('weights'):
        p = os.path.join(d, 'w.weights.h5' if case['fmt'] == 'weights_h5' and case['seed'] % 2 else 'w.h5' if case['fmt'] == 'weights_h5' else 'w')
        b.save_weights(p)
        c, _ = make()
        zoo_r = np.random.RandomState(3)
        for v in variables(c):
          if v.dtype.is_floating:
            v.assign(zoo_r.rand(*v.shape))
        c.load_weights(p)
        compile_(c)
      elif case['fmt'] == 'ckpt':
        ck = tf.train.Checkpoint(model=b, optimizer=b.optimizer)
        p = ck.save(os.path.join(d, 'ck'))
        c, _ = make()
        compile_(c)
        tf.train.Checkpoint(model=c, optimizer=c.optimizer).restore(p).expect_partial()
      else:
        p = os.path.join(d, dict(h5='m.h5', keras='m.keras', tf='m')[case['fmt']])
        b.save(p)
        c = keras.models.load_model(p)
        c.run_eagerly = True
  except Exception:
    shutil.rmtree(d)
    raise
  lb, lc = c05.prunable(b), c05.prunable(c)
  mon.check('settings-restored', len(lb) == len(lc), lambda: '%d of %d pruned layers restored' % (len(lc), len(lb)))
  want_cfg = lb[0].pruning_schedule.get_config()

  def same_settings(clause, ls, how):
    for l, q in zip(lb, ls):
      mon.check(clause, type(q).__name__ == type(l).__name__ and type(q.layer) is type(l.layer)
                and q.pruning_schedule.get_config() == want_cfg and tuple(q.block_size) == tuple(case['block'])
                and q.block_pooling_type == case['pool']
                and (None if q.sparsity_m_by_n is None else list(q.sparsity_m_by_n)) == case['mbyn']
                and len(q.pruning_vars) == len(l.pruning_vars),
                lambda: '%s: %s became %r %r %r %r' % (how, l.name, q.pruning_schedule.get_config(), q.block_size, q.block_pooling_type, q.sparsity_m_by_n))
  same_settings('settings-restored', lc, case['fmt'])
  vc = variables(c)
  mon.check('state-restored', len(vc) == len(saved), 'number of variables differs')
  for (nm, sh), s, v in zip(names, saved, vc):
    mon.check('state-restored', s.shape == v.numpy().shape and np.array_equal(s, v.numpy()), lambda: '%s: variable %s differs after restore' % (case['fmt'], nm))
  mon.event('variables-restored', len(saved))
  for l, q in zip(lb, lc):
    mon.check('state-restored', int(l.pruning_step.numpy()) == int(q.pruning_step.numpy()), lambda: 'step %d became %d' % (l.pruning_step, q.pruning_step))
  mon.check('outputs-restored', zoo.close(zoo.outputs(c, x), zoo.outputs(b, x), 1e-6), 'outputs differ after restore')
  # Undo the masking the inference call did, then continue.
  for s, v in zip(saved, vc):
    v.assign(s)
  train(c, order[case['before']:])
  shutil.rmtree(d)  # a checkpoint is read lazily for optimizer slots
  end_epoch(c)
  for (nm, _), p_, q_ in zip(names, variables(a), variables(c)):
    p_, q_ = p_.numpy().astype('f8'), q_.numpy().astype('f8')
    tol = 1e-4 * max(1.0, float(np.max(np.abs(p_))) if p_.size else 1)
    mon.check('continuation', p_.shape == q_.shape and np.allclose(p_, q_, rtol=0, atol=tol),
              lambda: '%s after %d batches: %s differs by %g from the uninterrupted run' % (case['fmt'], case['before'], nm, np.max(np.abs(p_ - q_))))
  mon.event('batches-continued', case['after'])
  with prune.prune_scope():
    if case['clone'] == 'clone':
      k = keras.models.clone_model(b)
    elif case['clone'] == 'config':
      k = type(b).from_config(b.get_config())
    else:
      k = keras.models.model_from_json(b.to_json())
  lk = c05.prunable(k)
  mon.check('clone-settings', len(lk) == len(lb), 'pruned layers lost')
  same_settings('clone-settings', lk, case['clone'])
  mon.nontrivial(case['sp']['fam'], tuple(case['sc']), tuple(case['block']), case['mbyn'] is None, case['opt'], case['fmt'], case['before'])
  mon.sample = dict(fam=case['sp']['fam'], fmt=case['fmt'], before=case['before'], sched=case['sc'])
