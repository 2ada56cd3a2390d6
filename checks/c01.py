"""C01: pruning schedules."""
import math

PROP = 'C01'
CLAUSES = ['window', 'sparsity', 'traced-agrees', 'round-trip', 'rejects']
RULE = ('one case = one schedule (class, begin, end, frequency, sparsities, power); it is called on every step around '
        'begin, end and all firing steps, eagerly with int32/int64 and through a tf.function; an evaluation is '
        'non-trivial when distinct in (schedule shape, position of step to window, phase)')
ASSUMPTIONS = ['steps are integer scalars, the way the pruning wrapper passes them']


def cases(rng, tier):
  out = []
  n = 70 if tier == 'quick' else 1500
  for i in range(n):
    begin = rng.choice([0, 0, 1, 2, 7, rng.randrange(0, 50), rng.randrange(0, 5000), 10**6])
    freq = rng.choice([1, 1, 2, 3, 5, 7, 10, rng.randrange(1, 200), 100])
    length = rng.choice([0, 0, 1, freq - 1, freq, freq + 1, 3 * freq, rng.randrange(0, 400)])
    if i % 2:
      end = rng.choice([-1, begin + length, begin + length])
      s = rng.choice([0.0, 0.5, 0.9, 0.99, round(rng.random() * 0.999, 3)])
      out.append(dict(kind='const', begin=begin, end=end, freq=freq, s=s))
    else:
      out.append(dict(kind='poly', begin=begin, end=begin + length, freq=freq,
                      s0=rng.choice([0.0, 0.5, round(rng.random() * 0.99, 3)]),
                      s1=rng.choice([0.0, 0.5, 0.9, round(rng.random() * 0.99, 3)]),
                      power=rng.choice([1, 2, 3, 3, 4, 0.5, 1.5])))
  # tf.constant target of a step fed through the default constructor arguments
  out.append(dict(kind='const', begin=0, end=-1, freq=None, s=0.5))
  out.append(dict(kind='poly', begin=3, end=230, freq=None, s0=0.1, s1=0.8, power=None))
  out.append(dict(kind='reject'))
  return out


def make(case):
  from tensorflow_model_optimization.python.core.sparsity.keras import pruning_schedule as ps
  if case['kind'] == 'const':
    kw = dict(target_sparsity=case['s'], begin_step=case['begin'])
    if case['freq'] is not None:
      kw.update(end_step=case['end'], frequency=case['freq'])
    return ps.ConstantSparsity(**kw)
  kw = dict(initial_sparsity=case['s0'], final_sparsity=case['s1'],
            begin_step=case['begin'], end_step=case['end'])
  if case['freq'] is not None:
    kw.update(frequency=case['freq'], power=case['power'])
  return ps.PolynomialDecay(**kw)


def run(case, mon):
  import tensorflow as tf
  from tensorflow_model_optimization.python.core.sparsity.keras import pruning_schedule as ps
  if case['kind'] == 'reject':
    return reject(mon, ps)
  sched = make(case)
  begin, end = case['begin'], case['end']
  freq = 100 if case['freq'] is None else case['freq']
  power = 3 if case.get('power') is None else case['power']

  def ref(step):
    active = step >= begin and (end == -1 or step <= end) and (step - begin) % freq == 0
    if case['kind'] == 'const':
      return active, case['s']
    if step >= end:
      sp = case['s1']
    elif step <= begin:
      sp = case['s0']
    else:
      p = (step - begin) / (end - begin)
      sp = case['s1'] + (case['s0'] - case['s1']) * (1 - p) ** power
    return active, sp

  steps = set(range(max(0, begin - 3), begin + 4)) | {0, 1, 2}
  hi = end if end != -1 else begin + 10 * freq
  steps |= set(range(max(0, hi - 3), hi + 4))
  for k in range(0, 6):
    for d in (-1, 0, 1):
      steps.add(begin + k * freq + d)
      steps.add(hi + k * freq + d)
      steps.add(begin + ((hi - begin) // freq) * freq + d + k * freq)
  span = max(1, hi - begin)
  for k in range(1, 8):
    steps.add(begin + span * k // 8)
  if end == -1:
    steps |= {begin + 1000 * freq, begin + 1000 * freq + 1}
  steps = sorted(s for s in steps if 0 <= s < 2**31 - 1)

  traced = tf.function(lambda st: sched(st), input_signature=[tf.TensorSpec([], tf.int64)])
  cfg = sched.get_config()
  twin = type(sched).from_config(cfg['config'])
  mon.check('round-trip', twin.get_config() == cfg, lambda: 'config %r became %r' % (cfg, twin.get_config()))
  from tensorflow_model_optimization.python.core.keras.compat import keras
  twin2 = keras.utils.deserialize_keras_object(
      cfg, custom_objects={'ConstantSparsity': ps.ConstantSparsity, 'PolynomialDecay': ps.PolynomialDecay})
  mon.check('round-trip', type(twin2) is type(sched) and twin2.get_config() == cfg, lambda: repr(cfg))

  for i, st in enumerate(steps):
    act, sp = ref(st)
    e = sched(tf.constant(st, tf.int64 if i % 2 else tf.int32))
    t = traced(tf.constant(st, tf.int64))
    r = twin(tf.constant(st, tf.int64))
    got = bool(e[0].numpy()), float(e[1].numpy())
    pos = 'before' if st < begin else 'begin' if st == begin else 'end' if st == end else 'after' if (
        end != -1 and st > end) else 'in'
    mon.nontrivial(case['kind'], freq == 1, end == -1, end == begin, begin == 0, pos, (st - begin) % freq == 0,
                   power, begin, freq)
    mon.event('fired' if act else 'idle')
    mon.check('window', got[0] == act, lambda: 'step %d: should_prune=%s expected %s' % (st, got[0], act))
    mon.check('sparsity', math.isfinite(got[1]) and abs(got[1] - sp) <= 2e-5 + 1e-5 * abs(power),
              lambda: 'step %d: sparsity=%r expected %r' % (st, got[1], sp))
    mon.check('traced-agrees', bool(t[0].numpy()) == act and abs(float(t[1].numpy()) - sp) <= 2e-5 + 1e-5 * abs(power),
              lambda: 'traced step %d: %r expected %r' % (st, (t[0].numpy(), t[1].numpy()), (act, sp)))
    mon.check('round-trip', bool(r[0].numpy()) == act and abs(float(r[1].numpy()) - sp) <= 2e-5 + 1e-5 * abs(power),
              lambda: 'rebuilt schedule, step %d' % st)
  mon.sample = dict(case, steps=len(steps), first=[ref(s) for s in steps[:3]])


def reject(mon, ps):
  ok = dict(target_sparsity=0.5, begin_step=0, end_step=10, frequency=2)
  for bad in [dict(begin_step=-1), dict(begin_step=-5, end_step=-1), dict(end_step=-2), dict(begin_step=11),
              dict(frequency=0), dict(frequency=-3), dict(target_sparsity=1.0), dict(target_sparsity=-0.1),
              dict(target_sparsity=1.5), dict(begin_step=1, end_step=0)]:
    mon.raises('rejects', lambda: ps.ConstantSparsity(**dict(ok, **bad)), ValueError, 'ConstantSparsity %r' % bad)
  for good in [dict(end_step=-1), dict(end_step=0), dict(begin_step=10), dict(target_sparsity=0.0),
               dict(target_sparsity=0.999), dict(frequency=1)]:
    ps.ConstantSparsity(**dict(ok, **good))
  ok = dict(initial_sparsity=0.1, final_sparsity=0.5, begin_step=0, end_step=10, frequency=2, power=3)
  for bad in [dict(begin_step=-1), dict(end_step=-1), dict(end_step=-2), dict(begin_step=11), dict(frequency=0),
              dict(frequency=-1), dict(initial_sparsity=1.0), dict(initial_sparsity=-0.01),
              dict(final_sparsity=1.0), dict(final_sparsity=-1e-3), dict(final_sparsity=2.0)]:
    mon.raises('rejects', lambda: ps.PolynomialDecay(**dict(ok, **bad)), ValueError, 'PolynomialDecay %r' % bad)
  for good in [dict(end_step=0), dict(begin_step=10), dict(initial_sparsity=0.0), dict(final_sparsity=0.0)]:
    ps.PolynomialDecay(**dict(ok, **good))
  mon.nontrivial('reject')
