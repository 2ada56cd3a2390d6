"""Runtime-monitoring harness.

A check module (checks/cXX.py) drives the real code in /repo under a generated
workload while a Monitor watches.  It defines

  PROP     property id
  CLAUSES  names of the deciding monitors; each must have observed something,
           otherwise the verdict is "inconclusive" (exit 2)
  RULE     how cases are made and what makes one non-trivial
  cases(rng, tier) -> list of JSON-able dicts (deterministic in the seed)
  run(case, mon)   -> executes one case under the monitor

The parent distributes cases over worker processes (one TensorFlow import
each), merges what the monitors saw into evidence/<id>.json and gives a
three-valued verdict: 0 held, 1 violation, 2 inconclusive.
"""
import hashlib
import importlib
import json
import os
import random
import subprocess
import sys
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
PY = '/opt/venv/bin/python'
WATCHDOG = {'quick': 840, 'thorough': 6 * 3600}


def worker_env():
  env = dict(os.environ)
  env.update(
      TF_USE_LEGACY_KERAS='1', TF_CPP_MIN_LOG_LEVEL='3',
      CUDA_VISIBLE_DEVICES='-1', OMP_NUM_THREADS='1',
      TF_NUM_INTRAOP_THREADS='1', TF_NUM_INTEROP_THREADS='1',
      TF_ENABLE_ONEDNN_OPTS='0', PYTHONHASHSEED='0',
      PYTHONDONTWRITEBYTECODE='1', PYTHONWARNINGS='ignore',
      PYTHONPATH=REPO + ':' + VERIF)
  return env


class Violation(Exception):
  pass


class Monitor:
  """Collects events and verdicts of one case."""

  def __init__(self):
    self.clauses = {}
    self.events = {}
    self.keys = set()
    self.violations = []
    self.sample = None

  def event(self, kind, n=1):
    self.events[kind] = self.events.get(kind, 0) + int(n)

  def nontrivial(self, *key):
    self.keys.add(hashlib.sha1(repr(key).encode()).hexdigest()[:16])

  def check(self, clause, cond, detail='', mechanism=None):
    """One evaluation of a deciding monitor; records a violation if false."""
    self.clauses[clause] = self.clauses.get(clause, 0) + 1
    if not bool(cond):
      if callable(detail):
        detail = detail()
      if len(self.violations) < 20:
        self.violations.append(dict(clause=clause, mechanism=mechanism or clause,
                                    detail=str(detail)[:1500]))
      return False
    return True

  def raises(self, clause, fn, types=Exception, detail='', mechanism=None):
    """The call must be rejected with an error of one of the given types."""
    try:
      fn()
    except types:
      return self.check(clause, True)
    except Exception as e:  # pylint: disable=broad-except
      return self.check(clause, False, '%s: wrong error %r' % (detail, e), mechanism)
    return self.check(clause, False, '%s: accepted' % detail, mechanism)


def seed_of(case):
  return int(hashlib.sha1(json.dumps(case, sort_keys=True).encode()).hexdigest()[:8], 16)


def worker_main(module, in_path, out_path):
  """Runs a list of cases; appends one JSON line per case to out_path."""
  import resource
  mod = importlib.import_module(module)
  with open(in_path) as f:
    todo = json.load(f)
  import numpy as np
  import tensorflow as tf
  from tensorflow_model_optimization.python.core.keras.compat import keras
  # TensorFlow keeps AutoGraph out of "keras"; since Keras is now the package
  # tf_keras that rule no longer matches and the first fit() of each process
  # spends ~10 s converting Keras itself.  Code in /repo is still converted.
  from tensorflow.python.autograph.core import config as ag_config
  ag_config.CONVERSION_RULES = tuple(
      ag_config.DoNotConvert(m) for m in ('tf_keras', 'checks', 'lib')) + tuple(ag_config.CONVERSION_RULES)
  where = os.path.abspath(sys.modules['tensorflow_model_optimization'].__file__)
  assert where.startswith(REPO + '/'), where
  if hasattr(mod, 'setup'):
    mod.setup()
  with open(out_path, 'a') as out:
    for idx, case in todo:
      mon = Monitor()
      s = seed_of(case)
      random.seed(s); np.random.seed(s % (2**32))
      keras.backend.clear_session()
      tf.random.set_seed(s)
      t0 = time.time()
      err = None
      try:
        mod.run(case, mon)
      except Violation:
        pass
      except MemoryError:
        err = 'MemoryError'
      except Exception as e:  # pylint: disable=broad-except
        tb = traceback.format_exc()
        mon.violations.append(dict(
            clause='no-unexpected-error', mechanism='error:' + type(e).__name__,
            detail=('unexpected %s: %s\n' % (type(e).__name__, e))[:800] + tb[-2500:]))
      out.write(json.dumps(dict(
          idx=idx, clauses=mon.clauses, events=mon.events, keys=sorted(mon.keys),
          violations=mon.violations, sample=mon.sample, err=err,
          wall=round(time.time() - t0, 2))) + '\n')
      out.flush()
    out.write(json.dumps(dict(done=True, maxrss=resource.getrusage(
        resource.RUSAGE_SELF).ru_maxrss)) + '\n')


def load_known(prop):
  known = {}
  path = os.path.join(VERIF, 'known_findings.jsonl')
  if os.path.exists(path):
    with open(path) as f:
      for line in f:
        line = line.strip()
        if line:
          d = json.loads(line)
          if d.get('property') == prop and d.get('status') == 'known':
            known[d['mechanism']] = d['what']
  return known


def main(argv):
  import argparse
  ap = argparse.ArgumentParser()
  ap.add_argument('prop')
  ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
  ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED', '1') or 1))
  ap.add_argument('--replay')
  ap.add_argument('--workers', type=int, default=8)
  ap.add_argument('--only', type=int, action='append')
  ap.add_argument('-v', action='store_true')
  a = ap.parse_args(argv)
  if a.tier not in ('quick', 'thorough'):
    a.tier = 'quick'
  t0 = time.time()
  module = 'checks.' + a.prop.lower()
  sys.path.insert(0, VERIF)
  mod = importlib.import_module(module)
  prop = mod.PROP
  if a.replay:
    with open(a.replay) as f:
      rep = json.load(f)
    todo_all = [(i, c) for i, c in enumerate(rep['history'] if a.only is None else [rep['case']])]
    a.workers = 1
  else:
    rng = random.Random('%s/%s/%d' % (prop, a.tier, a.seed))
    cs = mod.cases(rng, a.tier)
    cs = json.loads(json.dumps(cs))
    todo_all = list(enumerate(cs))
    if a.only:
      todo_all = [x for x in todo_all if x[0] in a.only]
  nw = max(1, min(a.workers, len(todo_all), getattr(mod, 'MAX_WORKERS', 8)))
  # Spread expensive cases: optional per-case cost hint, longest first.
  order = sorted(todo_all, key=lambda x: -x[1].get('cost', 1))
  shares, load = [[] for _ in range(nw)], [0] * nw
  for x in order:
    w = load.index(min(load))
    shares[w].append(x)
    load[w] += x[1].get('cost', 1)
  for sh in shares:
    sh.sort(key=lambda x: x[0])
  tmp = os.path.join('/tmp', 'verif_%s_%d' % (prop, os.getpid()))
  os.makedirs(tmp, exist_ok=True)
  env = worker_env()
  env['TMPDIR'] = tmp
  procs = []
  for w, share in enumerate(shares):
    ip, op, lp = (os.path.join(tmp, '%s%d' % (k, w)) for k in ('in', 'out', 'log'))
    with open(ip, 'w') as f:
      json.dump(share, f)
    log = open(lp, 'wb')
    procs.append((subprocess.Popen(
        [PY, '-c', 'import sys; from lib import harness; harness.worker_main(*sys.argv[1:])',
         module, ip, op], cwd=VERIF, env=env, stdout=log, stderr=subprocess.STDOUT), op, lp))
  deadline = t0 + WATCHDOG[a.tier]
  inconclusive = []
  for w, (pr, op, lp) in enumerate(procs):
    try:
      rc = pr.wait(max(1, deadline - time.time()))
      if rc != 0:
        with open(lp, 'rb') as f:
          tail = f.read()[-3000:].decode(errors='replace')
        inconclusive.append('worker %d exited with %d\n%s' % (w, rc, tail))
    except subprocess.TimeoutExpired:
      inconclusive.append('worker %d: watchdog' % w)
      pr.kill()
      pr.wait()
  clauses, events, keys, viols, samples, evals, walls = {}, {}, set(), [], [], 0, []
  by_idx = dict(todo_all)
  for w, (pr, op, lp) in enumerate(procs):
    done = False
    if os.path.exists(op):
      with open(op) as f:
        for line in f:
          d = json.loads(line)
          if d.get('done'):
            done = True
            continue
          evals += 1
          walls.append((d['wall'], d['idx']))
          for k, v in d['clauses'].items():
            clauses[k] = clauses.get(k, 0) + v
          for k, v in d['events'].items():
            events[k] = events.get(k, 0) + v
          keys.update(d['keys'])
          if d['err']:
            inconclusive.append('case %d: %s' % (d['idx'], d['err']))
          for v in d['violations']:
            hist = [c for i, c in shares[w] if i <= d['idx']]
            viols.append(dict(v, idx=d['idx'], case=by_idx[d['idx']], history=hist))
          if d['sample'] is not None and len(samples) < 5:
            samples.append(d['sample'])
    if not done and not any('worker %d' % w in x for x in inconclusive):
      inconclusive.append('worker %d did not finish' % w)
  if not samples:
    samples = [c for _, c in todo_all[:3]]
  if not a.replay and not a.only:
    for c in getattr(mod, 'CLAUSES', []):
      if not clauses.get(c):
        inconclusive.append('monitor %r never observed anything' % c)
  known = load_known(prop)
  new = [v for v in viols if v['mechanism'] not in known]
  old = [v for v in viols if v['mechanism'] in known]
  ev = os.path.join(VERIF, 'evidence')
  os.makedirs(os.path.join(ev, 'replays'), exist_ok=True)
  if not a.replay and not a.only:
    with open(os.path.join(ev, prop + '.json'), 'w') as f:
      json.dump(dict(
          property=prop, tier=a.tier, seed=a.seed, level='exploration',
          coverage=dict(
              evaluations=evals, distinct_nontrivial=len(keys), rule=mod.RULE,
              samples=samples, monitor_evaluations=clauses, events_observed=events),
          assumptions=getattr(mod, 'ASSUMPTIONS', []),
          wall_s=round(time.time() - t0, 1), violations=len(new),
          inconclusive=inconclusive), f, indent=1)
  for m in sorted({v['mechanism'] for v in old}):
    print('KNOWN-FINDING: property=%s %s' % (prop, known[m]))
  rc = 0
  if new:
    v = new[0]
    rp = os.path.join(ev, 'replays', '%s-%s.json' % (prop, hashlib.sha1(
        json.dumps(v['case'], sort_keys=True).encode()).hexdigest()[:10]))
    with open(rp, 'w') as f:
      json.dump(dict(property=prop, **v), f, indent=1)
    seen = {}
    for x in new:
      seen.setdefault(x['mechanism'], []).append(x)
    for m, xs in seen.items():
      print('  [%s] x%d first in case %d: %s\n    case=%s' % (
          m, len(xs), xs[0]['idx'], xs[0]['detail'], json.dumps(xs[0]['case'])[:600]))
    print('VIOLATION property=%s replay=%s' % (prop, rp))
    rc = 1
  elif inconclusive:
    for x in inconclusive:
      print('INCONCLUSIVE property=%s %s' % (prop, x))
    rc = 2
  print('%s tier=%s seed=%d cases=%d distinct=%d monitors=%s events=%s wall=%.1fs verdict=%s' % (
      prop, a.tier, a.seed, evals, len(keys), json.dumps(clauses), json.dumps(events),
      time.time() - t0, {0: 'held', 1: 'VIOLATED', 2: 'inconclusive'}[rc]))
  if a.v:
    print('slowest', sorted(walls, reverse=True)[:8])
    for w, (pr, op, lp) in enumerate(procs[:1]):
      with open(lp, 'rb') as f:
        print(f.read()[-2000:].decode(errors='replace'))
  import shutil
  shutil.rmtree(tmp, ignore_errors=True)
  return rc
