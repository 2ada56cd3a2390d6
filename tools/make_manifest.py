"""Regenerates /verif/MANIFEST.json from properties.jsonl and checks/."""
import json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl'))]
checks, na = [], []
for p in props:
  f = os.path.join(V, 'checks', p['id'].lower() + '.py')
  if os.path.exists(f):
    src = open(f).read()
    tech = re.search(r"^TECHNIQUE = ['\"](.*)['\"]$", src, re.M)
    checks.append(dict(
        property=p['id'], quick_cmd='python3 run.py %s --tier quick' % p['id'],
        thorough_cmd='python3 run.py %s --tier thorough' % p['id'],
        technique=tech.group(1) if tech else 'runtime monitoring: generated and hostile workloads on the real code, judged by online monitors against an independent reference',
        level='exploration',
        level_note='bounded random exploration of inputs, configurations and histories; seeds via VERIF_SEED; counts in the evidence file'))
  else:
    na.append(dict(property=p['id'], reason='no monitor built yet'))
m = dict(version=1, setup_cmd='/opt/venv/bin/python -c "import tensorflow, numpy"', checks=checks, not_applicable=na,
         notes='All checks import the working tree of /repo directly (pure Python); no build step and no hooks in /repo are needed.')
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks,', len(na), 'not applicable')
