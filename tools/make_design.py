"""Regenerates DESIGN.md from tools/design_intro.md, properties.jsonl, the RULE /
CLAUSES / ASSUMPTIONS of each check, known_findings.jsonl, tools/detection.json
(which check caught which planted bug) and seeded/*/meta.json."""
import ast, glob, json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
def const(tree, name):
  for n in tree.body:
    if isinstance(n, ast.Assign) and getattr(n.targets[0], 'id', '') == name:
      return ast.literal_eval(n.value)
out = [open(os.path.join(V, 'tools', 'design_intro.md')).read().rstrip(), '', '## Properties', '']
na = {x['property']: x['reason'] for x in json.load(open(os.path.join(V, 'MANIFEST.json')))['not_applicable']}
for l in open(os.path.join(V, 'properties.jsonl')):
  p = json.loads(l)
  out += ['### %s %s' % (p['id'], p['title']), '']
  f = os.path.join(V, 'checks', p['id'].lower() + '.py')
  if not os.path.exists(f):
    out += ['Not claimed: ' + na.get(p['id'], ''), '']
    continue
  t = ast.parse(open(f).read())
  out += ['- **Watched**: ' + p['anchors']['mechanism'][0]['name'] + ' (' + ', '.join(os.path.relpath(x, 'tensorflow_model_optimization/python/core') for x in p['anchors']['files']) + ')',
          '- **Workload and oracle**: ' + const(t, 'RULE') + '.',
          '- **Monitors** (each must observe something, or the verdict is inconclusive): ' + ', '.join('`%s`' % c for c in const(t, 'CLAUSES')) + '.',
          '- **Beyond the tests because**: ' + p['why_tests_cant'] + '.']
  for a in const(t, 'ASSUMPTIONS') or []:
    out.append('- **Assumes**: ' + a + '.')
  d = ast.get_docstring(t) or ''
  if '\n\n' in d:
    out.append('- **Notes**: ' + ' '.join(d.split('\n\n', 1)[1].split()))
  out.append('')
out += ['## Genuine defects', '', 'Repaired by `fix:` commits in /repo (`known_findings.jsonl`, status fixed):', '']
seen = {}
for l in open(os.path.join(V, 'known_findings.jsonl')):
  d = json.loads(l)
  if d['status'] == 'fixed':
    seen.setdefault((d['commit'], d['what'].split(' ', 3)[3]), []).append(d['property'])
for (c, w), ps in seen.items():
  out.append('- %s `%s` %s' % (', '.join(ps), c, w))
out += ['', 'Recorded, not repaired (printed as KNOWN-FINDING; keyed by mechanism):', '']
for l in open(os.path.join(V, 'known_findings.jsonl')):
  d = json.loads(l)
  if d['status'] == 'known':
    out.append('- %s `%s`: %s' % (d['property'], d['mechanism'], d['what']))
det = os.path.join(V, 'tools', 'detection.json')
det = json.load(open(det)) if os.path.exists(det) else {}
out += ['', '## Planted bugs and what catches them', '', 'Quick tier, seed 1, on a scratch copy (`seeded/<id>/`).', '',
        '| bug | property | needs | caught by |', '|---|---|---|---|']
for m in sorted(glob.glob(os.path.join(V, 'seeded', '*', 'meta.json'))):
  i = os.path.basename(os.path.dirname(m)); d = json.load(open(m))
  out.append('| %s | %s | %s | %s |' % (i, d['property'], str(d['needs']).replace('|', '/'), det.get(i, 'not run')))
out += ['', open(os.path.join(V, 'tools', 'design_tail.md')).read().rstrip(), '']
open(os.path.join(V, 'DESIGN.md'), 'w').write('\n'.join(out))
