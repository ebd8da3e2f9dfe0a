"""Writes MANIFEST.json from properties.jsonl and the check modules present."""
import ast, json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = {'model_checking': 'explicit-state model checking of the implementation (breadth-first search over operation histories against a reference model)',
        'exploration': 'bounded exhaustive enumeration of inputs/configurations of the implementation against a reference model'}
NA = {}
checks, na = [], []
for line in open(os.path.join(V, 'properties.jsonl')):
  p = json.loads(line)
  f = os.path.join(V, 'checks', p['id'] + '.py')
  if not os.path.exists(f):
    na.append({'property': p['id'], 'reason': NA.get(p['id'], 'no check built yet')})
    continue
  d = {}
  for n in ast.parse(open(f).read()).body:
    if isinstance(n, ast.Assign) and n.targets[0].id in ('LEVEL', 'BOUND', 'ASSUME', 'NOTE', 'TECHNIQUE'):
      d[n.targets[0].id] = ast.literal_eval(n.value)
  checks.append({
      'property': p['id'], 'quick_cmd': 'bash run.sh %s --tier quick' % p['id'],
      'thorough_cmd': 'bash run.sh %s --tier thorough' % p['id'],
      'technique': d.get('TECHNIQUE', TECH[d['LEVEL']]), 'level': d['LEVEL'],
      'level_note': 'Holds for every case within the bound: %s. Assumes: %s.' % (d['BOUND']['quick'], '; '.join(d['ASSUME']))})
m = {'version': 1, 'setup_cmd': 'bash setup.sh', 'checks': checks, 'not_applicable': na,
     'notes': 'All checks run the code of /repo directly (no build products); no hooks were added to /repo.'}
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not claimed')
