"""Writes DESIGN.md from tools/design.txt and the BOUND/ASSUME constants of the checks (so that they stay in step)."""
import ast, glob, json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def consts(f):
  out = {}
  for n in ast.parse(open(f).read()).body:
    if isinstance(n, ast.Assign) and getattr(n.targets[0], 'id', '') in ('BOUND', 'ASSUME', 'RULE', 'LEVEL'):
      try:
        out[n.targets[0].id] = ast.literal_eval(n.value)
      except ValueError:
        out[n.targets[0].id] = 'model_checking' if 'model' in ast.unparse(n.value) else ast.unparse(n.value)
  return out


def main():
  titles = {}
  for l in open(V + '/properties.jsonl'):
    d = json.loads(l)
    titles[d['id']] = d['title']
  src = open(V + '/tools/design.txt').read()

  def sub(m):
    i = m.group(1)
    c = consts('%s/checks/%s.py' % (V, i))
    s = '### %s %s\n\n%s\n\n' % (i, titles[i], m.group(2).strip())
    s += '- *unit*: %s\n' % c['RULE']
    s += '- *bounds, quick*: %s\n- *bounds, thorough*: %s\n' % (c['BOUND']['quick'], c['BOUND']['thorough'])
    s += '- *assumptions*: %s\n\n' % '; '.join(c['ASSUME'])
    return s
  src = re.sub(r'^@(\w\d\d)\n(.*?)(?=^@|^## )', sub, src, flags=re.S | re.M)
  rows = []
  for k in ('seeded', 'planted'):
    for f in sorted(glob.glob('%s/%s/*/meta.json' % (V, k))):
      d = json.load(open(f))
      rows.append('| %s/%s | %s | %s | %s |' % (k, os.path.basename(os.path.dirname(f)), d['property'], d['what_it_breaks'], d['needs']))
  src = src.replace('@@BUGS', '\n'.join(rows))
  open(V + '/DESIGN.md', 'w').write(src)


if __name__ == '__main__':
  main()
