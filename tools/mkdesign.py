"""Writes DESIGN.md from the fixed text below, properties.jsonl, the rules' docstrings, tools/design/*.txt and seeded/*/meta.json."""
import json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
from sa.check import registry
D = {}
cur = None
for l in open(os.path.join(ROOT, 'tools', 'design', 'properties.txt')):
    if l.startswith('## '):
        cur = l[3:].strip()
        D[cur] = []
    elif cur:
        D[cur].append(l.rstrip())
reg = registry()
out = [open(os.path.join(ROOT, 'tools', 'design', 'head.txt')).read()]
for l in open(os.path.join(ROOT, 'properties.jsonl')):
    p = json.loads(l)
    i = p['id']
    out.append('### %s %s\n' % (i, p['title']))
    if i in reg:
        out.append('Rule (`sa/rules`): ' + ' '.join((reg[i].__doc__ or '').split()) + '\n')
    x = '\n'.join(D.get(i, [])).strip()
    if x:
        out.append(x + '\n')
    if i in reg:
        out.append('Over: %s. Why tests cannot: %s\n' % (p['quantifier']['text'].rstrip('.'), p['why_tests_cant']))
out.append(open(os.path.join(ROOT, 'tools', 'design', 'tail.txt')).read())
out.append('\n## Planted bugs and the checks that catch them\n')
out.append('| planted bug | property | what it needs | caught by |\n|---|---|---|---|')
d = os.path.join(ROOT, 'seeded')
for n in sorted(os.listdir(d)):
    m = json.load(open(os.path.join(d, n, 'meta.json')))
    c = m.get('caught_by') or m['property']
    out.append('| %s | %s | %s | %s |' % (n, m['property'], ' '.join(m['needs'].split()), c))
out.append('')
open(os.path.join(ROOT, 'DESIGN.md'), 'w').write('\n'.join(out))
