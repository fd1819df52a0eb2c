#!/usr/bin/env python3
"""Rewrite the table of planted bugs in DESIGN.md.
usage: gen_seed_table.py [LOGDIR]   (LOGDIR: out_<seed>.log of runs of the property's check against each seed)
What caught each seed is remembered in tools/caught.json."""
import glob, json, os, re, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
C = os.path.join(V, 'tools', 'caught.json')
caught = json.load(open(C)) if os.path.exists(C) else {}
if len(sys.argv) > 1:
    for f in glob.glob(sys.argv[1] + '/out_*.log'):
        s = os.path.basename(f)[4:-4]
        t = open(f, errors='replace').read()
        caught[s] = [x for x in dict.fromkeys(re.findall(r'VIOLATION property=\S+ replay=\S+/[A-Z]\d\d-(\S+)\.json', t))]
ms = {os.path.basename(os.path.dirname(m)): json.load(open(m)) for m in sorted(glob.glob(V + '/seeded/*/meta.json'))}
caught = {s: caught.get(s, []) for s in ms}
json.dump(caught, open(C, 'w'), indent=0, sort_keys=True)
rows = ['| planted bug | what it breaks | needs | caught by (`%s`) |' % 'property-trace', '|---|---|---|---|']
for s, m in ms.items():
    c = caught[s]
    rows.append('| %s | %s | %s | %s |' % (s, m['what_it_breaks'].replace('|', '/'), m['needs'].replace('|', '/'),
        ', '.join('`%s`' % x for x in c[:3]) + (' …' if len(c) > 3 else '') if c else '**missed**'))
d = open(V + '/DESIGN.md').read()
a, b = '<!-- seeds -->\n', '<!-- /seeds -->'
i, j = d.index(a) + len(a), d.index(b)
open(V + '/DESIGN.md', 'w').write(d[:i] + '\n'.join(rows) + '\n' + d[j:])
print(len(ms), 'seeds', sum(not v for v in caught.values()), 'not caught')
