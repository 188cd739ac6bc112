"""Fill the generated tables of DESIGN.md (section 2 and 4) from tools/meta.py, qsa/checks and seeded/."""
import json
import os
import re
import sys
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path[:0] = [HERE, VERIF]
import meta
from qsa.checks import texts

src = open(os.path.join(VERIF, 'tools', 'DESIGN.in.md'), encoding='utf8').read()
o = []
for p in meta.PROPS:
    o.append('* **%s %s.** ' % (p['id'], p['title']) + ('not applicable: ' + p['na'] if p.get('na') else texts.text(p['id'])))
s = ['| change | property | caught by | needs |', '|---|---|---|---|']
res = {}
rp = os.path.join(VERIF, 'tools', 'seed_results.json')
if os.path.exists(rp):
    res = json.load(open(rp))
sd = os.path.join(VERIF, 'seeded')
for n in sorted(os.listdir(sd)):
    m = json.load(open(os.path.join(sd, n, 'meta.json')))
    s.append('| %s | %s | %s | %s |' % (n, m['property'], res.get(n, '?'), m['needs']))
src = src.replace('@@PROPS@@', '\n'.join(o)).replace('@@SEEDS@@', '\n'.join(s))
open(os.path.join(VERIF, 'DESIGN.md'), 'w', encoding='utf8').write(src)
