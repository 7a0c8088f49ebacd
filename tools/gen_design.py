"""Writes /verif/DESIGN.md from design_text.py, plan.py and the contract modules (run with check.sh's environment: see tools/gen_design.sh)."""
import importlib, json, os, sys
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
for p in ('tools', 'fv', 'harness', ''):
    sys.path.insert(0, os.path.join(root, p))
import plan
from design_text import *
out = [HEAD]
titles = {}
for l in open(os.path.join(root, 'properties.jsonl')):
    d = json.loads(l)
    titles[d['id']] = d['title']
n = 0
for k, t in titles.items():
    how, bounded = PROPS[k]
    out.append('### %s %s\n' % (k, t))
    cs = []
    if os.path.exists(os.path.join(root, 'fv', 'contracts', k.lower() + '.py')):
        for c in importlib.import_module('contracts.' + k.lower()).CONTRACTS:
            c = c() if isinstance(c, type) else c
            cs.append((c.target, c.name()))
    if how:
        out.append('*How:* %s' % how)
    if cs:
        n += len(cs)
        out.append('*Contracts:* ' + '; '.join('`%s`%s' % (a.replace('featuretools.', ''), ' (%s)' % b if b not in a else '') for a, b in cs) + '.')
    else:
        out.append('*Contracts:* none within reach yet; level "exploration".')
    out.append('*Bounded:* %s Cases (seconds at quick; thorough is 8 times that): %s.\n' % (bounded, ', '.join('`%s.%s` %s' % tuple(c[:3]) for c in plan.PLAN[k]['cases'])))
out.append(TAIL)
out.append(SEEDED)
res = json.load(open(os.path.join(root, 'tools', 'seed_results.json')))
# planted_more: as seeded, set aside so that a whole vcheck fits the time left
for d in ('seeded', 'planted_more'):
    sd = os.path.join(root, d)
    for i in sorted(os.listdir(sd)) if os.path.isdir(sd) else []:
        m = json.load(open(os.path.join(sd, i, 'meta.json')))
        out.append('* `%s/%s` (%s): %s Needs %s. %s' % (d, i, m['property'], m['what_it_breaks'], m['needs'], res.get(i, 'Not run yet.')))
open(os.path.join(root, 'DESIGN.md'), 'w').write('\n'.join(out) + '\n')
print(n, 'contracts')
