"""Writes /verif/MANIFEST.json from plan.py."""
import json, os, sys
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, root)
import plan
NA = {}
checks = []
for k, p in plan.PLAN.items():
    t = 'contracts on the real functions discharged by z3/cvc5, with a bounded differential stand-in for the rest' \
        if p['level'] == 'proof' else 'bounded stand-in for contracts: differential search on the real code'
    checks.append({'property': k, 'quick_cmd': './check.sh %s' % k, 'thorough_cmd': './check.sh %s' % k, 'technique': t,
                   'level': p['level'], 'level_note': p['level_note']})
json.dump({'version': 1, 'setup_cmd': './setup.sh', 'checks': checks,
           'not_applicable': [{'property': k, 'reason': v} for k, v in NA.items()],
           'notes': 'See DESIGN.md. Contracts live in fv/contracts, the verifier in fv, bounded stand-ins in harness.'},
          open(os.path.join(root, 'MANIFEST.json'), 'w'), indent=1)
