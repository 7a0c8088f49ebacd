import sys, os, json
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.path.insert(0, os.environ.get('FT_REPO', '/repo'))
from prove import *
def run(prop, deadline=None):
    m = importlib.import_module('contracts.' + prop.lower())
    return [verify(c() if isinstance(c, type) else c) for c in m.CONTRACTS]
if __name__ == '__main__':
    for p in sys.argv[1:]:
        only = None
        if ':' in p: p, only = p.split(':')
        m = importlib.import_module('contracts.' + p.lower())
        for c in m.CONTRACTS:
            c = c() if isinstance(c, type) else c
            if only and only not in c.name(): continue
            r = verify(c)
            print('==', r['contract'], 'paths', r['paths'], r['wall_s'], 's', 'ERR ' + r['error'] if r['error'] else '')
            for k, v in r['obligations'].items():
                print('   ', v['status'], k, v['instances'], json.dumps(v['detail'])[:1500] if v['status'] != 'discharged' else '')
            if os.environ.get('FV_V'): print('   inlined', r['inlined'], r['contracts_used'], r['covers'])
