import sys, os, importlib, json, random
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import common
mod, fn, budget = sys.argv[1], sys.argv[2], float(sys.argv[3])
cfg = json.loads(sys.argv[4]) if len(sys.argv) > 4 else {}
m = importlib.import_module(mod)
if os.environ.get('CASE'):
    print(common._one((getattr(m, fn), int(os.environ['CASE']), cfg)))
else:
    st = common.search(getattr(m, fn), budget, cfg)
    print(st['evaluations'], len(st['keys']), 'fails', len(st['fails']), 'errors', len(st['errors']))
    for f in st['fails'][:3]: print(f['seed'], f['what']); print('   ', {k: v for k, v in f['info'].items() if k != 'model'})
    from collections import Counter
    print(Counter(e['what'][:150] for e in st['errors']).most_common(8))
    for e in st['errors'][:2]: print(e['seed'], e['info']['traceback'][-1500:])
