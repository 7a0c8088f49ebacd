"""Runs the check of one property: contracts first, bounded stand-in second.

usage: check.py <property id> [replay-file]
"""
import importlib
import json
import multiprocessing as mp
import os
import subprocess
import sys
import time
import traceback
import warnings

warnings.simplefilter('ignore')
HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('FT_REPO', '/repo')
for p in (REPO, os.path.join(HERE, 'fv'), os.path.join(HERE, 'harness')):
    sys.path.insert(0, p)
TIER = os.environ.get('VERIF_TIER', 'quick')
T0 = time.time()


def seed():
    try:
        return int(os.environ.get('VERIF_SEED', '1'))
    except ValueError:
        return 1


def _verify_one(a):
    prop, i, end = a
    m = importlib.import_module('contracts.' + prop.lower())
    from prove import verify
    c = m.CONTRACTS[i]
    c = c() if isinstance(c, type) else c
    try:
        return verify(c, deadline=end)
    except BaseException as e:     # never let the engine decide by crashing
        return {'contract': c.name(), 'function': c.target, 'obligations': {}, 'paths': 0, 'inlined': [],
                'contracts_used': [], 'models_used': [], 'by': {}, 'covers': {}, 'solver_s': 0, 'wall_s': 0,
                'error': 'engine: %s: %s' % (type(e).__name__, e)}


def run_contracts(prop, limit):
    try:
        m = importlib.import_module('contracts.' + prop.lower())
    except ModuleNotFoundError as e:
        if 'contracts.' in str(e):
            return []
        raise
    n = len(m.CONTRACTS)
    if not n:
        return []
    import gc
    gc.freeze()
    end = time.time() + limit
    ctx = mp.get_context('fork')

    def lost(i, why):
        c = m.CONTRACTS[i]
        c = c() if isinstance(c, type) else c
        return {'contract': c.name(), 'function': c.target, 'obligations': {}, 'paths': 0, 'inlined': [], 'contracts_used': [],
                'models_used': [], 'by': {}, 'covers': {}, 'solver_s': 0, 'wall_s': limit, 'error': why}

    def work(i, conn):
        conn.send(_verify_one((prop, i, end)))
        conn.close()
    # one process per contract: a solver that crashes takes only its contract along, which is then tried again
    out, todo, live = {}, [(i, 0) for i in range(n)], {}
    while todo or live:
        while todo and len(live) < 8:
            i, k = todo.pop(0)
            a, b = ctx.Pipe(False)
            p = ctx.Process(target=work, args=(i, b), daemon=True)
            p.start()
            b.close()
            live[i] = (p, a, k)
        for i, (p, a, k) in list(live.items()):
            if a.poll():
                try:
                    out[i] = a.recv()
                except EOFError:
                    if k < 2:
                        todo.append((i, k + 1))
                    else:
                        out[i] = lost(i, 'the solver process crashed')
            elif time.time() > end + 20:
                p.kill()
                out[i] = lost(i, 'time limit')
            else:
                continue
            p.join(5)
            a.close()
            del live[i]
        time.sleep(0.02)
    return [out[i] for i in range(n)]


class Contracts(object):
    """the contract run, in a process of its own beside the bounded stand-in"""
    def __init__(self, prop, limit):
        ctx = mp.get_context('fork')
        self.a, b = ctx.Pipe(False)
        self.t = time.time()

        def work():
            os.setsid()
            self.a.close()
            try:
                r = run_contracts(prop, limit)
            except Exception as e:
                r = 'contract run failed: %s' % e
            b.send((r, time.time() - self.t))
            b.close()
        self.p = ctx.Process(target=work)
        self.p.start()
        b.close()

    def get(self, wait=None):
        try:
            if wait is not None and not self.a.poll(wait):
                try:
                    os.killpg(self.p.pid, 9)
                except OSError:
                    pass
                return 'contract run stopped: a failing input was found first', time.time() - self.t
            r = self.a.recv()
        except EOFError:
            r = ('contract run failed: its process ended', time.time() - self.t)
        self.p.join(30)
        return r


def expected_contracts():
    """obligations that are discharged on the unchanged tree (committed baseline)"""
    try:
        return json.load(open(os.path.join(HERE, 'baseline.json')))
    except (IOError, ValueError):
        return {}


def known():
    try:
        return json.load(open(os.path.join(HERE, 'known_findings.json')))['findings']
    except IOError:
        return []


def jsonable(o):
    try:
        return json.loads(json.dumps(o, default=str))
    except (TypeError, ValueError):
        return str(o)[:5000]


def write(path, d):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    tmp = path + '.tmp'
    with open(tmp, 'w') as f:
        json.dump(jsonable(d), f, indent=1)
        f.write('\n')
    os.replace(tmp, path)


def main(prop):
    import plan
    P = plan.PLAN[prop]
    findings = [k for k in known() if k['property'] == prop]
    quick = TIER != 'thorough'
    # ---- bounded stand-in / counterexample search on the real code, beside the contracts
    run = Contracts(prop, 300 if quick else 1200)
    import common
    t = time.time()
    cases = []
    fails, errors, seen_known = [], [], {}
    listed = set(k['id'] for k in findings)

    def look(factor=1.0, salt=''):
        for spec in P['cases']:
            mod, fn, share = spec[:3]
            cfg = spec[3] if len(spec) > 3 else {}
            budget = share * (1.0 if quick else P.get('thorough_factor', 8.0))
            budget *= factor
            try:
                f = getattr(importlib.import_module(mod), fn)
                st = common.search(f, budget, cfg, salt=prop + salt, maxcases=(10 ** 7))
            except Exception as e:
                print('note: %s.%s could not run: %s' % (mod, fn, e))
                cases.append({'case': '%s.%s' % (mod, fn), 'error': str(e)[:500], 'evaluations': 0, 'nontrivial': 0})
                continue
            keys = sorted(map(str, st['keys']))
            cases.append({'case': '%s.%s' % (mod, fn), 'cfg': cfg, 'evaluations': st['evaluations'],
                          'nontrivial': len(keys), 'samples': keys[:2] + keys[-1:], 'budget_s': budget,
                          'harness_errors': len(st['errors']), 'errors': [e['what'][:300] for e in st['errors'][:3]]})
            for x in st['fails']:
                x['module'], x['cfg'] = mod, cfg
                fails.append(x)
            errors.extend(st['errors'])
            for kid, xs in st['known'].items():
                if kid in listed:
                    seen_known[kid] = seen_known.get(kid, 0) + len(xs)
                else:
                    for x in xs:
                        x['module'], x['cfg'] = mod, cfg
                        fails.append(x)
            if fails:
                break
    look()
    wall_h = time.time() - t
    # ---- contracts
    # with a failing input at hand, the names of the failed obligations are not waited for long
    res, wall_c = run.get(40 if fails and quick else None)
    if isinstance(res, str):
        print('note: ' + res)
        res = []
    base = expected_contracts().get(prop, {})
    total = disch = 0
    refuted, undecided = [], []
    for r in res:
        for nm, o in r['obligations'].items():
            total += 1
            if o['status'] == 'discharged':
                disch += 1
            elif o['status'] == 'refuted':
                refuted.append((r, nm, o))
            else:
                undecided.append('%s.%s: %s' % (r['contract'], nm, (o['detail'] or [r['error']])[0]))
        if r['error']:
            undecided.append('%s: %s' % (r['contract'], r['error']))
            missing = [x for x in base.get(r['contract'], []) if x not in r['obligations']]
            total += len(missing)
    if refuted and quick and not fails:
        # an input that shows it, from other seeds
        t = time.time()
        look(0.5, ' again')
        wall_h += time.time() - t
    # ---- known findings
    for k in findings:
        try:
            mod, fn = k['probe'].split('.')
            msg = getattr(importlib.import_module(mod), fn)()
        except Exception as e:
            msg = 'probe raised %s: %s' % (type(e).__name__, e)
        if msg:
            print('KNOWN-FINDING: property=%s %s (%s)' % (prop, k['what'], k['id']))
    new = fails
    # ---- evidence
    evals = sum(c['evaluations'] for c in cases)
    nontriv = sum(c['nontrivial'] for c in cases)
    cov = {
        'obligations': total, 'discharged': disch,
        'checker_cmd': 'cd /verif && ./check.sh %s' % prop,
        'trusted_base': P.get('trusted', []) + plan.TRUSTED,
        'functions_under_contract': [{'function': r['function'], 'contract': r['contract'], 'paths': r['paths'],
                                      'obligations': {n: o['status'] for n, o in r['obligations'].items()},
                                      'inlined_callees': r['inlined'], 'callee_contracts_used': r['contracts_used'],
                                      'dependency_models_assumed': r['models_used'],
                                      'discharged_by': r['by'], 'reachability_covers': r['covers'],
                                      'solver_s': r['solver_s'], 'wall_s': r.get('wall_s'), 'error': r['error']} for r in res],
        'solver_s': round(sum(r['solver_s'] for r in res), 2),
        'undecided': undecided[:20],
        'refuted': ['%s.%s' % (r['contract'], n) for r, n, o in refuted],
        'proved_part': P.get('proved', ''),
        'bounded_part': P.get('bounded', ''),
        'evaluations': evals, 'distinct_nontrivial': nontriv,
        'rule': P.get('rule', plan.RULE),
        'samples': [s for c in cases for s in c.get('samples', [])][:6],
        'bounded_cases': [{k: v for k, v in c.items() if k != 'samples'} for c in cases],
        'known_findings_seen': seen_known,
        'contracts_wall_s': round(wall_c, 1), 'bounded_wall_s': round(wall_h, 1),
        'explanation': P.get('level_note', ''),
    }
    ev = {'property': prop, 'tier': 'thorough' if not quick else 'quick', 'seed': seed(), 'level': P['level'],
          'coverage': cov, 'wall_s': round(time.time() - T0, 1)}
    rp = os.path.join(HERE, 'replays', '%s.json' % prop)
    code = 0
    if new:
        x = new[0]
        write(rp, {'property': prop, 'kind': 'input', 'what': x['what'], 'module': x['module'], 'case': x['case'],
                   'seed': x['seed'], 'cfg': x['cfg'], 'details': x['info'],
                   'failed_obligations': ['%s.%s' % (r['contract'], n) for r, n, o in refuted],
                   'rerun': '/verif/check.sh %s --replay %s' % (prop, rp)})
        print('violated: %s' % x['what'][:1000])
        print('VIOLATION property=%s replay=%s' % (prop, rp))
        code = 1
    elif refuted:
        write(rp, {'property': prop, 'kind': 'obligation',
                   'failed_obligations': [{'function': r['function'], 'contract': r['contract'], 'obligation': n,
                                           'verifier_output': o['detail']} for r, n, o in refuted],
                   'rerun': '/verif/check.sh %s --replay %s' % (prop, rp)})
        for r, n, o in refuted:
            print('obligation failed: %s of %s' % (n, r['function']))
        print('VIOLATION property=%s replay=%s no-failing-input-found' % (prop, rp))
        code = 1
    elif not res and not evals or (evals == 0 and disch == 0):
        print('nothing could be checked')
        code = 2
    ev['violations'] = code
    write(os.path.join(HERE, 'evidence', '%s.json' % prop), ev)
    print('%s: %d/%d obligations discharged over %d functions (%.1f s), %d bounded cases (%d non-trivial, %.1f s), exit %d'
          % (prop, disch, total, len(res), wall_c, evals, nontriv, wall_h, code))
    if undecided:
        print('undecided: ' + '; '.join(undecided)[:1500])
    if errors:
        print('harness errors: %d, e.g. %s' % (len(errors), errors[0]['what'][:300]))
    return code


def replay(prop, path):
    import common
    d = json.load(open(path))
    if d['kind'] == 'obligation':
        for o in d['failed_obligations']:
            print(json.dumps(o, indent=1))
        for r in run_contracts(prop, 600):
            for n, o in r['obligations'].items():
                if o['status'] != 'discharged':
                    print(r['function'], n, o['status'], json.dumps(o['detail'])[:2000])
        return 0
    f = getattr(importlib.import_module(d['module']), d['case'])
    r = common._one((f, d['seed'], d['cfg']))
    print(r[1], r[2])
    print(json.dumps(jsonable(r[3]), indent=1))
    return 1 if r[1] in ('fail', 'known') else 0


if __name__ == '__main__':
    if len(sys.argv) > 3 and sys.argv[2] == '--replay':
        sys.exit(replay(sys.argv[1], sys.argv[3]))
    sys.stdout.reconfigure(line_buffering=True)
    c = main(sys.argv[1])
    sys.stdout.flush()
    os._exit(c)
