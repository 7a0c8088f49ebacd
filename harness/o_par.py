"""Parallel computation: the same matrix for every number of workers (C05).
Runs as its own process (the worker processes need a clean parent): one cluster, several cases."""
import logging
import os
import random
import subprocess
import sys
import json
import time
import warnings

HERE = os.path.dirname(os.path.abspath(__file__))


def run_one(s, cluster):
    import featuretools as ft
    import o_cfm
    from o_cfm2 import same_frames, uses_cut
    from common import Fail
    rng = random.Random(s)
    for _ in range(20):
        m, es, target, feats = o_cfm.make_case(rng, {})
        if feats:
            break
    reqs = o_cfm.pick_cutoffs(rng, m, target, n=rng.randint(5, 8))
    kw = {'cutoff_time_in_index': rng.random() < 0.8}
    if rng.random() < 0.5:
        kw['include_cutoff_time'] = False
    if rng.random() < 0.35 and not m.numeric_time:
        kw['training_window'] = '%d hours' % rng.randint(1, 6)
    if rng.random() < 0.3 and not m.numeric_time:
        kw['approximate'] = '%d hours' % rng.randint(1, 4)
        feats = [f for f in feats if not uses_cut(f)]
        if not feats:
            return {'status': 'skip'}
    kw['cutoff_time'] = o_cfm.cut_df(m, reqs, extra={'lab': list(range(len(reqs)))})
    if rng.random() < 0.2 and 'approximate' not in kw:
        # one cutoff time for a list of instances
        t = reqs[0][1]
        ids = list(dict.fromkeys(i for i, _ in reqs))
        kw['cutoff_time'] = o_cfm.cut_df(m, [(ids[0], t)])['time'].iloc[0]
        kw['instance_ids'] = ids
    a = ft.calculate_feature_matrix(feats, es, **kw)
    cs = rng.choice([1, 2, 3, None, 0.4])
    dk = {'cluster': cluster} if cluster is not None else {'diagnostics_port': None}
    if cluster is None and cs is None:
        cs = 2
    b = ft.calculate_feature_matrix(feats, es, n_jobs=2, chunk_size=cs, dask_kwargs=dk, **kw)
    info = o_cfm.info_of(m, feats, reqs, target=target, chunk_size=cs, kwargs=str(sorted((k, str(v)) for k, v in kw.items())))
    try:
        same_frames(a, b, 'n_jobs=2, chunk_size=%s' % cs, info)
        if list(a.columns) != list(b.columns):
            raise Fail('columns %s against %s' % (list(a.columns), list(b.columns)), **info)
    except Fail as e:
        return {'status': 'fail', 'what': str(e), 'info': e.info}
    return {'status': 'ok', 'key': str([str(f) for f in feats]) + str(len(reqs))}


def main(s, budget):
    warnings.simplefilter('ignore')
    for n in ('distributed', 'distributed.scheduler', 'tornado', 'distributed.core', 'distributed.worker', 'distributed.nanny', 'distributed.comm'):
        logging.getLogger(n).setLevel(logging.CRITICAL + 1)
    from distributed import LocalCluster
    rng = random.Random(s)
    keys = []
    end = time.time() + budget
    bad = None
    if rng.random() < 0.15:
        # workers in processes of their own, created by featuretools
        r = run_one(rng.randrange(2 ** 30), None)
        if r['status'] == 'fail':
            bad = r
    else:
        with LocalCluster(n_workers=2, threads_per_worker=1, processes=False, dashboard_address=None) as cl:
            while time.time() < end and bad is None:
                cs = rng.randrange(2 ** 30)
                r = run_one(cs, cl.scheduler.address)
                if r['status'] == 'fail':
                    bad = r
                elif r['status'] == 'ok':
                    keys.append(r['key'])
    print('RESULT ' + json.dumps(bad or {'status': 'ok', 'key': ' / '.join(keys[:3]), 'n': len(keys)}, default=str))
    sys.stdout.flush()
    os._exit(0)


def case_njobs(rng, cfg):
    from common import Fail
    s = rng.randrange(2 ** 30)
    env = dict(os.environ)
    env['PYTHONPATH'] = os.pathsep.join([os.environ.get('FT_REPO', '/repo'), HERE])
    try:
        p = subprocess.run([sys.executable, '-W', 'ignore', os.path.join(HERE, 'o_par.py'), str(s), str(cfg.get('seconds', 7))], env=env, cwd='/',
                           stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=100)
    except subprocess.TimeoutExpired:
        return None         # starting a cluster can stall on a loaded machine; says nothing about the code
    out = [x for x in p.stdout.decode().splitlines() if x.startswith('RESULT ')]
    if not out:
        err = p.stderr.decode()[-2500:]
        if 'featuretools/' in err and 'Traceback' in err and 'distributed' not in err.split('Traceback')[-1]:
            raise Fail('parallel computation raised: %s' % err.strip().splitlines()[-1][:300], stderr=err, case_seed=s)
        return None
    d = json.loads(out[0][7:])
    if d['status'] == 'fail':
        raise Fail(d['what'], case_seed=s, **d['info'])
    return d['key']


if __name__ == '__main__':
    main(int(sys.argv[1]), float(sys.argv[2]))
