"""Shared runner: seeded parallel case search with shrinking-free replay records."""
import json
import multiprocessing as mp
import os
import random
import signal
import sys
import time
import traceback
import warnings


class Fail(Exception):
    def __init__(self, msg, **info):
        Exception.__init__(self, msg)
        self.info = info


def seed():
    try:
        return int(os.environ.get('VERIF_SEED', '1'))
    except ValueError:
        return 1


def _init():
    warnings.simplefilter('ignore')
    import logging
    logging.getLogger('featuretools').setLevel(logging.CRITICAL)
    logging.getLogger('featuretools.entityset').setLevel(logging.CRITICAL)


def _one(args):
    fn, s, cfg = args
    warnings.simplefilter('ignore')
    rng = random.Random(s)
    import numpy as np
    np.random.seed(s % (2 ** 31))
    global LAST
    LAST = {}
    old = signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(150)
    try:
        nt = fn(rng, cfg)
        return (s, 'ok', nt, None)
    except Fail as e:
        return (s, 'known' if e.info.get('finding') else 'fail', str(e), e.info)
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)
        inside = any(f.filename.startswith(REPO + '/featuretools/') for f in tb)
        where = [f for f in tb if f.filename.startswith(REPO)][-1:] or tb[-1:]
        return (s, 'fail' if inside else 'error',
                'raised %s: %s (%s:%s %s)' % (type(e).__name__, str(e)[:300], where[0].filename, where[0].lineno, where[0].name),
                dict(LAST, traceback=traceback.format_exc()[-3000:]))
    finally:
        signal.alarm(0)
        signal.signal(signal.SIGALRM, old)


LAST = {}


def note(**kw):
    """remember the current input, for the report of an unexpected exception"""
    LAST.update(kw)


def _alarm(*a):
    raise TimeoutError('no answer within 150 s')


REPO = os.environ.get('FT_REPO', '/repo')


def _chunk(a):
    fn, seeds, cfg, end = a
    out = []
    for s in seeds:
        if time.time() > end:
            break
        r = _one((fn, s, cfg))
        out.append(r)
        if r[1] == 'fail' and len([x for x in out if x[1] == 'fail']) >= 2:
            break
    return out


def search(fn, budget, cfg=None, nproc=8, maxcases=10 ** 6, salt=''):
    """run fn(rng, cfg) on seeded cases until the budget ends.  fn returns a
    hashable key of the case when it was non-trivial, None otherwise; raises
    Fail on a property violation."""
    end = time.time() + budget
    base = random.Random('%s-%s-%s' % (fn.__name__, seed(), salt)).randrange(2 ** 40)
    import gc
    gc.freeze()
    stats = {'evaluations': 0, 'keys': set(), 'fails': [], 'errors': [], 'known': {}}
    ctx = mp.get_context('fork')
    step = 6
    with ctx.Pool(nproc, initializer=_init) as pool:
        def gen():
            i = 0
            while i < maxcases and time.time() < end:
                yield (fn, [base + i + j for j in range(step)], cfg, end)
                i += step
        for res in pool.imap_unordered(_chunk, gen()):
            for s, st, msg, info in res:
                stats['evaluations'] += 1
                if st == 'ok':
                    if msg is not None:
                        stats['keys'].add(msg)
                elif st == 'known':
                    stats['known'].setdefault(info['finding'], []).append({'seed': s, 'what': msg, 'info': info, 'case': fn.__name__})
                elif st == 'fail':
                    stats['fails'].append({'seed': s, 'what': msg, 'info': info, 'case': fn.__name__})
                else:
                    stats['errors'].append({'seed': s, 'what': msg, 'info': info, 'case': fn.__name__})
            if len(stats['fails']) >= 3 or time.time() > end:
                pool.terminate()
                break
    return stats
