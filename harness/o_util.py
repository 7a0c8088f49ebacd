"""U01 (Timedelta) and U02 (temporal cutoffs, cutoff-time tables), F01's version comparison."""
import calendar
import datetime as dtm
import json
import warnings

import numpy as np
import pandas as pd

import featuretools as ft
from featuretools.entityset.timedelta import Timedelta
from featuretools.utils.wrangle import _check_timedelta
from common import Fail, note

NAMES = {'ms': 'Milliseconds', 's': 'Seconds', 'm': 'Minutes', 'h': 'Hours', 'd': 'Days', 'w': 'Weeks',
         'mo': 'Months', 'Y': 'Years', 'o': 'Observations'}
SECS = {'ms': .001, 's': 1, 'm': 60, 'h': 3600, 'd': 86400, 'w': 7 * 86400}


def spellings(u):
    full = NAMES[u]
    out = [u, full, full.lower(), full.upper(), full[:-1], full[:-1].lower(), full[:-1].upper()]
    if u in 'msdhow' and len(u) == 1:
        out.append(u.upper())
    if u == 'mo':
        out += ['MO', 'Mo']
    if u == 'ms':
        out += ['MS', 'Ms']
    return out


def span(t, times, sign=1):
    """t moved by calendar months/years and exact units (the documented meaning)"""
    months = times.get('mo', 0) + 12 * times.get('Y', 0)
    y, mth = t.year, t.month
    if months:
        k = y * 12 + (mth - 1) + sign * months
        y, mth = divmod(k, 12)
        mth += 1
        t = t.replace(year=y, month=mth, day=min(t.day, calendar.monthrange(y, mth)[1]))
    ms = sum(int(round(v * SECS[u] * 1000)) for u, v in times.items() if u in SECS)
    return t + sign * pd.Timedelta(ms, 'ms')


def case_timedelta(rng, cfg):
    u = rng.choice(list(NAMES))
    v = rng.choice([0, 1, 2, 3, 10, 45, 100])
    sp = rng.choice(spellings(u))
    form = rng.choice(['unit', 'string', 'dict', 'pandas', 'offset', 'multi', 'reject', 'check'])
    t = pd.Timestamp(rng.randint(1995, 2030), rng.randint(1, 12), 1) + pd.Timedelta(rng.randint(0, 30 * 86400), 's')
    info = {'form': form, 'unit': sp, 'value': v, 'time': str(t)}
    note(**info)
    times = {u: v}
    if form == 'reject':
        bad = rng.choice(['', 'abc', '5', '1 lightyear', '-3 d', 'd 3', '3 days ago', [1], {}.keys(), object(), 3.5, 7, ('d', 3), '3 x', '2 parsecs'])
        info['input'] = repr(bad)
        try:
            r = _check_timedelta(bad)
        except Exception:
            r = None
        else:
            raise Fail('unrecognisable input accepted: %s' % r.__dict__, **info)
        try:
            r = Timedelta(2, rng.choice(['lightyears', 'x', 'q', 'parsec', '']))
        except Exception:
            return 'reject'
        raise Fail('unrecognisable unit accepted: %s' % r.__dict__, **info)
    if form == 'unit':
        td = Timedelta(v, sp)
    elif form == 'string':
        td = Timedelta('%d%s%s' % (v, rng.choice([' ', '', '  ']), sp))
    elif form == 'check':
        td = _check_timedelta('%d %s' % (v, sp))
    elif form == 'dict':
        td = Timedelta({sp: v})
    elif form == 'pandas':
        if u not in SECS:
            return None
        td = _check_timedelta(pd.Timedelta(v, u if u != 'm' else 'min'))
        if list(td.times) != ['s'] or abs(td.times['s'] - v * SECS[u]) > 1e-9:
            raise Fail('pandas timedelta became %s' % td.times, **info)
        times = td.times
    elif form == 'offset':
        if u in ('o', 'ms'):
            return None
        td = _check_timedelta(pd.DateOffset(**{NAMES[u].lower(): v}))
    else:
        units = rng.sample([x for x in NAMES if x != 'o'], rng.randint(2, 4))
        times = {x: rng.choice([1, 2, 3, 20]) for x in units}
        named = {rng.choice(spellings(x)): n for x, n in times.items()}
        info['times'] = str(named)
        td = Timedelta(named) if rng.random() < .7 or 'ms' in times else _check_timedelta(pd.DateOffset(**{NAMES[x].lower(): n for x, n in times.items()}))
    if td.times != times and {k: float(x) for k, x in td.times.items()} != {k: float(x) for k, x in times.items()}:
        raise Fail('units/values are %s, expected %s' % (td.times, times), **info)
    if not td == Timedelta(dict(times)) or not Timedelta(dict(times)) == td:
        raise Fail('not equal to the canonical timedelta', **info)
    back = Timedelta.from_dictionary(json.loads(json.dumps(td.get_arguments())))
    if not back == td or td.times != back.times:
        raise Fail('round trip through get_arguments gives %s' % back.times, **info)
    if _check_timedelta(td) is not td or _check_timedelta(None) is not None:
        raise Fail('_check_timedelta changes a Timedelta or None', **info)
    o = dict(times)
    k = rng.choice(list(o))
    o[k] += rng.choice([0, 1])
    if rng.random() < .3:
        o[rng.choice(['d', 'h'])] = 1
    if (td == Timedelta(dict(o))) != (o == dict(times)) or (Timedelta(dict(o)) == td) != (o == dict(times)):
        raise Fail('equality with %s is wrong' % o, **info)
    if td == times or td == 'x' or td == v:
        raise Fail('equal to something that is not a timedelta', **info)
    if times == {u: v} and u == 'o':
        for f in (lambda: t + td, lambda: t - td):
            try:
                r = f()
            except Exception:
                continue
            raise Fail('observations were added to a time: %s' % r, **info)
        if (-td).times != {'o': -v} or td.has_no_observations() or td.is_absolute():
            raise Fail('negation/classification of observations', **info)
        return '%s|%s|%s' % (form, sp, v)
    if not td.has_no_observations() or td.is_absolute() != all(x in SECS for x in times):
        raise Fail('classification is wrong', **info)
    if td.has_multiple_units() != (len(times) > 1) or set(td.get_units()) != set(times):
        raise Fail('units are wrong', **info)
    for tt in (t, back, -(-td)):
        pass
    for d in (td, back, -(-td)):
        if t + d != span(t, times) or t - d != span(t, times, -1):
            raise Fail('t+d is %s and t-d is %s; expected %s and %s' % (t + d, t - d, span(t, times), span(t, times, -1)), **info)
    neg = -td
    if neg.times != {k: -x for k, x in td.times.items()}:
        raise Fail('negation gives %s' % neg.times, **info)
    if t + neg != t - td or t - neg != t + td:
        raise Fail('adding the negation is not subtracting', **info)
    if td.is_absolute() and ((t + td) - td != t or (t - td) + td != t):
        raise Fail('adding and subtracting are not inverse', **info)
    if td.times != times and form != 'pandas':
        raise Fail('the timedelta changed while being used', **info)
    return '%s|%s|%s|%s' % (form, sp, v, sorted(times.items()))


# ------------------------------------------------------------------- U02
def case_cutoffs(rng, cfg):
    n = rng.randint(1, 4)
    ids = [rng.choice([0, 3, 'a', 'bb', 7]) for _ in range(n)]
    ends = [pd.Timestamp(rng.randint(2000, 2020), rng.randint(1, 12), rng.randint(1, 28), rng.randint(0, 23)) for _ in range(n)]
    mode = rng.choice(['wn', 'ws', 'ns', 'all'])
    w = pd.Timedelta(rng.choice([1, 3, 24, 36]), 'h')
    if rng.random() < .3:
        w = rng.choice(['3h', '1d', '90min'])
    W = pd.Timedelta(w)
    k = rng.randint(2, 5)
    starts = [e - pd.Timedelta(rng.choice([0, 3, 24, 50, 72, 73]), 'h') for e in ends]
    info = {'ids': str(ids), 'ends': str(ends), 'mode': mode, 'w': str(w), 'k': k, 'starts': str(starts)}
    note(**info)
    wrap = rng.choice([list, np.array, pd.Series])
    a, b = (wrap(ids) if wrap is not np.array else np.array(ids, dtype=object)), (pd.Series(ends) if wrap is pd.Series else list(ends))
    st = list(starts)
    if mode == 'all':
        try:
            r = ft.make_temporal_cutoffs(a, b, window_size=w, num_windows=k, start=st)
        except ValueError:
            return 'all'
        raise Fail('all three arguments accepted', **info)
    exp = []
    for i, e, s in zip(ids, ends, starts):
        if mode == 'wn':
            if rng.random() < 0:
                pass
            exp += [(i, e - (k - 1 - j) * W) for j in range(k)]
        elif mode == 'ws':
            x = s
            while x <= e:
                exp.append((i, x))
                x = x + W
        else:
            step = (e - s) / (k - 1)
            if step == pd.Timedelta(0):
                return None
            exp += [(i, e - (k - 1 - j) * step) for j in range(k)]
    kw = {'wn': dict(window_size=w, num_windows=k), 'ws': dict(window_size=w, start=st),
          'ns': dict(num_windows=k, start=st)}[mode]
    r = ft.make_temporal_cutoffs(a, b, **kw)
    got = list(zip(r['instance_id'], r['time']))
    if list(r.index) != list(range(len(exp))):
        raise Fail('index of the result is not 0..n-1', **info)
    if [g[0] for g in got] != [x[0] for x in exp] or len(got) != len(exp):
        raise Fail('instances are %s, expected %s' % ([g[0] for g in got], [x[0] for x in exp]), **info)
    for (i, g), (_, x) in zip(got, exp):
        if abs(g - x) > pd.Timedelta(1, 'us'):
            raise Fail('times are %s, expected %s' % (got, exp), **info)
    if list(starts) != st or (isinstance(b, list) and b != ends):
        raise Fail('the arguments were changed', **info)
    return '%s|%d|%d' % (mode, n, len(exp))


def case_cutoff_table(rng, cfg):
    from featuretools.computational_backends import utils as cbu
    num = rng.random() < .4
    n = rng.randint(1, 5)
    idx = rng.choice(['pid', 'instance_id'])
    ti = rng.choice(['when', 'time', None])
    ids = list(range(n))
    T = (lambda i: i) if num else (lambda i: pd.Timestamp('2020-01-01') + pd.Timedelta(i, 'D'))
    es = ft.EntitySet('e')
    df = pd.DataFrame({idx: ids, 'v': [1.] * n})
    other = pd.DataFrame({'oid': [1, 2], 'ot': [T(0), T(1)]})
    vts = {'ot': ft.variable_types.NumericTimeIndex if num else ft.variable_types.DatetimeTimeIndex}
    es.entity_from_dataframe('O', other, index='oid', time_index='ot', variable_types=vts)
    if ti:
        df[ti] = [T(i) for i in range(n)]
    es.entity_from_dataframe('P', df, index=idx, time_index=ti)
    feats = [ft.Feature(es['P']['v'])]
    req = [(rng.choice(ids), rng.randint(0, 6)) for _ in range(rng.randint(1, 5))]
    if rng.random() < .5:
        req = list(dict.fromkeys(req))
    dup = len(set(req)) < len(req)
    idcols = rng.choice([['instance_id'], [idx], ['instance_id', idx], []])
    tcols = rng.choice([['time'], [ti] if ti else ['time'], ['time'] + ([ti] if ti else []), [], ['time'], ['time']])
    idcols, tcols = list(dict.fromkeys(idcols)), list(dict.fromkeys(tcols))
    wrong = rng.random() < .25
    TT = T if not wrong else ((lambda i: 'x%d' % i) if rng.random() < .5 else ((lambda i: pd.Timestamp('2020-01-01') + pd.Timedelta(i, 'D')) if num else (lambda i: i)))
    cols = {}
    for c in idcols:
        cols[c] = [r[0] for r in req]
    for c in tcols:
        cols[c] = [TT(r[1]) for r in req]
    order = list(cols)
    rng.shuffle(order)
    extra = rng.random() < .5
    ct = pd.DataFrame({c: cols[c] for c in order}, index=rng.sample(range(100), len(req)) if rng.random() < .5 else None)
    if extra:
        ct['label'] = ['l%d' % i for i in range(len(req))]
    ok = len(idcols) == 1 and len(tcols) == 1 and not dup and not wrong
    info = {'table': ct.to_dict('list'), 'index': idx, 'time_index': ti, 'numeric': num, 'expected': ok}
    note(**info)
    if not len(ct.columns):
        return None
    keep = ct.copy()
    try:
        in_index = ok or rng.random() < .5
        fm = ft.calculate_feature_matrix(feats, es, cutoff_time=ct, cutoff_time_in_index=in_index)
    except Exception as e:
        if ok:
            raise Fail('a well-formed cutoff table was rejected: %s %s' % (type(e).__name__, e), **info)
        if dup and len(idcols) == 1 and len(tcols) == 1 and not wrong and 'uplicate' not in str(e):
            raise Fail('repeated (instance, time) requests are not refused as such: %s %s' % (type(e).__name__, e), **info)
        fm = None
    if fm is not None and not ok:
        raise Fail('a malformed cutoff table was accepted', **info)
    if not ct.equals(keep) or list(ct.index) != list(keep.index):
        raise Fail('the cutoff table was changed', **info)
    if fm is not None:
        got = [(a, b) for a, b in zip(fm.index.get_level_values(0), fm.index.get_level_values(1))]
        if got != [(i, T(t)) for i, t in req] or (extra and list(fm['label']) != list(ct['label'])):
            raise Fail('rows are %s, expected %s' % (got, req), **info)
    try:
        ft.calculate_feature_matrix(feats, es, cutoff_time=[T(1), T(2)])
    except Exception:
        pass
    else:
        raise Fail('a list of cutoff times was accepted', **info)
    v = T(5)
    bad = 'x' if rng.random() < .5 else (pd.Timestamp('2020-01-06') if num else 5)
    try:
        fm1 = ft.calculate_feature_matrix(feats, es, cutoff_time=v)
    except Exception as e:
        raise Fail('a single cutoff time was rejected: %s' % e, **info)
    try:
        ft.calculate_feature_matrix(feats, es, cutoff_time=bad)
    except Exception:
        pass
    else:
        raise Fail('a cutoff time of the wrong type was accepted: %r' % bad, **info)
    return '%s|%s|%s|%s|%s' % (idcols, tcols, dup, wrong, num)


# ------------------------------------------------------------------- F01 (version)
def case_schema(rng, cfg):
    import logging
    from featuretools.utils import gen_utils
    import featuretools.entityset.serialize as ser
    import featuretools.feature_base.features_serializer as fser
    which = rng.choice(['entityset', 'features'])
    cur = (ser if which == 'entityset' else fser).SCHEMA_VERSION
    c = [int(x) for x in cur.split('.')]
    kind = rng.choice(['near', 'rand', 'len'])
    if kind == 'near':
        s = list(c)
        i = rng.randrange(len(s))
        s[i] = max(0, s[i] + rng.choice([-1, 0, 1, 1, 9, 10, 95, 100]))
    elif kind == 'rand':
        s = [rng.choice([0, 1, 2, 5, 6, 9, 10, 12, 100]) for _ in c]
    else:
        s = c[:rng.randint(1, len(c))] if rng.random() < .5 else c + [rng.choice([0, 1, 12])]
    vs = '.'.join(map(str, s))
    info = {'saved': vs, 'current': cur, 'of': which}
    note(**info)
    n = max(len(s), len(c))
    pad = lambda x: x + [0] * (n - len(x))
    newer = pad(s) > pad(c)
    older_major = s[0] < c[0]
    obj = {'schema_version': vs} if which == 'entityset' else type('D', (), {'features_dict': {'schema_version': vs}})()
    logged = []

    class H(logging.Handler):
        def emit(self, r):
            logged.append(r.getMessage())
    lg = logging.getLogger('featuretools.utils')
    h = H()
    lg.addHandler(h)
    old = lg.level
    lg.setLevel(logging.WARNING)
    dis = lg.disabled
    lg.disabled = False
    root = logging.getLogger('featuretools')
    rl, rp = root.level, lg.propagate
    lg.propagate = False
    try:
        with warnings.catch_warnings(record=True) as w:
            warnings.simplefilter('always')
            gen_utils.check_schema_version(obj, which)
    finally:
        lg.removeHandler(h)
        lg.setLevel(old)
        lg.disabled = dis
        lg.propagate = rp
    warned = any('greater than the latest supported' in str(x.message) for x in w)
    if warned != newer:
        raise Fail('saved version %s against %s: newer-version warning %s' % (vs, cur, 'given' if warned else 'missing'), **info)
    if bool(logged) != older_major:
        raise Fail('saved version %s against %s: outdated-version message %s' % (vs, cur, logged), **info)
    return vs
