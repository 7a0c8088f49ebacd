"""P01 / P02: every standard primitive against an independent scalar definition."""
import datetime as dtm
import math
import statistics
from collections import Counter

import numpy as np
import pandas as pd

import featuretools.primitives as P
from common import Fail, note

NAN = float('nan')
SECS = {'years': 31540000., 'months': 2628000., 'days': 86400., 'hours': 3600., 'minutes': 60., 'seconds': 1.,
        'milliseconds': .001, 'nanoseconds': 1e-9}


def miss(v):
    return v is None or v is pd.NaT or (isinstance(v, float) and v != v) or (isinstance(v, np.floating) and np.isnan(v))


# ---- value generators: lists with None for missing
def num(rng, n, zero=True, missing=True):
    out = []
    for _ in range(n):
        if missing and rng.random() < .2:
            out.append(None)
        else:
            out.append(rng.choice([rng.randint(-4, 4), rng.randint(-4, 4), rng.randint(-40, 40) / 4., 1e6, -3]))
    return out


def integer(rng, n):
    return [rng.randint(-4, 5) for _ in range(n)]


def boolean(rng, n):
    return [rng.random() < .5 for _ in range(n)]


def boolean_m(rng, n):
    return [None if rng.random() < .25 else rng.random() < .5 for _ in range(n)]


def cat(rng, n):
    return [None if rng.random() < .2 else rng.choice(['a', 'b', 'c', 'dd', 'A']) for _ in range(n)]


def text(rng, n):
    return [None if rng.random() < .2 else rng.choice(['', ' ', 'one', 'two words', 'a  b ', 'Ünïcode ☃', 'x\ty', 'line\nbreak', 'three little words'])
            for _ in range(n)]


def when(rng, n):
    out = []
    for _ in range(n):
        if rng.random() < .2:
            out.append(None)
        else:
            k = rng.random()
            base = rng.choice([dtm.datetime(2019, 12, 28), dtm.datetime(2016, 2, 27), dtm.datetime(2021, 1, 1), dtm.datetime(1999, 6, 15)])
            out.append(base + dtm.timedelta(days=rng.randint(0, 8), seconds=rng.choice([0, 0, 1, 59, 60, 3599, 86399, rng.randint(0, 86399)]),
                                            microseconds=0 if k < .8 else rng.randint(0, 999999)))
    return out


def when_sorted(rng, n):
    x = [v for v in when(rng, n * 3) if v is not None][:n]
    while len(x) < n:
        x.append(dtm.datetime(2020, 1, 1))
    return sorted(x)


def latlong(rng, n):
    return [None if rng.random() < .2 else (rng.randint(-900, 900) / 10., rng.randint(-1800, 1800) / 10.) for _ in range(n)]


def series(vals, kind, rng, index):
    if kind in ('num', 'numz'):
        if all(v is not None and isinstance(v, int) for v in vals) and rng.random() < .5 and vals:
            return pd.Series(vals, index=index, dtype='int64')
        return pd.Series([NAN if v is None else float(v) for v in vals], index=index, dtype='float64')
    if kind == 'int':
        return pd.Series(vals, index=index, dtype='int64')
    if kind == 'bool':
        return pd.Series(vals, index=index, dtype='bool')
    if kind == 'boolm':
        if any(v is None for v in vals):
            return pd.Series([NAN if v is None else v for v in vals], index=index, dtype='object')
        return pd.Series(vals, index=index, dtype='bool')
    if kind == 'when':
        return pd.Series([pd.NaT if v is None else pd.Timestamp(v) for v in vals], index=index, dtype='datetime64[ns]')
    if kind == 'cat':
        s = pd.Series([NAN if v is None else v for v in vals], index=index, dtype='object')
        return s.astype('category') if rng.random() < .4 else s
    if kind == 'obj':
        return pd.Series([NAN if v is None else v for v in vals], index=index, dtype='object')
    if kind == 'latlong':
        s = pd.Series([None] * len(vals), index=index, dtype='object')
        return pd.Series([NAN if v is None else v for v in vals], index=index, dtype='object')
    raise ValueError(kind)


GEN = {'num': num, 'int': integer, 'bool': boolean, 'boolm': boolean_m, 'cat': cat, 'obj': text, 'when': when,
       'latlong': latlong, 'sorted': when_sorted}


def fdiv(a, b):
    if a is None or b is None:
        return NAN
    a, b = float(a), float(b)
    if b == 0:
        return NAN if a == 0 else math.copysign(math.inf, a) * math.copysign(1, b)
    return a / b


def fmod(a, b, ints):
    if a is None or b is None:
        return NAN
    if b == 0:
        return None if ints else NAN
    return float(a) - math.floor(float(a) / float(b)) * float(b)


def lift(f):
    return lambda *a: NAN if any(x is None for x in a) else f(*a)


def el(f):
    """element-wise reference"""
    return lambda *cols: [f(*v) for v in zip(*cols)]


def cmp_(f):
    return el(lambda a, b: False if a is None or b is None else f(a, b))


def scal(f):
    return lambda v: el(lambda a: f(a, v))


def cums(f, start):
    def g(col):
        out, acc = [], start
        for v in col:
            if v is None:
                out.append(NAN)
            else:
                acc = v if acc is None else f(acc, v)
                out.append(acc)
        return out
    return g


def cummean(col):
    out, acc = [], 0.
    for i, v in enumerate(col):
        if v is None:
            out.append(NAN)
        else:
            acc += v
            out.append(acc / (i + 1))
    return out


def percentile(col):
    vals = [v for v in col if v is not None]
    return [NAN if v is None else (sum(1 for w in vals if w < v) + (sum(1 for w in vals if w == v) + 1) / 2.) / len(vals) for v in col]


def diff(col):
    return [NAN if i == 0 or v is None or col[i - 1] is None else v - col[i - 1] for i, v in enumerate(col)]


def tdiff(unit):
    return lambda col: [NAN if i == 0 or v is None or col[i - 1] is None else (v - col[i - 1]).total_seconds() / SECS[unit]
                        for i, v in enumerate(col)]


def haversine(unit):
    R = {'miles': 3958.7613, 'kilometers': 6371.0088}[unit]

    def f(p, q):
        if p is None or q is None:
            return NAN
        a1, o1, a2, o2 = map(math.radians, (p[0], p[1], q[0], q[1]))
        # central angle by the (numerically robust) vector formula
        v1 = (math.cos(a1) * math.cos(o1), math.cos(a1) * math.sin(o1), math.sin(a1))
        v2 = (math.cos(a2) * math.cos(o2), math.cos(a2) * math.sin(o2), math.sin(a2))
        cr = (v1[1] * v2[2] - v1[2] * v2[1], v1[2] * v2[0] - v1[0] * v2[2], v1[0] * v2[1] - v1[1] * v2[0])
        return R * math.atan2(math.sqrt(sum(c * c for c in cr)), sum(a * b for a, b in zip(v1, v2)))
    return el(f)


def transforms(rng):
    """(primitive, input kinds, reference, kwargs)"""
    v = rng.choice([0, 2, -3, 1.5, 1, 7])
    unit = rng.choice(list(SECS))
    t = dtm.datetime(2020, 1, 5, 12, 30) + dtm.timedelta(seconds=rng.randint(-10 ** 7, 10 ** 7))
    T = {'time': pd.Timestamp(t)}
    nz = v if v else 2
    L = rng.sample([0, 1, 2, -3, 2.5, 'a', 'dd'], rng.randint(0, 4))
    k2 = rng.choice(['num', 'int'])
    tn = rng.choice(['num', 'when', 'num'])
    word = rng.choice(['a', 'dd', 'zzz'])
    return [
        (P.IsNull(), [rng.choice(['num', 'cat', 'obj', 'when'])], el(lambda x: x is None), {}),
        (P.Absolute(), ['num'], el(lift(abs)), {}),
        (P.TimeSincePrevious(unit=rng.choice([unit, unit.upper()])), ['when'], tdiff(unit), {}),
        (P.Day(), ['when'], el(lift(lambda x: x.day)), {}),
        (P.Hour(), ['when'], el(lift(lambda x: x.hour)), {}),
        (P.Second(), ['when'], el(lift(lambda x: x.second)), {}),
        (P.Minute(), ['when'], el(lift(lambda x: x.minute)), {}),
        (P.Week(), ['when'], el(lift(lambda x: x.isocalendar()[1])), {}),
        (P.Month(), ['when'], el(lift(lambda x: x.month)), {}),
        (P.Year(), ['when'], el(lift(lambda x: x.year)), {}),
        (P.IsWeekend(), ['when'], el(lambda x: False if x is None else x.isoweekday() in (6, 7)), {}),
        (P.Weekday(), ['when'], el(lift(lambda x: x.isoweekday() - 1)), {}),
        (P.NumCharacters(), ['obj'], el(lambda x: 0 if x is None else len(x)), {}),
        (P.NumWords(), ['obj'], el(lambda x: 1 if x is None else 1 + sum(1 for c in x if c == ' ')), {}),
        (P.TimeSince(unit=unit), ['when'], el(lift(lambda x: (t - x).total_seconds() / SECS[unit])), T),
        (P.IsIn(list_of_outputs=L), [rng.choice(['int', 'cat'])], el(lambda x: any(x == y and type(x) is not str or x is y or x == y for y in L)), {}),
        (P.IsIn(), ['int'], el(lambda x: False), {}),
        (P.Diff(), ['num'], diff, {}),
        (P.Negate(), ['num'], el(lift(lambda x: -x)), {}),
        (P.Not(), ['bool'], el(lambda x: not x), {}),
        (P.Percentile(), ['num'], percentile, {}),
        (P.Latitude(), ['latlong'], el(lift(lambda x: x[0])), {}),
        (P.Longitude(), ['latlong'], el(lift(lambda x: x[1])), {}),
        (P.Haversine(), ['latlong', 'latlong'], haversine('miles'), {}),
        (P.Haversine(unit='kilometers'), ['latlong', 'latlong'], haversine('kilometers'), {}),
        (P.Age(), ['when'], el(lift(lambda x: (t - x).days / 365.)), T),
        (P.CumSum(), ['num'], cums(lambda a, b: a + b, 0.), {}),
        (P.CumMin(), ['num'], cums(min, None), {}),
        (P.CumMax(), ['num'], cums(max, None), {}),
        (P.CumMean(), ['num'], cummean, {}),
        (P.CumCount(), [rng.choice(['cat', 'num'])], lambda c: list(range(1, len(c) + 1)), {}),
        (P.GreaterThan(), [tn, tn], cmp_(lambda a, b: a > b), {}),
        (P.GreaterThanEqualTo(), [tn, tn], cmp_(lambda a, b: a >= b), {}),
        (P.LessThan(), [tn, tn], cmp_(lambda a, b: a < b), {}),
        (P.LessThanEqualTo(), [tn, tn], cmp_(lambda a, b: a <= b), {}),
        (P.Equal(), [k2, k2], cmp_(lambda a, b: a == b), {}),
        (P.NotEqual(), [k2, k2], el(lambda a, b: True if a is None or b is None else a != b), {}),
        (P.Equal(), ['cat', 'cat'], cmp_(lambda a, b: a == b), {}),
        (P.NotEqual(), ['cat', 'cat'], el(lambda a, b: True if a is None or b is None else a != b), {}),
        (P.GreaterThanScalar(v), ['num'], el(lambda a: a is not None and a > v), {}),
        (P.GreaterThanEqualToScalar(v), ['num'], el(lambda a: a is not None and a >= v), {}),
        (P.LessThanScalar(v), ['num'], el(lambda a: a is not None and a < v), {}),
        (P.LessThanEqualToScalar(v), ['num'], el(lambda a: a is not None and a <= v), {}),
        (P.EqualScalar(v), ['num'], el(lambda a: a is not None and a == v), {}),
        (P.NotEqualScalar(v), ['num'], el(lambda a: a is None or a != v), {}),
        (P.EqualScalar(word), ['cat'], el(lambda a: a == word), {}),
        (P.NotEqualScalar(word), ['cat'], el(lambda a: a != word), {}),
        (P.AddNumeric(), ['num', 'num'], el(lift(lambda a, b: a + b)), {}),
        (P.SubtractNumeric(commutative=rng.random() < .5), ['num', 'num'], el(lift(lambda a, b: a - b)), {}),
        (P.MultiplyNumeric(), ['num', rng.choice(['num', 'bool'])], el(lift(lambda a, b: a * b)), {}),
        (P.DivideNumeric(commutative=rng.random() < .5), ['num', 'num'], el(fdiv), {}),
        (P.ModuloNumeric(), ['num', 'num'], el(lambda a, b: fmod(a, b, False)), {}),
        (P.AddNumericScalar(v), ['num'], el(lift(lambda a: a + v)), {}),
        (P.SubtractNumericScalar(v), ['num'], el(lift(lambda a: a - v)), {}),
        (P.ScalarSubtractNumericFeature(v), ['num'], el(lift(lambda a: v - a)), {}),
        (P.MultiplyNumericScalar(v), ['num'], el(lift(lambda a: a * v)), {}),
        (P.DivideNumericScalar(nz), ['num'], el(lambda a: fdiv(a, nz)), {}),
        (P.DivideByFeature(v), ['num'], el(lambda a: fdiv(v, a)), {}),
        (P.ModuloNumericScalar(nz), ['num'], el(lambda a: fmod(a, nz, False)), {}),
        (P.ModuloByFeature(v), ['num'], el(lambda a: fmod(v, a, False)), {}),
        (P.MultiplyBoolean(), ['bool', 'bool'], el(lambda a, b: a and b), {}),
        (P.And(), ['bool', 'bool'], el(lambda a, b: a and b), {}),
        (P.Or(), ['bool', 'bool'], el(lambda a, b: a or b), {}),
    ]


def same(a, b):
    if isinstance(b, float) and b in (math.inf, -math.inf):
        return not miss(a) and float(a) == b
    if miss(b):
        return miss(a) or a is pd.NA
    if miss(a) or a is pd.NA:
        return False
    if isinstance(b, (bool, np.bool_)):
        return bool(a) == b and a in (0, 1)
    if isinstance(b, (int, float, np.number)):
        return abs(float(a) - float(b)) <= 1e-6 * max(1., abs(float(b)))
    return a == b


def idx(rng, n):
    k = rng.random()
    if k < .3:
        return list(range(n))
    if k < .6:
        return rng.sample(range(100, 200), n)
    return ['i%d' % j for j in rng.sample(range(50), n)]


def case_transform(rng, cfg):
    ts = transforms(rng)
    i = rng.randrange(len(ts))
    prim, kinds, ref, kw = ts[i]
    n = rng.choice([1, 2, 3, 5, 8])
    cols = [GEN[k](rng, n) for k in kinds]
    index = idx(rng, n)
    ints = any(k == 'int' for k in kinds)
    ss = [series(c, k, rng, index) for c, k in zip(cols, kinds)]
    info = {'primitive': type(prim).__name__, 'arguments': str(prim.get_arguments()), 'inputs': str([list(s) for s in ss]),
            'dtypes': str([str(s.dtype) for s in ss]), 'index': str(index), 'kwargs': str(kw)}
    note(**info)
    if isinstance(prim, (P.DivideByFeature, P.ModuloByFeature, P.DivideNumeric, P.ModuloNumeric, P.ModuloNumericScalar)):
        ss = [s.astype('float64') for s in ss]
    before = [s.copy() for s in ss]
    args = ss if rng.random() < .8 or 'when' in kinds or any(str(s.dtype) == 'category' for s in ss) else [list(s) for s in ss]
    with np.errstate(all='ignore'):
        got = prim(*args, **kw) if rng.random() < .5 or args is not ss else prim.get_function()(*ss, **kw)
    exp = ref(*cols)
    g = list(np.asarray(got)) if not isinstance(got, pd.Series) else [got.iloc[j] for j in range(len(got))]
    if len(g) != len(exp) or not all(same(a, b) for a, b in zip(g, exp)):
        raise Fail('%s(%s) on %s gives %s, expected %s' % (info['primitive'], info['arguments'], info['inputs'], g, exp), **info)
    if isinstance(got, pd.Series) and args is ss and list(got.index) != list(index):
        raise Fail('row labels changed: %s' % list(got.index), **info)
    for a, b in zip(ss, before):
        if not a.equals(b):
            raise Fail('the input was changed', **info)
    return '%d|%s' % (i, info['inputs'])


# ------------------------------------------------------------------- P02
def present(c):
    return [v for v in c if v is not None]


def skew(c):
    x = present(c)
    n = len(x)
    if n < 3:
        return NAN
    m = sum(x) / n
    m2 = sum((v - m) ** 2 for v in x)
    m3 = sum((v - m) ** 3 for v in x)
    if m2 < 1e-12:
        return 0.
    return n * math.sqrt(n - 1) / (n - 2) * m3 / m2 ** 1.5


def std(c):
    x = present(c)
    return statistics.pstdev(x) if x else NAN


def mode(c):
    x = Counter(present(c))
    return min((v for v in x if x[v] == max(x.values())), default=NAN)


def entropy(dropna, base):
    def f(c):
        x = Counter('missing' if v is None else v for v in c if not (dropna and v is None))
        n = sum(x.values())
        if not n:
            return 0.
        return -sum(k / n * math.log(k / n) for k in x.values()) / (math.log(base) if base else 1)
    return f


def between(unit):
    def f(c):
        x = present(c)
        return NAN if len(x) < 2 else (max(x) - min(x)).total_seconds() / (len(x) - 1) / SECS[unit]
    return f


def trend(y, x):
    p = [(b, a) for a, b in zip(y, x) if a is not None and b is not None]
    if len(p) <= 2:
        return NAN
    ep = dtm.datetime(1970, 1, 1)
    s = [(b - ep).total_seconds() for b, _ in p]
    unit = [d for d in (86400, 3600, 60, 1) if int(s[0]) % d == 0][0]
    s = [v / unit for v in s]
    mx, my = sum(s) / len(s), sum(a for _, a in p) / len(p)
    if len(set(b for b, _ in p)) == 1:
        return 0.
    return sum((u - mx) * (a - my) for u, (_, a) in zip(s, p)) / sum((u - mx) ** 2 for u in s)


def aggs(rng):
    unit = rng.choice(list(SECS))
    t = dtm.datetime(2022, 1, 5, 12, 30) + dtm.timedelta(seconds=rng.randint(0, 10 ** 7))
    T = {'time': pd.Timestamp(t)}
    S = sum
    base = rng.choice([None, 2, 10])
    dn = rng.random() < .5
    n = rng.randint(1, 4)
    bm = rng.choice(['bool', 'boolm'])
    anyk = rng.choice(['num', 'cat', 'when'])
    return [
        (P.Count(), [rng.choice(['num', 'cat', 'int'])], lambda c: len(present(c)), {}),
        (P.Sum(), ['num'], lambda c: S(present(c)), {}),
        (P.Mean(), ['num'], lambda c: S(present(c)) / len(present(c)) if present(c) else NAN, {}),
        (P.Mean(skipna=False), ['num'], lambda c: NAN if None in c else S(c) / len(c), {}),
        (P.Mode(), [rng.choice(['cat', 'int', 'num'])], mode, {}),
        (P.Min(), ['num'], lambda c: min(present(c), default=NAN), {}),
        (P.Max(), ['num'], lambda c: max(present(c), default=NAN), {}),
        (P.NumUnique(), [rng.choice(['cat', 'num'])], lambda c: len(set(present(c))), {}),
        (P.NumTrue(), [bm], lambda c: S(1 for v in c if v), {}),
        (P.PercentTrue(), [bm], lambda c: S(1 for v in c if v) / len(c), {}),
        (P.NMostCommon(n=n), [rng.choice(['cat', 'num'])], ('n', n), {}),
        (P.AvgTimeBetween(unit=unit), ['when'], between(unit), {}),
        (P.Median(), ['num'], lambda c: statistics.median(present(c)) if present(c) else NAN, {}),
        (P.Skew(), ['num'], skew, {}),
        (P.Std(), ['num'], std, {}),
        (P.First(), [anyk], lambda c: c[0], {}),
        (P.Last(), [anyk], lambda c: c[-1], {}),
        (P.Any(), ['bool'], lambda c: any(c), {}),
        (P.All(), ['bool'], lambda c: all(c), {}),
        (P.TimeSinceLast(unit=unit), ['sorted'], lambda c: (t - c[-1]).total_seconds() / SECS[unit], T),
        (P.TimeSinceFirst(unit=unit), ['sorted'], lambda c: (t - c[0]).total_seconds() / SECS[unit], T),
        (P.Trend(), ['num', 'when'], trend, {}),
        (P.Trend(), ['num', 'sorted'], trend, {}),
        (P.Entropy(dropna=dn, base=base), ['cat'], entropy(dn, base), {}),
    ]


def case_agg(rng, cfg):
    ts = aggs(rng)
    i = rng.randrange(len(ts))
    prim, kinds, ref, kw = ts[i]
    n = rng.choice([1, 2, 3, 4, 6, 9])
    cols = [GEN[k](rng, n) for k in kinds]
    if kinds == ['num', 'when'] or kinds == ['num', 'sorted']:
        cols[0] = [None if v is None else (v if abs(v) < 1000 else 5) for v in cols[0]]
        cols[1] = [None if v is None else v.replace(microsecond=0) for v in cols[1]]
    if isinstance(prim, P.Skew):
        cols[0] = [None if v is None else (v if abs(v) < 1000 else 11) for v in cols[0]]
    if isinstance(prim, P.AvgTimeBetween) or 'sorted' in kinds:
        cols[-1] = [None if v is None else v.replace(microsecond=0) for v in cols[-1]]
    index = idx(rng, n)
    ss = [series(c, {'sorted': 'when'}.get(k, k), rng, index) for c, k in zip(cols, kinds)]
    info = {'primitive': type(prim).__name__, 'arguments': str(prim.get_arguments()), 'inputs': str([list(s) for s in ss]),
            'dtypes': str([str(s.dtype) for s in ss]), 'index': str(index), 'kwargs': str(kw)}
    note(**info)
    before = [s.copy() for s in ss]
    with np.errstate(all='ignore'):
        got = prim(*ss, **kw) if rng.random() < .5 else prim.get_function()(*ss, **kw)
    if isinstance(ref, tuple):
        k = ref[1]
        cnt = Counter(present(cols[0]))
        g = list(got)
        val = [v for v in g if not miss(v)]
        want = sorted(cnt.values(), reverse=True)[:k]
        if len(g) != k or [miss(v) for v in g] != [False] * len(val) + [True] * (k - len(val)) or len(set(val)) != len(val) or \
                [cnt.get(v, -1) for v in val] != want:
            raise Fail('the %d most common of %s are given as %s' % (k, cols[0], g), **info)
    else:
        exp = ref(*cols)
        if exp is None:
            exp = NAN
        tol_ok = same(got, exp)
        if not tol_ok and isinstance(exp, float) and not miss(got) and abs(float(got) - exp) <= 1e-4 * max(1e-3, abs(exp)):
            tol_ok = True
        if not tol_ok:
            raise Fail('%s(%s) of %s gives %r, expected %r' % (info['primitive'], info['arguments'], info['inputs'], got, exp), **info)
    for a, b in zip(ss, before):
        if not a.equals(b):
            raise Fail('the input was changed', **info)
    return '%d|%s' % (i, info['inputs'])


def case_units(rng, cfg):
    from featuretools.utils import convert_time_units
    u = rng.choice(list(SECS) + ['year', 'fortnights', ''])
    x = rng.choice([0, 1, -5, rng.randint(-10 ** 6, 10 ** 6), rng.random() * 100, pd.Series([1., NAN, 86400.])])
    info = {'unit': u, 'value': str(x)}
    try:
        r = convert_time_units(x, u)
    except ValueError:
        if u in SECS:
            raise Fail('unit rejected', **info)
        return 'rejected'
    if u not in SECS:
        raise Fail('unknown unit accepted', **info)
    a, b = np.atleast_1d(np.asarray(r, dtype=float)), np.atleast_1d(np.asarray(x, dtype=float)) / SECS[u]
    if not np.allclose(a, b, rtol=1e-9, equal_nan=True):
        raise Fail('gives %s' % r, **info)
    return '%s|%s' % (u, x)
