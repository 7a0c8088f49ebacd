"""Reference semantics of features over the plain-Python model.

Values of a feature for *all* rows of its entity available at the cutoff are
computed by structural recursion, directly from the property statements."""
import math
import statistics
import numpy as np
import pandas as pd
import featuretools as ft
from featuretools.feature_base.feature_base import (IdentityFeature, DirectFeature, AggregationFeature, TransformFeature,
                                                    GroupByTransformFeature, FeatureOutputSlice)
from gen import T, ordered, lti_model


class Ctx(object):
    """what is available: cutoff (model time or None), window (steps or None), include"""
    def __init__(self, m, cut, window=None, include=True, real_cut=None):
        self.m, self.cut, self.window, self.include = m, cut, window, include
        self.lti = lti_model(m) if (m.lti and window is not None) else None
        self.memo = {}
        self.vis = {}

    def visible(self, nm):
        if nm in self.vis:
            return self.vis[nm]
        e = self.m.ents[nm]
        out = []
        for r in ordered(self.m, e):
            if e.ti is not None and self.cut is not None:
                t = r[e.ti]
                ok = t <= self.cut if self.include else t < self.cut
                if ok and self.window is not None:
                    lo = self.cut - self.window
                    ts = [t]
                    if self.lti is not None and self.lti[nm][r[e.index]] is not None:
                        ts.append(self.lti[nm][r[e.index]])
                    ok = any((x > lo if self.include else x >= lo) for x in ts)
                if not ok:
                    continue
            r = dict(r)
            if self.cut is not None:
                for s, cols in e.sec.items():
                    if r[s] >= self.cut:
                        for c in list(cols) + [s]:
                            r[c] = None
            out.append(r)
        self.vis[nm] = out
        return out


def isnull(v):
    return v is None or (isinstance(v, float) and math.isnan(v)) or v is pd.NaT


def nn(vs):
    return [v for v in vs if not isnull(v)]


def steps(v):
    return v


def _mode(vs):
    vs = nn(vs)
    if not vs:
        return None
    c = {}
    for v in vs:
        c[v] = c.get(v, 0) + 1
    b = max(c.values())
    return sorted([v for v in c if c[v] == b])[0]


def _std(vs):
    vs = nn(vs)
    if len(vs) < 2:
        return None
    mu = sum(vs) / len(vs)
    return math.sqrt(sum((v - mu) ** 2 for v in vs) / (len(vs) - 1))


SEC = 3600.0


def agg(prim, cols, ctx):
    n = type(prim).__name__
    v = cols[0]
    k = nn(v)
    if n == 'Count':
        return len(k)
    if n == 'Sum':
        return float(sum(k))
    if n == 'Mean':
        if not prim.skipna and len(k) != len(v):
            return None
        return sum(k) / len(k) if k else None
    if n == 'Min':
        return min(k) if k else None
    if n == 'Max':
        return max(k) if k else None
    if n == 'Median':
        return statistics.median(k) if k else None
    if n == 'Std':
        return _std(v)
    if n == 'NumUnique':
        return len(set(k))
    if n == 'Last':
        return v[-1]
    if n == 'First':
        return v[0]
    if n == 'Mode':
        return _mode(v)
    if n == 'NumTrue':
        return sum(1 for x in k if x)
    if n == 'PercentTrue':
        return sum(1 for x in k if x) / len(v)
    if n == 'All':
        return all(bool(x) for x in v)
    if n == 'Any':
        return any(bool(x) for x in k)
    if n == 'TimeSinceLast':
        return None if isnull(v[-1]) else (ctx.cut - v[-1]) * SEC
    if n == 'TimeSinceFirst':
        return None if isnull(v[0]) else (ctx.cut - v[0]) * SEC
    z = lambda q: 0.0 if isnull(q) else float(q)
    if n == 'Spread':
        return [sum((i + 1) * z(t) for i, t in enumerate(v)), float(len(v))]
    if n == 'Weighted':
        return float(sum((i + 1) * z(a) + 10 * z(b) for i, (a, b) in enumerate(zip(v, cols[1]))))
    if n == 'Folded':
        s = 0.0
        for t in v:
            s = s / 2 + z(t)
        return s
    if n == 'SpanToCut':
        return float(sum(ctx.cut - t for t in v))
    if n == 'NMostCommon':
        c = {}
        for t in k:
            c[t] = c.get(t, 0) + 1
        o = sorted(c, key=lambda t: -c[t])[:prim.n]
        return o + [None] * (prim.n - len(o))
    if n == 'AvgTimeBetween':
        if len(k) < 2:
            return None
        return (max(k) - min(k)) * SEC / (len(k) - 1)
    if n == 'Skew':
        return None if len(k) < 3 else float(pd.Series(v).skew())
    raise KeyError(n)


def trans(prim, cols, ctx):
    """whole-column transform"""
    n = type(prim).__name__
    a = cols[0]
    b = cols[1] if len(cols) > 1 else None

    def pw(f, null=None):
        return [null if isnull(x) else f(x) for x in a]

    def pw2(f, null=None):
        return [null if isnull(x) or isnull(y) else f(x, y) for x, y in zip(a, b)]
    if n == 'AddNumeric':
        return pw2(lambda x, y: x + y)
    if n == 'SubtractNumeric':
        return pw2(lambda x, y: x - y)
    if n == 'MultiplyNumeric':
        return pw2(lambda x, y: x * y)
    if n == 'AddNumericScalar':
        return pw(lambda x: x + prim.value)
    if n == 'SubtractNumericScalar':
        return pw(lambda x: x - prim.value)
    if n == 'ScalarSubtractNumericFeature':
        return pw(lambda x: prim.value - x)
    if n == 'MultiplyNumericScalar':
        return pw(lambda x: x * prim.value)
    if n == 'Negate':
        return pw(lambda x: -x)
    if n == 'Absolute':
        return pw(abs)
    if n == 'GreaterThan':
        return pw2(lambda x, y: x > y, False)
    if n == 'LessThan':
        return pw2(lambda x, y: x < y, False)
    if n == 'GreaterThanScalar':
        return pw(lambda x: x > prim.value, False)
    if n == 'LessThanScalar':
        return pw(lambda x: x < prim.value, False)
    if n == 'GreaterThanEqualToScalar':
        return pw(lambda x: x >= prim.value, False)
    if n == 'EqualScalar':
        return pw(lambda x: x == prim.value, False)
    if n == 'NotEqualScalar':
        return pw(lambda x: x != prim.value, True)
    if n == 'And':
        return [bool(x) and bool(y) for x, y in zip(a, b)]
    if n == 'Or':
        return [bool(x) or bool(y) for x, y in zip(a, b)]
    if n == 'Not':
        return [not x for x in a]
    if n == 'IsNull':
        return [isnull(x) for x in a]
    if n == 'IsIn':
        return [(not isnull(x)) and x in prim.list_of_outputs for x in a]
    if n == 'CumSum':
        out, s = [], 0.0
        for x in a:
            if isnull(x):
                out.append(None)
            else:
                s += x
                out.append(s)
        return out
    if n == 'CumMax' or n == 'CumMin':
        f = max if n == 'CumMax' else min
        out, s = [], None
        for x in a:
            if isnull(x):
                out.append(None)
            else:
                s = x if s is None else f(s, x)
                out.append(s)
        return out
    if n == 'CumMean':
        out, s, i = [], 0.0, 0
        for x in a:
            i += 1
            if isnull(x):
                out.append(None)
            else:
                s += x
                out.append(s / i)
        return out
    if n in ('RunList', 'RunArray'):
        out, s = [], 0.0
        for x in a:
            s = s / 2 + (0.0 if isnull(x) else x)
            out.append(s)
        return out
    if n == 'CumCount':
        return [i + 1 for i in range(len(a))]
    if n == 'Diff':
        out, p = [], None
        for x in a:
            out.append(None if isnull(x) or p is None or isnull(p) else x - p)
            p = x
        return out
    if n == 'TimeSincePrevious':
        out, p = [], None
        for x in a:
            out.append(None if isnull(x) or p is None or isnull(p) else (x - p) * SEC)
            p = x
        return out
    if n == 'TimeSince':
        return pw(lambda x: (ctx.cut - x) * SEC)
    if n == 'Hour':
        return pw(lambda x: T(x).hour)
    if n == 'Day':
        return pw(lambda x: T(x).day)
    if n == 'Month':
        return pw(lambda x: T(x).month)
    if n == 'Weekday':
        return pw(lambda x: T(x).weekday())
    if n == 'PlusMinus':
        return [[None if isnull(x) else x + 1, None if isnull(x) else -x] for x in a]
    if n == 'RunBoth':
        out, s = [], 0.0
        for i, x in enumerate(a):
            s += 0.0 if isnull(x) else x
            out.append([s, float(i)])
        return out
    if n == 'HoursTo':
        return [float(ctx.cut - x) for x in a]
    raise KeyError(n)


def column(f, ctx):
    """{row id: value} over the available rows of f's entity"""
    key = id(f)
    if key in ctx.memo:
        return ctx.memo[key][1]
    e = ctx.m.ents[f.entity.id]
    rows = ctx.visible(e.name)
    ids = [r[e.index] for r in rows]
    if isinstance(f, FeatureOutputSlice):
        b = column(f.base_feature, ctx)
        vals = [b[i][f.n] for i in ids]
    elif isinstance(f, IdentityFeature):
        vals = [r[f.variable.id] for r in rows]
    elif isinstance(f, DirectFeature):
        rel = f.relationship_path[0][1]
        base = column(f.base_features[0], ctx)
        dflt = f.base_features[0].default_value
        vals = []
        for r in rows:
            k = r[rel.child_variable.id]
            v = base.get(k) if not isnull(k) else None
            if f.number_output_features > 1:
                v = [None] * f.number_output_features if v is None else v
                vals.append([dflt if isnull(q) else q for q in v])
            else:
                vals.append(dflt if isnull(v) else v)
    elif isinstance(f, AggregationFeature):
        vals = agg_values(f, ctx, rows, e)
    elif isinstance(f, GroupByTransformFeature):
        g = column(f.groupby, ctx)
        cols = [column(b, ctx) for b in f.base_features[:-1]]
        groups = {}
        for i in ids:
            if not isnull(g[i]):
                groups.setdefault(g[i], []).append(i)
        no = f.number_output_features
        res = {i: (f.default_value if no == 1 else [f.default_value] * no) for i in ids}
        for gid, mem in groups.items():
            out = trans(f.primitive, [[c[i] for i in mem] for c in cols], ctx)
            for i, v in zip(mem, out):
                res[i] = v
        vals = [res[i] for i in ids]
    elif isinstance(f, TransformFeature):
        cols = [column(b, ctx) for b in f.base_features]
        vals = trans(f.primitive, [[c[i] for i in ids] for c in cols], ctx)
    else:
        raise KeyError(type(f))
    res = dict(zip(ids, vals))
    ctx.memo[key] = (f, res)
    return res


def linked(ctx, path, rows, e):
    """for every row id of e: the rows at the end of the backward path, in order"""
    # owner[row of current entity] = id of ancestor
    owner = {r[e.index]: r[e.index] for r in rows}
    cur = e
    for _, rel in path:
        ce = ctx.m.ents[rel.child_entity.id]
        new = {}
        for r in ctx.visible(ce.name):
            k = r[rel.child_variable.id]
            if not isnull(k) and k in owner:
                new[r[ce.index]] = owner[k]
        owner, cur = new, ce
    out = {r[e.index]: [] for r in rows}
    for r in ctx.visible(cur.name):
        i = r[cur.index]
        if i in owner:
            out[owner[i]].append(r)
    return out, cur


def agg_values(f, ctx, rows, e):
    by, ce = linked(ctx, f.relationship_path, rows, e)
    cols = [column(b, ctx) for b in f.base_features]
    where = column(f.where, ctx) if f.where is not None else None
    up = f.use_previous
    vals = []
    for r in rows:
        mem = by[r[e.index]]
        if where is not None:
            mem = [x for x in mem if where[x[ce.index]] is True or where[x[ce.index]] == 1]
        if up is not None:
            if up.has_no_observations():
                lo = ctx.cut - f._model_span
                mem = [x for x in mem if ce.ti is None or x[ce.ti] >= lo]
            else:
                n = int(up.get_value('o'))
                mem = mem[-n:]
        no = f.number_output_features
        if not mem:
            vals.append(f.default_value if no == 1 else [f.default_value] * no)
            continue
        v = agg(f.primitive, [[c[x[ce.index]] for x in mem] for c in cols], ctx)
        if no > 1:
            vals.append([f.default_value if isnull(q) else q for q in v])
        else:
            vals.append(f.default_value if isnull(v) else v)
    return vals


def same(a, b):
    """model value against a cell of the real matrix"""
    if isnull(a) or (not isinstance(a, (list, dict, str)) and a is not None and a != a):
        return b is None or (not isinstance(b, str) and bool(pd.isnull(b)))
    if b is None or (not isinstance(b, str) and bool(pd.isnull(b))):
        return False
    if isinstance(a, str) or isinstance(b, str):
        return a == b
    if isinstance(b, (pd.Timestamp, np.datetime64)):
        return T(a) == pd.Timestamp(b)
    try:
        return abs(float(a) - float(b)) <= 1e-7 * max(1.0, abs(float(a)))
    except (TypeError, ValueError):
        return a == b
