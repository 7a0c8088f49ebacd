"""Oracles of calculate_feature_matrix beyond the value of single features."""
import copy
import random
import warnings
import numpy as np
import pandas as pd
import featuretools as ft
from featuretools.feature_base.feature_base import (DirectFeature, AggregationFeature, FeatureOutputSlice, IdentityFeature)
from gen import gen, build, T, UNIT, BASE, ordered, lti_model, frame
from feats import Builder
from ref import Ctx, column, same, isnull
from common import Fail, note
from o_cfm import make_case, pick_cutoffs, expected, cut_df, compare, info_of, default


def cell_eq(a, b):
    na = a is None or (not isinstance(a, (str, tuple)) and bool(pd.isnull(a)))
    nb = b is None or (not isinstance(b, (str, tuple)) and bool(pd.isnull(b)))
    if na or nb:
        return na and nb
    if isinstance(a, str) or isinstance(b, str):
        return a == b
    try:
        return a == b or abs(float(a) - float(b)) <= 1e-9 * max(1.0, abs(float(a)))
    except (TypeError, ValueError):
        return a == b


def same_frames(a, b, what, info, cols=None):
    cols = list(a.columns) if cols is None else cols
    if len(a) != len(b):
        raise Fail('%s: %d rows against %d' % (what, len(a), len(b)), **info)
    for x, y in zip(a.index, b.index):
        if not (x == y or (pd.isnull(x) is True and pd.isnull(y) is True)):
            raise Fail('%s: index %s against %s' % (what, list(a.index), list(b.index)), **info)
    for c in cols:
        if c not in b.columns:
            raise Fail('%s: column %s missing' % (what, c), **info)
        for i, (x, y) in enumerate(zip(a[c], b[c])):
            if not cell_eq(x, y):
                raise Fail('%s: column %s row %r: %r against %r' % (what, c, a.index[i], x, y), **info)


# ------------------------------------------------------------------ L01
def case_perturb(rng, cfg):
    """rows after the cutoff are edited, deleted or added: nothing changes"""
    m, es, target, feats = make_case(rng, cfg)
    if not feats:
        return None
    num = m.numeric_time
    t = rng.randint(0, 8)
    include = rng.random() < 0.6
    m.lti = False
    m2 = copy.deepcopy(m)
    later = lambda r, e: e.ti and (r[e.ti] > t or (r[e.ti] == t and not include))
    edits = 0
    for e in m2.ents.values():
        if not e.ti:
            continue
        new = []
        for r in e.rows:
            if later(r, e):
                u = rng.random()
                edits += 1
                if u < 0.3:
                    continue
                for c, k in e.cols.items():
                    if k == 'num':
                        r[c] = rng.choice([100, -100, None])
                    elif k == 'cat':
                        r[c] = rng.choice(['u', 'q'])
                    elif k == 'bool':
                        r[c] = not r[c]
                    elif k == 'fk' and u < 0.8:
                        p = [x for x in m2.rels if x[2] == e.name and x[3] == c][0]
                        ids = [q[p[1]] for q in m2.ents[p[0]].rows]
                        if ids:
                            r[c] = rng.choice(ids)
            else:
                for s, cols in e.sec.items():
                    if r[s] > t:
                        for c in cols:
                            if e.cols[c] == 'num' and rng.random() < 0.7:
                                r[c] = 55
                                edits += 1
            new.append(r)
        for _ in range(rng.choice([0, 1, 3])):
            r = dict(rng.choice(e.rows)) if e.rows else None
            if r is None:
                continue
            edits += 1
            j = 500 + len(new)
            r[e.index] = '%s%d' % (e.name.lower(), j) if m2.kinds[e.name] else j
            r[e.ti] = t + rng.randint(0 if not include else 1, 5)
            for s in e.sec:
                r[s] = max(r[s], r[e.ti])
            new.append(r)
        rng.shuffle(new)
        e.rows = new
    m.lti = m2.lti = False
    es1 = build(m)
    es2 = build(m2)
    e = m.ents[target]
    ids = [r[e.index] for r in e.rows]
    if not ids:
        return None
    rng.shuffle(ids)
    ids = ids[:6]
    kw = {}
    if rng.random() < 0.25 and not num:
        kw['training_window'] = '%d hours' % rng.randint(1, 5)
    info = info_of(m, feats, [(i, t) for i in ids], include=include, edited_model=m2.describe(), kwargs=str(kw))
    note(**info)
    a = ft.calculate_feature_matrix(feats, es1, instance_ids=ids, cutoff_time=T(t, num), include_cutoff_time=include, **kw)
    b = ft.calculate_feature_matrix(feats, es2, instance_ids=ids, cutoff_time=T(t, num), include_cutoff_time=include, **kw)
    same_frames(a, b, 'data after the cutoff changed the result', info)
    return '%s|%s' % ([str(f) for f in feats], edits) if edits else None


# ------------------------------------------------------------------ L01 L02 L03 row selection
def case_qbv(rng, cfg):
    m = gen(rng, **cfg.get('gen', {}))
    es = build(m)
    num = m.numeric_time
    nm = rng.choice(m.names)
    e = m.ents[nm]
    t = rng.randint(0, 9) if rng.random() < 0.9 else None
    include = rng.random() < 0.5
    w = rng.randint(0, 6) if (rng.random() < cfg.get('window_p', 0.4) and not num) else None
    kw = {}
    if w is not None:
        kw['training_window'] = rng.choice(['%d hours' % w, ft.Timedelta(w, 'h'), ft.Timedelta({'h': w, 'm': 0}), '%d Minutes' % (60 * w),
                                            pd.Timedelta(hours=w), '%dh' % w, '%d H' % w,
                                            ft.Timedelta({'h': w - 1, 'm': 60}) if w else ft.Timedelta(0, 'h')])
    col = rng.choice([None, e.index] + [c for c, k in e.cols.items() if k in ('fk', 'cat', 'num')])
    vals = None
    if col is not None:
        pool = [r[col] for r in e.rows if r[col] is not None]
        vals = [rng.choice(pool) for _ in range(rng.randint(0, 4))] if pool else []
        if rng.random() < 0.2:
            vals = vals + [pool[0]] * 2 if pool else vals
        mode = rng.choice(['list', 'series', 'single', 'all'])
        if mode == 'all':
            vals = None
        elif mode == 'single' and vals:
            arg = vals[0]
            vals = [arg]
        elif mode == 'series':
            arg = pd.Series(vals, dtype=es[nm].df[col].dtype)
        else:
            arg = list(vals)
    if vals is None:
        arg = None
    cols = None
    if rng.random() < 0.4:
        cols = [e.index] + [c for c in e.cols if c != e.index and rng.random() < 0.6]
        if e.ti and e.ti not in cols:
            cols.append(e.ti)
        for s in e.sec:
            if rng.random() < 0.5 and s not in cols:
                cols.append(s)
    if t is None:
        kw.pop('training_window', None)
        w = None
    ctx = Ctx(m, t, w, include)
    want = [r for r in ctx.visible(nm)]
    raw = {r[e.index]: r for r in e.rows}
    if vals is not None:
        keep = set(vals)
        if col is not None:
            want = [r for r in want if raw[r[e.index]][col] in keep]
    info = {'model': m.describe(), 'entity': nm, 'variable': col, 'values': vals, 'time': t, 'include': include, 'window': w, 'columns': cols, 'kwargs': str(kw)}
    note(**info)
    before = es[nm].df.copy()
    got = es.query_by_values(nm, arg, variable_id=col, columns=cols, time_last=T(t, num) if t is not None else None,
                             include_cutoff_time=include, **kw)
    ids = list(got[e.index])
    if ids != [r[e.index] for r in want]:
        raise Fail('query returned rows %s, expected %s' % (ids, [r[e.index] for r in want]), **info)
    if list(got.index) != ids:
        raise Fail('rows are labelled %s instead of %s' % (list(got.index), ids), **info)
    use = cols or list(e.cols)
    if cols is not None and set(got.columns) != set(cols):
        raise Fail('columns %s instead of %s' % (list(got.columns), cols), **info)
    if cols is None and set(got.columns) != set(e.cols):
        raise Fail('columns %s instead of %s' % (list(got.columns), list(e.cols)), **info)
    for c in use:
        for r, v in zip(want, list(got[c])):
            ex = r[c]
            if e.cols[c] in ('time', 'stime') and not num and not isnull(ex):
                ok = pd.Timestamp(v) == T(ex)
            else:
                ok = same(ex, v) if e.cols[c] != 'dt' else ((isnull(ex) and bool(pd.isnull(v))) or (not isnull(ex) and pd.Timestamp(v) == T(ex)))
            if not ok:
                raise Fail('column %s of row %r: got %r, expected %r' % (c, r[e.index], v, ex), **info)
    if not before.equals(es[nm].df):
        raise Fail('the query changed the entity data', **info)
    return '%s|%s|%s|%s' % (nm, len(want), t, w) if e.rows else None


# ------------------------------------------------------------------ L05
def case_approx(rng, cfg):
    m, es, target, feats = make_case(rng, cfg)
    b = Builder(rng, m, es, **cfg.get('feat', {}))
    for _ in range(rng.choice([1, 1, 2])):
        f = approximable(rng, b, m, es, target)
        if f is not None and not set(f.get_feature_names()) & {n for g in feats for n in g.get_feature_names()}:
            feats.append(f)
    rng.shuffle(feats)
    if not feats:
        return None
    num = m.numeric_time
    reqs = pick_cutoffs(rng, m, target, n=rng.randint(2, 9))
    w = rng.choice([1, 2, 3, 4, 5, 7])
    if num:
        arg = w
        fl = lambda t: t // w * w
    else:
        delta = pd.Timedelta(hours=w)
        arg = rng.choice(['%d hours' % w, ft.Timedelta(w, 'h'), '%d m' % (60 * w), ft.Timedelta({'h': w - 1, 'm': 60}) if w > 1 else '1 h',
                          '%dh' % w])
        if rng.random() < 0.1:
            arg, delta = rng.choice([('1 day', pd.Timedelta(days=1)), ('1 week', pd.Timedelta(days=7)), ('90 minutes', pd.Timedelta(minutes=90)),
                                     ('3600000 ms', pd.Timedelta(hours=1))])
        ns = delta.value

        def fl(t):
            v = T(t).value
            return (v // ns * ns - BASE.value) / UNIT.value
    window = rng.randint(2, 7) if rng.random() < 0.2 and not num else None
    include = rng.random() < 0.6
    kw = {}
    if window:
        kw['training_window'] = '%d hours' % window
    if rng.random() < 0.3:
        kw['chunk_size'] = rng.choice([1, 2, 0.5])
    info = info_of(m, feats, reqs, target=target, approximate=str(arg), window=window, include=include, kwargs=str(kw))
    note(**info)
    extra = {'tag': list(range(len(reqs)))} if rng.random() < 0.4 else None
    cd = cut_df(m, reqs, extra)
    in_index = rng.random() < 0.5
    fm = ft.calculate_feature_matrix(feats, es, cutoff_time=cd, approximate=arg, include_cutoff_time=include,
                                     cutoff_time_in_index=in_index, **kw)
    names = [n for f in feats for n in f.get_feature_names()]
    if list(fm.index) != ([r[0] for r in reqs] if not in_index else [(r[0], T(r[1], num)) for r in reqs]):
        raise Fail('index %s instead of %s' % (list(fm.index), reqs), **info)
    if set(fm.columns) != set(names + (['tag'] if extra else [])):
        raise Fail('columns %s' % list(fm.columns), **info)
    if extra and list(fm['tag']) != extra['tag']:
        raise Fail('pass-through column changed: %s' % list(fm['tag']), **info)
    approx, anames, exact = classify(feats)
    shortcut = no_exact_aggs(feats, anames)
    nontriv = 0
    known = None
    ctxs = {}

    def ctx_at(t, win=window):
        return ctxs.setdefault((t, win), Ctx(m, t, win, include))
    for j, f in enumerate(feats):
        kind = 'approx' if f.unique_name() in approx else 'exact' if f.unique_name() in exact else 'mixed'
        if kind == 'mixed':
            continue
        for i, (iid, t) in enumerate(reqs):
            if kind == 'exact':
                exs = [value_at(f, ctx_at(t), iid)]
                if shortcut:
                    exs.append(value_at(f, ctx_at(None, None), iid)) if not uses_cut(f) else exs.append(None)
            else:
                nontriv += 1
                exs = [hybrid(f, ctx_at(t), ctx_at(fl(t)), iid)]
                if shortcut:
                    exs.append(hybrid(f, ctx_at(None, None), ctx_at(fl(t)), iid))
            for k, nm in enumerate(f.get_feature_names()):
                v = fm[nm].iloc[i]
                pick = lambda ex: ex if f.number_output_features == 1 else (ex[k] if ex is not None else None)
                if same(pick(exs[0]), v):
                    continue
                fi = dict(info)
                what = '%s feature %s of instance %r at cutoff %s (binned %s): expected %r, got %r' % (kind, nm, iid, t, fl(t), pick(exs[0]), v)
                if shortcut and (uses_cut(f) or same(pick(exs[1]), v)):
                    fi['finding'] = 'KF-approximate-ignores-cutoff'
                    known = known or Fail(what, **fi)
                    continue
                raise Fail(what, **fi)
    if known:
        raise known
    return '%s|%s|%s' % ([str(f) for f in feats], w, len(reqs)) if nontriv else None


def uses_cut(f):
    return f.primitive.uses_calc_time or any(d.primitive.uses_calc_time for d in f.get_dependencies(deep=True))


def approximable(rng, b, m, es, target):
    rels = [r for r in es.relationships if r.child_entity.id == target]
    if not rels:
        return None
    r = rng.choice(rels)
    p = r.parent_entity.id
    for _ in range(6):
        if rng.random() < 0.25:
            base = approximable(rng, b, m, es, p)
        else:
            base = b.feature(p, 'num', 1)
        if base is not None and isinstance(base, (AggregationFeature, DirectFeature)):
            return b.reg(DirectFeature(base, es[target], relationship=r), 'num')
    return None


def classify(feats):
    """names of approximated features, of the approximated aggregations, of
    features computed exactly"""
    full = set()
    for f in feats:
        for d in [f] + f.get_dependencies(deep=True):
            if getattr(d.primitive, 'uses_full_entity', False):
                full |= {x.unique_name() for x in d.get_dependencies(deep=True)} | {d.unique_name()}
    # dependents that use the whole entity prevent approximation
    approx, aggs = set(), set()
    for f in feats:
        if not isinstance(f, DirectFeature):
            continue
        b = f.base_features[0]
        while isinstance(b, DirectFeature):
            b = b.base_features[0]
        if isinstance(b, AggregationFeature):
            if f.unique_name() in full:
                continue
            approx.add(f.unique_name())
            aggs.add(b.unique_name())
    exact = set()
    for f in feats:
        if f.unique_name() in approx:
            continue
        if not ({d.unique_name() for d in f.get_dependencies(deep=True)} & (aggs | approx)):
            exact.add(f.unique_name())
    return approx, aggs, exact


def no_exact_aggs(feats, aggs):
    for f in feats:
        if isinstance(f, AggregationFeature):
            return False
        for d in f.get_dependencies(deep=True, ignored=aggs):
            if isinstance(d, AggregationFeature):
                return False
    return True


def value_at(f, ctx, iid):
    c = column(f, ctx)
    return c[iid] if iid in c else default(f)


def hybrid(f, real, binned, iid):
    """direct chain at the real cutoff, aggregation at the binned cutoff"""
    d = default(f)
    no = f.number_output_features
    cur = iid
    g = f
    while isinstance(g, DirectFeature):
        e = real.m.ents[g.entity.id]
        row = [r for r in real.visible(e.name) if r[e.index] == cur]
        if not row:
            return d
        rel = g.relationship_path[0][1]
        cur = row[0][rel.child_variable.id]
        if isnull(cur):
            return d
        g = g.base_features[0]
    e = real.m.ents[g.entity.id]
    if cur not in [r[e.index] for r in real.visible(e.name)]:
        return d
    c = column(g, binned)
    v = c[cur] if cur in c else default(g)
    if no > 1:
        return [d[k] if isnull(x) else x for k, x in enumerate(v)]
    return d if isnull(v) else v


# ------------------------------------------------------------------ C04
def case_shape(rng, cfg):
    m, es, target, feats = make_case(rng, cfg)
    if not feats:
        return None
    num = m.numeric_time
    e = m.ents[target]
    mode = rng.choice(['df', 'df', 'df', 'single', 'all', 'none'])
    include = rng.random() < 0.6
    kw = {'include_cutoff_time': include, 'cutoff_time_in_index': rng.random() < 0.5}
    if rng.random() < 0.3:
        kw['chunk_size'] = rng.choice([1, 2, 3, 0.4])
    win = None
    extra, key = None, 'instance_id'
    tkey = 'time'
    if mode == 'df':
        reqs = pick_cutoffs(rng, m, target, n=rng.randint(1, 9), unknown_p=0.25)
        extra = {}
        if rng.random() < 0.6:
            extra['label'] = [rng.choice(['p', 'q', None]) for _ in reqs]
        if rng.random() < 0.4:
            extra['w'] = [rng.choice([1.5, np.nan, 2.0]) for _ in reqs]
        if rng.random() < 0.3:
            extra['flag'] = [rng.random() < 0.5 for _ in reqs]
        cd = cut_df(m, reqs, extra)
        if rng.random() < 0.2 and target + '_id' not in cd:
            key = e.index
        if e.ti and rng.random() < 0.2:
            tkey = e.ti
        cd = cd.rename(columns={'instance_id': key, 'time': tkey})
        order = list(cd.columns)
        rng.shuffle(order)
        cd = cd[order]
        if rng.random() < 0.4:
            cd.index = [rng.randint(0, 3) for _ in reqs]
        arg = {'cutoff_time': cd}
    else:
        t = rng.randint(0, 9)
        if mode == 'none':
            t = None
        pool = [r[e.index] for r in e.rows]
        ids = [i for i in pool if rng.random() < 0.6]
        rng.shuffle(ids)
        if rng.random() < 0.3:
            ids.insert(rng.randint(0, len(ids)), 'unk1' if m.kinds[target] else 701)
        arg = {'cutoff_time': T(t, num)} if t is not None else {}
        if mode == 'all' or (mode == 'none' and rng.random() < 0.5):
            c = Ctx(m, t, None, include)
            ids = [r[e.index] for r in c.visible(target)]
            if not ids:
                return None
        else:
            if not ids:
                return None
            arg['instance_ids'] = rng.choice([list(ids), pd.Series(ids), pd.Series(ids, index=range(5, 5 + len(ids)))])
        reqs = [(i, t) for i in ids]
    if mode == 'none' and any(uses_cut(f) for f in feats):
        return None
    info = info_of(m, feats, reqs, target=target, mode=mode, kwargs=str(kw), key=key, tkey=tkey, extra=str(extra))
    note(**info)
    fm = ft.calculate_feature_matrix(feats, es, **dict(arg, **kw))
    names = [n for f in feats for n in f.get_feature_names()]
    want_cols = names + list(extra or {})
    got_cols = list(fm.columns)
    if sorted(got_cols) != sorted(want_cols):
        raise Fail('columns %s, expected %s' % (got_cols, want_cols), **info)
    if got_cols[:len(names)] != names:
        raise Fail('feature columns in order %s, expected %s' % (got_cols[:len(names)], names), **info)
    if kw['cutoff_time_in_index']:
        if fm.index.nlevels != 2:
            raise Fail('cutoff time is not in the index', **info)
        ids = [x[0] for x in fm.index]
        if fm.index.names[1] != 'time':
            raise Fail('time level is named %s' % fm.index.names, **info)
        if mode != 'none' and [x[1] for x in fm.index] != [T(r[1], num) for r in reqs]:
            raise Fail('times %s, expected %s' % ([str(x[1]) for x in fm.index], reqs), **info)
    else:
        ids = list(fm.index)
        if fm.index.nlevels != 1:
            raise Fail('index has %d levels' % fm.index.nlevels, **info)
    if ids != [r[0] for r in reqs]:
        raise Fail('rows %s, expected %s' % (ids, reqs), **info)
    if fm.index.names[0] != e.index:
        raise Fail('index is named %s, not %s' % (fm.index.names[0], e.index), **info)
    for c in (extra or {}):
        for x, y in zip(list(fm[c]), extra[c]):
            if not cell_eq(x, y):
                raise Fail('pass-through column %s: %s, expected %s' % (c, list(fm[c]), extra[c]), **info)
    inf = 10 ** 6
    exp = expected(m, feats, target, [(i, inf if t is None else t) for i, t in reqs], None, include)
    compare(fm, exp, feats, reqs, info)
    return '%s|%s|%s|%s' % (mode, [str(f) for f in feats], len(reqs), sorted(kw.items(), key=str))


# ------------------------------------------------------------------ C05
def case_chunks(rng, cfg):
    m, es, target, feats = make_case(rng, cfg)
    if not feats:
        return None
    reqs = pick_cutoffs(rng, m, target, n=rng.randint(2, 12), unknown_p=0.1)
    include = rng.random() < 0.6
    kw = {'include_cutoff_time': include, 'cutoff_time_in_index': True}
    if rng.random() < 0.3 and not m.numeric_time:
        kw['training_window'] = '%d hours' % rng.randint(1, 6)
    if rng.random() < 0.25 and not m.numeric_time:
        kw['approximate'] = '%d hours' % rng.randint(1, 4)
        feats = [f for f in feats if not uses_cut(f)]
        if not feats:
            return None
    extra = {'tag': list(range(len(reqs)))}
    cd = cut_df(m, reqs, extra)
    info = info_of(m, feats, reqs, target=target, kwargs=str(kw))
    note(**info)
    base = ft.calculate_feature_matrix(feats, es, cutoff_time=cd, **kw)
    for _ in range(2):
        ch = rng.choice([1, 2, 3, 4, 0.1, 0.3, 0.5, 0.9, 1.0, 2.7, 100, len(reqs)])
        o = ft.calculate_feature_matrix(feats, es, cutoff_time=cd, chunk_size=ch, **kw)
        same_frames(base, o, 'chunk_size=%s' % ch, info)
    perm = list(range(len(reqs)))
    rng.shuffle(perm)
    o = ft.calculate_feature_matrix(feats, es, cutoff_time=cd.iloc[perm], chunk_size=rng.choice([None, 2]), **kw)
    same_frames(base.iloc[perm], o, 'rows of the cutoff table reordered %s' % perm, info)
    return '%s|%s|%s' % ([str(f) for f in feats], len(reqs), sorted(kw.items(), key=str))


def case_chunk_helper(rng, cfg):
    import importlib
    C = importlib.import_module('featuretools.computational_backends.calculate_feature_matrix')
    U = importlib.import_module('featuretools.computational_backends.utils')
    n = rng.randint(1, 40)
    if not hasattr(C, '_handle_chunk_size') or not hasattr(C, '_chunk_dataframe_groups'):
        return None
    cs = rng.choice([rng.randint(1, 50), rng.random() * 0.99 + 0.001, rng.random() * 20 + 1, 1, 1.0, 0, -1, None])
    info = {'chunk_size': cs, 'total': n}
    note(**info)
    try:
        r = C._handle_chunk_size(cs, n)
    except AssertionError:
        if cs is not None and cs > 0:
            raise Fail('chunk size %s refused' % cs, **info)
        return 'bad'
    if cs is None:
        if r is not None:
            raise Fail('no chunk size became %s' % r, **info)
        return None
    if cs <= 0:
        raise Fail('chunk size %s accepted' % cs, **info)
    import math
    ex = int(cs) if cs >= 1 else math.ceil(cs * n)
    if (r != ex and not min(r, ex) >= n) or r < 1 or not isinstance(r, int):
        raise Fail('chunk size %s of %s became %r, expected %s' % (cs, n, r, ex), **info)
    df = pd.DataFrame({'instance_id': range(n), 'time': [rng.randint(0, 4) for _ in range(n)]})
    size = rng.randint(1, 12)
    info['size'] = size
    seen = []
    for k, g in C._chunk_dataframe_groups(df.groupby('time'), size):
        if not 1 <= len(g) <= size:
            raise Fail('chunk of %d rows for chunk size %d' % (len(g), size), **info)
        if set(g['time']) != {k}:
            raise Fail('chunk of group %s holds times %s' % (k, set(g['time'])), **info)
        seen += list(g['instance_id'])
    if sorted(seen) != list(range(n)):
        raise Fail('chunks cover %s of %d rows' % (sorted(seen), n), **info)
    s = pd.Series(range(n), index=[rng.randint(0, 3) for _ in range(n)])
    seen = []
    for k, (t, g) in C._chunk_dataframe_groups((7, s), size):
        if not 1 <= len(g) <= size or t != 7:
            raise Fail('bad chunk %s' % (g,), **info)
        seen += list(g)
    if seen != list(range(n)):
        raise Fail('chunks cover %s of %d rows' % (seen, n), **info)
    import os
    import psutil
    j = rng.choice([-1, 1, 2, 3, 100, -2, -5, -50, 8])
    w = U.n_jobs_to_workers(j)
    cpus = len(psutil.Process().cpu_affinity())
    if not 1 <= w <= cpus:
        raise Fail('%s workers for n_jobs=%s on %s cpus' % (w, j, cpus), **info)
    if w != (min(j, cpus) if j > 0 else max(cpus + 1 + j, 1)):
        raise Fail('%s workers for n_jobs=%s on %s cpus' % (w, j, cpus), **info)
    return '%s|%s|%s' % (cs, n, size)


# ------------------------------------------------------------------ C06
def case_indep(rng, cfg):
    m, es, target, feats = make_case(rng, dict(cfg, maxf=6))
    if len(feats) < 2:
        return None
    reqs = pick_cutoffs(rng, m, target, n=rng.randint(2, 8), unknown_p=0.1)
    kw = {'include_cutoff_time': rng.random() < 0.6, 'cutoff_time_in_index': True}
    if rng.random() < 0.25 and not m.numeric_time:
        kw['training_window'] = '%d hours' % rng.randint(1, 6)
    cd = cut_df(m, reqs)
    info = info_of(m, feats, reqs, target=target, kwargs=str(kw))
    note(**info)
    base = ft.calculate_feature_matrix(feats, es, cutoff_time=cd, **kw)
    f = rng.choice(feats)
    one = ft.calculate_feature_matrix([f], es, cutoff_time=cd, **kw)
    same_frames(one, base, 'feature %s alone' % f.get_name(), info, cols=f.get_feature_names())
    sub = list(feats)
    rng.shuffle(sub)
    sub = sub[:rng.randint(1, len(sub))]
    o = ft.calculate_feature_matrix(sub, es, cutoff_time=cd, **kw)
    same_frames(o, base, 'features %s' % [g.get_name() for g in sub], info)
    k = rng.randrange(len(reqs))
    o = ft.calculate_feature_matrix(feats, es, cutoff_time=cd.iloc[[k]], **kw)
    same_frames(o, base.iloc[[k]], 'request %r alone' % (reqs[k],), info)
    o = ft.calculate_feature_matrix(feats, es, instance_ids=[reqs[k][0]], cutoff_time=T(reqs[k][1], m.numeric_time), **kw)
    same_frames(o, base.iloc[[k]], 'request %r alone by id' % (reqs[k],), info)
    idx = [i for i in range(len(reqs)) if rng.random() < 0.6]
    if idx:
        o = ft.calculate_feature_matrix(feats, es, cutoff_time=cd.iloc[idx], **kw)
        same_frames(o, base.iloc[idx], 'requests %s' % idx, info)
    return '%s|%s' % ([str(f) for f in feats], len(reqs))


# ------------------------------------------------------------------ C07
def snap_es(es):
    d = {}
    for e in es.entities:
        d[e.id] = (e.df.copy(deep=True), [(v.id, type(v).__name__, v.name, tuple(map(str, v.interesting_values)) if v.interesting_values is not None else None) for v in e.variables], e.index, e.time_index,
                   copy.deepcopy(e.secondary_time_index), None if e.last_time_index is None else e.last_time_index.copy(deep=True), e.id)
    return d, [r.to_dictionary() for r in es.relationships], es.id, es.time_type


def diff_es(a, b, info, what):
    (d1, r1, i1, t1), (d2, r2, i2, t2) = a, b
    if r1 != r2 or i1 != i2 or t1 != t2:
        raise Fail('%s changed the relationships or identity of the entityset' % what, **info)
    if list(d1) != list(d2):
        raise Fail('%s changed the entities: %s -> %s' % (what, list(d1), list(d2)), **info)
    for k in d1:
        x, y = d1[k], d2[k]
        if list(x[0].columns) != list(y[0].columns) or not x[0].equals(y[0]) or not x[0].index.equals(y[0].index):
            raise Fail('%s changed the data of entity %s' % (what, k), **info)
        if list(x[0].dtypes) != list(y[0].dtypes):
            raise Fail('%s changed the column types of entity %s' % (what, k), **info)
        if x[1:5] != y[1:5]:
            raise Fail('%s changed the structure of entity %s: %s -> %s' % (what, k, x[1:5], y[1:5]), **info)
        l1, l2 = x[5], y[5]
        if (l1 is None) != (l2 is None) or (l1 is not None and not (l1.equals(l2) and l1.index.equals(l2.index))):
            raise Fail('%s changed the last time index of entity %s' % (what, k), **info)


def feat_snap(f):
    return (f.get_name(), [d.get_name() for d in f.base_features], str(f.entity_id), str(f.get_feature_names()))


def case_nomut(rng, cfg):
    m, es, target, feats = make_case(rng, cfg)
    if not feats:
        return None
    num = m.numeric_time
    e = m.ents[target]
    reqs = pick_cutoffs(rng, m, target, n=rng.randint(2, 8), unknown_p=0.2)
    kw = {'include_cutoff_time': rng.random() < 0.6}
    if rng.random() < 0.3 and not num:
        kw['training_window'] = '%d hours' % rng.randint(1, 6)
    if rng.random() < 0.3:
        kw['chunk_size'] = rng.choice([1, 2, 0.5])
    mode = rng.choice(['df', 'df', 'approx', 'single', 'all', 'all', 'now', 'dfs'])
    extra = {'tag': list(range(len(reqs)))} if rng.random() < 0.4 else None
    cd = cut_df(m, reqs, extra)
    if rng.random() < 0.2:
        cd = cd.rename(columns={'instance_id': e.index})
    if rng.random() < 0.3 and e.ti:
        cd = cd.rename(columns={'time': e.ti})
    cd.index = list(range(3, 3 + len(cd)))
    if rng.random() < 0.5:
        cd = cd.reset_index(drop=True)
    ids = [r[0] for r in reqs]
    ids = sorted(set(ids), key=ids.index)
    if mode == 'approx' and not num:
        kw['approximate'] = '%d hours' % rng.randint(1, 4)
        # KF-approximate-ignores-cutoff: these may be computed at the time of day, which no two runs share
        feats = [f for f in feats if not uses_cut(f)]
        if not feats:
            return None
    if mode in ('df', 'approx'):
        kw['cutoff_time'] = cd
    elif mode == 'single':
        kw['cutoff_time'] = T(reqs[0][1], num)
        kw['instance_ids'] = rng.choice([ids, pd.Series(ids)])
    elif mode == 'all':
        kw['cutoff_time'] = T(reqs[0][1], num)
        if not Ctx(m, reqs[0][1], None, True).visible(target) or not Ctx(m, reqs[0][1], None, False).visible(target):
            return None
        kw.pop('training_window', None)
    elif mode in ('now', 'dfs'):
        kw.pop('training_window', None)
        if not e.rows:
            return None
        if mode == 'now' and any(uses_cut(f) for f in feats):
            return None
    if mode == 'dfs':
        feats = ft.dfs(entityset=es, target_entity=target, features_only=True, max_depth=2, trans_primitives=['add_numeric'],
                       agg_primitives=['sum', 'mode'], max_features=12)
        kw.pop('chunk_size', None)
    info = info_of(m, feats, reqs, target=target, mode=mode, kwargs=str(kw))
    note(**info)
    lst = list(feats)
    before = snap_es(es)
    fs = [feat_snap(f) for f in feats]
    cd0, ids0 = cd.copy(deep=True), list(ids)
    sers = kw.get('instance_ids').copy() if isinstance(kw.get('instance_ids'), pd.Series) else None
    a = ft.calculate_feature_matrix(feats, es, **kw)
    diff_es(before, snap_es(es), info, 'calculate_feature_matrix (%s)' % mode)
    if not cd.equals(cd0) or list(cd.columns) != list(cd0.columns) or not cd.index.equals(cd0.index) or list(cd.dtypes) != list(cd0.dtypes):
        raise Fail('the caller\'s cutoff table was changed', **info)
    if ids != ids0 or (sers is not None and not sers.equals(kw['instance_ids'])):
        raise Fail('the caller\'s instance ids were changed', **info)
    if len(lst) != len(feats) or any(x is not y for x, y in zip(lst, feats)) or fs != [feat_snap(f) for f in feats]:
        raise Fail('the caller\'s features were changed', **info)
    b = ft.calculate_feature_matrix(feats, es, **kw)
    same_frames(a, b, 'computing the same matrix twice', info)
    diff_es(before, snap_es(es), info, 'calculate_feature_matrix (second time)')
    fm0 = a.copy(deep=True)
    if rng.random() < 0.5:
        enc, ef = ft.encode_features(a, feats, top_n=rng.choice([1, 2, 10]), include_unknown=rng.random() < 0.5)
        what = 'encode_features'
    else:
        from featuretools import selection as S
        fn = rng.choice([S.remove_low_information_features, S.remove_highly_null_features, S.remove_single_value_features,
                         S.remove_highly_correlated_features])
        what = fn.__name__
        try:
            fn(a, feats)
        except (ValueError, TypeError):
            pass
    if not a.equals(fm0) or list(a.columns) != list(fm0.columns) or list(a.dtypes) != list(fm0.dtypes):
        raise Fail('%s changed the feature matrix it was given' % what, **info)
    if len(lst) != len(feats) or any(x is not y for x, y in zip(lst, feats)) or fs != [feat_snap(f) for f in feats]:
        raise Fail('%s changed the feature list it was given' % what, **info)
    return '%s|%s' % (mode, [str(f) for f in feats])


def nomut_structure(rng, m):
    """column lists given when structuring entities stay as they were"""
    nm = rng.choice(m.names)
    e = m.ents[nm]
    es = ft.EntitySet('s')
    info = {'model': m.describe(), 'entity': nm}
    note(**info)
    if e.ti:
        gov = [c for c, k in e.cols.items() if k == 'num' and rng.random() < 0.5]
        stc = {e.ti if 's' not in e.cols else 's': gov}
    else:
        stc = {}
    stc0 = copy.deepcopy(stc)
    es.entity_from_dataframe(nm, frame(m, e), index=e.index, time_index=e.ti, secondary_time_index=stc or None)
    if stc != stc0:
        raise Fail('creating an entity changed the secondary time index it was given: %s -> %s' % (stc0, stc), **info)
    key = rng.choice([c for c, k in e.cols.items() if k in ('num', 'cat')])
    if es[nm].df[key].isnull().any():
        return None
    cols = [c for c in e.cols if c not in (key, e.index, e.ti, 's') and c not in stc0.get(e.ti, []) and c not in stc0.get('s', [])]
    add, cp = cols[:1], cols[1:2]
    a0, c0 = list(add), list(cp)
    kw = {}
    if e.ti:
        kw['make_secondary_time_index'] = {e.ti: cols[2:3]}
        kw['new_entity_secondary_time_index'] = 'last_seen'
    k0 = copy.deepcopy(kw)
    es.normalize_entity(nm, 'new', key, additional_variables=add, copy_variables=cp, **kw)
    if (add, cp, kw) != (a0, c0, k0):
        raise Fail('normalizing changed its arguments: %s -> %s' % ((a0, c0, k0), (add, cp, kw)), **info)
    return '%s|%s|%s' % (nm, stc0, key)


def case_nomut_lists(rng, cfg):
    """lists given to feature constructors and to synthesis stay as they were"""
    m = gen(rng, n_ent=3)
    if rng.random() < 0.15:
        return nomut_structure(rng, m)
    es = build(m)
    from featuretools.feature_base.feature_base import GroupByTransformFeature, TransformFeature
    nm = rng.choice(m.names)
    e = m.ents[nm]
    b = Builder(rng, m, es)
    x = b.ident(nm, ['num'])
    note(model=m.describe(), entity=nm)
    info = {'model': m.describe(), 'entity': nm}
    g = b.ident(nm, ['cat', 'fk'])
    if g is not None:
        l = [x]
        GroupByTransformFeature(l, ft.primitives.CumSum, groupby=g)
        if len(l) != 1:
            raise Fail('creating a group-by feature from a list of inputs changed that list', **info)
    l = [x, x]
    TransformFeature(l, ft.primitives.AddNumeric)
    if len(l) != 2:
        raise Fail('creating a transform feature changed the list of inputs', **info)
    ch = m.children(nm)
    if ch:
        y = b.ident(ch[0][2], ['num'])
        l = [y]
        from featuretools.entityset.relationship import RelationshipPath
        rel = [r for r in es.relationships if r.parent_entity.id == nm and r.child_entity.id == ch[0][2]][0]
        AggregationFeature(l, es[nm], ft.primitives.Sum, relationship_path=RelationshipPath([(False, rel)]))
        if len(l) != 1:
            raise Fail('creating an aggregation feature changed the list of inputs', **info)
    other = [q for q in m.names if q != nm]
    args = {'agg_primitives': ['sum', 'count', 'mode'], 'trans_primitives': ['add_numeric', 'is_null', 'diff'],
            'groupby_trans_primitives': ['cum_sum'], 'where_primitives': ['count'],
            'ignore_entities': other[:1] if rng.random() < 0.4 else [],
            'ignore_variables': {other[-1]: ['x']} if rng.random() < 0.5 else {},
            'drop_contains': ['SUM('] if rng.random() < 0.4 else [], 'drop_exact': ['x'],
            'primitive_options': {'sum': {'ignore_variables': {other[-1]: ['x']}}, ('add_numeric', 'is_null'): {'include_entities': [nm]}},
            'seed_features': [x]}
    if rng.random() < 0.5:
        args['allowed_paths'] = [[nm, q] for q in other]
    keep = copy.copy(args)
    vals = {k: repr(v) for k, v in args.items()}
    before = snap_es(es)
    info['args'] = vals
    if rng.random() < 0.5:
        es[nm]['x'].interesting_values = [1, 2]
        before = snap_es(es)
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        ft.dfs(entityset=es, target_entity=nm, features_only=True, max_depth=2, **args)
    for k, v in args.items():
        if repr(v) != vals[k]:
            raise Fail('feature synthesis changed its argument %s: %s -> %r' % (k, vals[k], v), **info)
    diff_es(before, snap_es(es), info, 'dfs')
    return '%s|%s' % (nm, sorted(vals.items()))


# ------------------------------------------------------------------ C08
def case_progress(rng, cfg):
    m, es, target, feats = make_case(rng, cfg)
    if not feats:
        return None
    num = m.numeric_time
    reqs = pick_cutoffs(rng, m, target, n=rng.randint(1, 12), unknown_p=0.1)
    kw = {'include_cutoff_time': rng.random() < 0.6}
    if rng.random() < 0.3:
        kw['chunk_size'] = rng.choice([1, 2, 0.5])
    if rng.random() < 0.3:
        b = Builder(rng, m, es)
        f = approximable(rng, b, m, es, target)
        if f is not None and not set(f.get_feature_names()) & {n for g in feats for n in g.get_feature_names()}:
            feats.append(f)
        kw['approximate'] = '%d hours' % rng.randint(1, 4) if not num else 2
    if rng.random() < 0.25:
        kw.pop('approximate', None)
        ids = [r[0] for r in reqs]
        kw['instance_ids'] = sorted(set(ids), key=ids.index)
        kw['cutoff_time'] = T(reqs[0][1], num)
    else:
        kw['cutoff_time'] = cut_df(m, reqs)
    log = []
    info = info_of(m, feats, reqs, target=target, kwargs=str(kw))
    note(**info)
    ft.calculate_feature_matrix(feats, es, progress_callback=lambda u, p, t: log.append((u, p, t)), **kw)
    if not log:
        raise Fail('no progress reported', **info)
    prev = 0.0
    info['reports'] = [(round(u, 6), round(p, 6)) for u, p, t in log][:200]
    for u, p, t in log:
        if p < -1e-6 or p > 100 + 1e-6:
            raise Fail('progress of %s percent reported' % p, **info)
        if p < prev - 1e-6:
            raise Fail('progress fell from %s to %s percent' % (prev, p), **info)
        if abs((p - prev) - u) > 1e-6:
            raise Fail('increment %s reported while progress went from %s to %s' % (u, prev, p), **info)
        if t < 0:
            raise Fail('negative elapsed time', **info)
        prev = p
    if abs(prev - 100) > 1e-6:
        raise Fail('last report is %s percent' % prev, **info)
    return '%s|%s' % ([str(f) for f in feats], len(log))


def case_run_progress(rng, cfg):
    """what one run of the calculator reports adds up to the whole, none of it negative"""
    from featuretools.computational_backends.feature_set import FeatureSet
    from featuretools.computational_backends.feature_set_calculator import FeatureSetCalculator
    m, es, target, feats = make_case(rng, cfg)
    ids = [r[m.ents[target].index] for r in m.ents[target].rows]
    if not feats or not ids:
        return None
    t = rng.randint(0, 9) if rng.random() < 0.6 else 0
    ids = rng.sample(ids, rng.randint(1, len(ids)))
    log = []
    info = info_of(m, feats, ids, target=target, cutoff=t)
    note(**info)
    FeatureSetCalculator(es, FeatureSet(feats), time_last=T(t, m.numeric_time)).run(es[target].df[m.ents[target].index].loc[ids].values, progress_callback=log.append,
                                                                                  include_cutoff_time=rng.random() < 0.6)
    if any(x < 0 for x in log) or abs(sum(log) - 1) > 1e-6:
        raise Fail('one run reports %r, in all %r' % ([round(x, 5) for x in log if x], sum(log)), **info)
    return '%s|%s' % ([str(f) for f in feats], t)
