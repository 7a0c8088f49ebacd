"""Oracle runs of calculate_feature_matrix against the reference semantics."""
import random
import numpy as np
import pandas as pd
import featuretools as ft
from gen import gen, build, T, UNIT, ordered
from feats import Builder
from featuretools.feature_base.feature_base import DirectFeature, GroupByTransformFeature
from featuretools import primitives as pr
import custom as cu
from ref import Ctx, column, same, isnull
from common import Fail


def pick_cutoffs(rng, m, target, n=None, unknown_p=0.1):
    e = m.ents[target]
    ids = [r[e.index] for r in e.rows]
    isstr = m.kinds[target]
    n = n or rng.randint(1, 8)
    reqs, seen = [], set()
    for _ in range(n):
        if rng.random() < unknown_p or not ids:
            i = 'unk%d' % rng.randint(0, 2) if isstr else 700 + rng.randint(0, 2)
        else:
            i = rng.choice(ids)
        t = rng.randint(0, 9)
        if (i, t) in seen:
            continue
        seen.add((i, t))
        reqs.append((i, t))
    return reqs


def make_case(rng, cfg):
    g = dict(cfg.get('gen', {}))
    m = gen(rng, **g)
    es = build(m)
    target = rng.choice(m.names)
    if cfg.get('target') == 'root':
        target = m.names[0]
    b = Builder(rng, m, es, **cfg.get('feat', {}))
    feats, names = [], set()
    for _ in range(rng.randint(1, cfg.get('maxf', 4))):
        f = b.top(target, depth=cfg.get('depth', 2))
        if f is not None and not names & set([f.get_name()] + f.get_feature_names()):
            names |= set([f.get_name()] + f.get_feature_names())
            feats.append(f)
    if cfg.get('parts_p', 0.3) > rng.random():
        # also request some of the features the requested ones are made of
        for f in list(feats):
            for q in parts(f):
                if type(q).__name__ == 'FeatureOutputSlice':
                    continue
                if q.entity.id == target and rng.random() < 0.5 and not names & set([q.get_name()] + q.get_feature_names()):
                    names |= set([q.get_name()] + q.get_feature_names())
                    feats.append(q)
                # and the requested ones' inputs elsewhere, brought here by a direct feature of their own
                elif q.entity.id != target and rng.random() < 0.4:
                    for r in es.relationships:
                        if r.child_entity.id == target and r.parent_entity.id == q.entity.id:
                            g = DirectFeature(q, es[target], relationship=r)
                            if not names & set([g.get_name()] + g.get_feature_names()):
                                names |= set([g.get_name()] + g.get_feature_names())
                                feats.append(g)
        for f in list(feats):
            # a companion in the same group
            if type(f) is GroupByTransformFeature and len(f.base_features) == 2 and getattr(f.base_features[0], '_kind', None) == 'num':
                g = GroupByTransformFeature(f.base_features[0], rng.choice([cu.RunList, cu.RunArray, pr.CumSum, pr.CumMax]), groupby=f.groupby)
                if g.get_name() not in names:
                    names.add(g.get_name())
                    feats.append(g)
        rng.shuffle(feats)
    return m, es, target, feats[:6]


def parts(f):
    out = []
    for q in f.base_features:
        out += [q] + parts(q)
    return out


def default(f):
    n = f.number_output_features
    return f.default_value if n == 1 else [f.default_value] * n


def expected(m, feats, target, reqs, window, include, group=None):
    ctxs = {}
    out = []
    for (i, t) in reqs:
        c = ctxs.setdefault(t, Ctx(m, t, window, include))
        row = []
        for f in feats:
            col = column(f, c)
            row.append(col[i] if i in col else default(f))
        out.append(row)
    return out


def cut_df(m, reqs, extra=None):
    d = {'instance_id': [r[0] for r in reqs], 'time': [T(r[1], m.numeric_time) for r in reqs]}
    df = pd.DataFrame(d)
    if extra:
        for k, v in extra.items():
            df[k] = v
    return df


def compare(fm, exp, feats, reqs, info):
    if len(fm) != len(reqs):
        raise Fail('feature matrix has %d rows for %d requests' % (len(fm), len(reqs)), **info)
    for j, f in enumerate(feats):
        for k, nm in enumerate(f.get_feature_names()):
            if nm not in fm.columns:
                raise Fail('column %s missing' % nm, **info)
            vals = list(fm[nm])
            for i in range(len(reqs)):
                ex = exp[i][j] if f.number_output_features == 1 else exp[i][j][k]
                if not same(ex, vals[i]):
                    raise Fail('feature %s of instance %r at cutoff %s: expected %r, got %r' % (nm, reqs[i][0], reqs[i][1], ex, vals[i]), **info)


def info_of(m, feats, reqs, **kw):
    d = {'model': m.describe(), 'features': [str(f) for f in feats], 'requests': reqs}
    d.update(kw)
    return d


def case_cfm(rng, cfg):
    m, es, target, feats = make_case(rng, cfg)
    if not feats:
        return None
    reqs = pick_cutoffs(rng, m, target)
    window = rng.randint(1, 6) if (rng.random() < cfg.get('window_p', 0.3) and not m.numeric_time) else None
    include = rng.random() < 0.6
    kw = {}
    if window:
        kw['training_window'] = rng.choice(['%d hours' % window, ft.Timedelta(window, 'h'), ft.Timedelta(window * 60, 'm'), '%d h' % window])
    if rng.random() < 0.3:
        kw['chunk_size'] = rng.choice([1, 2, 3, 0.5])
    single = rng.random() < cfg.get('single_p', 0.15)
    if single:
        t = reqs[0][1]
        ids = []
        for r in reqs:
            if r[0] not in ids:
                ids.append(r[0])
        reqs = [(i, t) for i in ids]
        fm = ft.calculate_feature_matrix(feats, es, instance_ids=ids, cutoff_time=T(t, m.numeric_time), include_cutoff_time=include, **kw)
    else:
        fm = ft.calculate_feature_matrix(feats, es, cutoff_time=cut_df(m, reqs), include_cutoff_time=include, **kw)
    info = info_of(m, feats, reqs, target=target, window=window, include=include, kwargs=str(kw), single=single)
    exp = expected(m, feats, target, reqs, window, include)
    if list(fm.index) != [r[0] for r in reqs]:
        raise Fail('index %s instead of %s' % (list(fm.index), [r[0] for r in reqs]), **info)
    compare(fm, exp, feats, reqs, info)
    return '%s|%s' % ([str(f) for f in feats], len(reqs))
