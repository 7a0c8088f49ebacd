"""F01-F04: saving features, feature identity, encoding, selection."""
import io
import math
import os
import shutil
import tempfile
from collections import Counter

import numpy as np
import pandas as pd

import featuretools as ft
from featuretools import primitives as pr
from featuretools.feature_base.feature_base import (AggregationFeature, DirectFeature, FeatureBase, FeatureOutputSlice,
                                                    GroupByTransformFeature, IdentityFeature, TransformFeature)
from featuretools.variable_types import Discrete
from feats import Builder
from gen import build, gen
from common import Fail, note
from o_cfm import cut_df, info_of, make_case, pick_cutoffs
from o_cfm2 import cell_eq, same_frames
import custom as cu


def psig(p):
    return (type(p).__module__, type(p).__name__, tuple(sorted((k, repr(v)) for k, v in p.get_arguments())),
            p.number_output_features)


def rsig(path):
    return tuple((bool(fwd), r.parent_entity.id, r.parent_variable.id, r.child_entity.id, r.child_variable.id) for fwd, r in path)


def sig(f, name=True):
    """everything a feature definition says, recursively"""
    out = [type(f).__name__, f.entity_id if name != 'deep' else f.entity_id, f.number_output_features, f.variable_type.__name__]
    if name:
        out += [f.get_name(), tuple(f.get_feature_names())]
    if isinstance(f, IdentityFeature):
        out += [f.variable.id, f.variable.entity_id]
    else:
        out += [tuple(sig(b) for b in f.base_features), rsig(f.relationship_path)]
        if not isinstance(f, DirectFeature):
            out.append(psig(f.primitive))
    if isinstance(f, AggregationFeature):
        out += [sig(f.where) if f.where is not None else None,
                sorted(f.use_previous.times.items()) if f.use_previous is not None else None, f.parent_entity.id, f.child_entity.id]
    if isinstance(f, GroupByTransformFeature):
        out.append(sig(f.groupby))
    if isinstance(f, FeatureOutputSlice):
        out += [f.n]
    d = f.default_value
    out.append('nan' if isinstance(d, float) and math.isnan(d) else d)
    return tuple(out)


def closure(f, seen=None):
    """identity-based set of the features reachable from f (without f)"""
    seen = {} if seen is None else seen
    for d in list(f.base_features) + ([f.where] if getattr(f, 'where', None) is not None else []):
        if id(d) not in seen:
            seen[id(d)] = d
            closure(d, seen)
    return seen


def depth(f):
    if isinstance(f, IdentityFeature):
        return 0
    return 1 + max([depth(d) for d in list(f.base_features) + ([f.where] if getattr(f, 'where', None) is not None else [])] or [0])


def uniquely_named(feats):
    """distinct definitions have distinct names (what saving by name relies on)"""
    seen = {}
    for f in feats:
        for g in [f] + list(closure(f).values()):
            if seen.setdefault(g.unique_name(), sig(g)) != sig(g):
                return False
    return True


def maybe_rename(rng, feats):
    out = []
    for i, f in enumerate(feats):
        out.append(f.rename('named %d' % i) if rng.random() < .2 else f)
    return out


# ------------------------------------------------------------------- F01
def case_save(rng, cfg):
    m, es, target, feats = make_case(rng, dict(cfg, maxf=4, depth=3))
    if not feats:
        return None
    feats = maybe_rename(rng, feats)
    if rng.random() < .3:
        multi = [f for f in feats if f.number_output_features > 1]
        feats = feats + [TransformFeature(f[rng.choice([0, 1])], pr.Negate) for f in multi[:1]]
    if rng.random() < .2:
        others = [nm for nm in m.names if nm != target]
        if others:
            b = Builder(rng, m, es)
            f = b.feature(rng.choice(others), depth=1)
            if f is not None:
                feats = feats + [f]
    if not uniquely_named(feats):
        return None
    before = [sig(f) for f in feats]
    info = info_of(m, feats, [], target=target)
    note(**info)
    form = rng.choice(['string', 'file', 'handle'])
    d = tempfile.mkdtemp(prefix='vp_f_')
    try:
        if form == 'string':
            back = ft.load_features(ft.save_features(feats))
        elif form == 'file':
            p = os.path.join(d, 'f.json')
            ft.save_features(feats, p)
            back = ft.load_features(p)
        else:
            b = io.StringIO()
            ft.save_features(feats, b)
            b.seek(0)
            back = ft.load_features(b)
    finally:
        shutil.rmtree(d, ignore_errors=True)
    if len(back) != len(feats):
        raise Fail('%d features saved, %d loaded' % (len(feats), len(back)), **info)
    for f, g, s in zip(feats, back, before):
        if sig(f) != s:
            raise Fail('saving changed the definition of %s' % f, **info)
        if sig(g) != s:
            raise Fail('feature %s was loaded as %s\n%s\n%s' % (f, g, s, sig(g)), **info)
        if g.unique_name() != f.unique_name() or hash(f) != hash(g):
            raise Fail('unique name or hash of %s changed' % f, **info)
        a = sorted(x.unique_name() for x in f.get_dependencies(deep=True))
        b = sorted(x.unique_name() for x in g.get_dependencies(deep=True))
        if a != b:
            raise Fail('dependencies of %s: %s became %s' % (f, a, b), **info)
    same_es = [f for f in feats if f.entity_id == target]
    loaded = [g for g in back if g.entity_id == target]
    reqs = pick_cutoffs(rng, m, target, n=4)
    if not same_es:
        return None
    fm1 = ft.calculate_feature_matrix(same_es, es, cutoff_time=cut_df(m, reqs))
    fm2 = ft.calculate_feature_matrix(loaded, es, cutoff_time=cut_df(m, reqs))
    if list(fm1.columns) != list(fm2.columns):
        raise Fail('columns of the loaded features are %s, not %s' % (list(fm2.columns), list(fm1.columns)), **info)
    same_frames(fm1, fm2, 'loaded features', info)
    again = ft.load_features(ft.save_features(back))
    if [sig(f) for f in again] != before:
        raise Fail('a second round trip changes the features', **info)
    return '%s|%s' % (form, [str(f) for f in feats])


def case_save_prims(rng, cfg):
    """primitive arguments survive"""
    m, es, target, _ = make_case(rng, dict(cfg, maxf=1, depth=1))
    nums = [c for c, k in m.ents[target].cols.items() if k == 'num']
    if not nums:
        return None
    x = IdentityFeature(es[target][nums[0]])
    ps = [pr.AddNumericScalar(value=rng.choice([0, 1, -2.5, 3])), pr.MultiplyNumericScalar(rng.choice([1, 0, 2, -.5])),
          pr.ScalarSubtractNumericFeature(rng.choice([0, 4])), pr.GreaterThanScalar(rng.choice([0, 2, -1.5])), pr.EqualScalar(rng.choice([None, 0, 'u', 1.5])),
          pr.IsIn(rng.choice([None, [1, 2], [0], [1.5, 'a']])), pr.DivideByFeature(rng.choice([1, 2, 0])), pr.ModuloNumericScalar(rng.choice([1, 3])),
          pr.SubtractNumericScalar(rng.choice([0, 1])), pr.NotEqualScalar(rng.choice([None, 3]))]
    feats = [TransformFeature(x, p) for p in rng.sample(ps, rng.randint(1, 5))]
    kids = m.children(target)
    if kids:
        r = rng.choice(kids)
        cn = [c for c, k in m.ents[r[2]].cols.items() if k == 'num']
        if cn:
            rel = [q for q in es.relationships if q.parent_entity.id == target and q.child_entity.id == r[2] and q.child_variable.id == r[3]][0]
            from featuretools.entityset.relationship import RelationshipPath
            feats.append(AggregationFeature(es[r[2]][cn[0]], es[target], pr.Mean(skipna=rng.random() < .5), relationship_path=RelationshipPath([(False, rel)])))
    if not uniquely_named(feats) or len(set(f.get_name() for f in feats)) < len(feats):
        return None
    info = info_of(m, feats, [])
    back = ft.load_features(ft.save_features(feats))
    for f, g in zip(feats, back):
        if sig(f) != sig(g) or vars_of(f.primitive) != vars_of(g.primitive):
            raise Fail('%s was loaded as %s: %s %s' % (f, g, vars_of(f.primitive), vars_of(g.primitive)), **info)
    return str([(str(f), psig(f.primitive)) for f in feats])


def vars_of(p):
    return {k: repr(v) for k, v in vars(p).items() if not callable(v)}


# ------------------------------------------------------------------- F02
def case_identity(rng, cfg):
    m, es, target, feats = make_case(rng, dict(cfg, maxf=2, depth=3))
    if not feats:
        return None
    f = rng.choice(maybe_rename(rng, feats))
    if f.number_output_features > 1 and rng.random() < .4:
        f = f[rng.choice([0, 1])]
    info = info_of(m, [f], [], target=target)
    note(**info)
    s0 = sig(f)
    direct = list(f.base_features) + ([f.where] if getattr(f, 'where', None) is not None else [])
    got = f.get_dependencies()
    if sorted(map(id, got)) != sorted(map(id, direct)):
        raise Fail('direct dependencies are %s, expected %s' % (got, direct), **info)
    deep = f.get_dependencies(deep=True)
    want = closure(f)
    if set(x.unique_name() for x in deep) != set(x.unique_name() for x in want.values()):
        raise Fail('deep dependencies are %s, expected %s' % (deep, list(want.values())), **info)
    if f.get_depth() != depth(f):
        raise Fail('depth is %s, expected %s' % (f.get_depth(), depth(f)), **info)
    if want and rng.random() < .5:
        ign = rng.choice(list(want.values()))
        names = {ign.unique_name()}
        got = set(x.unique_name() for x in f.get_dependencies(deep=True, ignored=names))

        def walk(g, out):
            for d in list(g.base_features) + ([g.where] if getattr(g, 'where', None) is not None else []):
                if d.unique_name() not in names:
                    out.add(d.unique_name())
                    walk(d, out)
            return out
        if got != walk(f, set()):
            raise Fail('dependencies ignoring %s are %s' % (ign, got), **info)
    c = f.copy() if rng.random() < .6 else f.rename('its new name').copy().rename(f.get_name())
    if f.rename('its new name').copy().get_name() != 'its new name':
        raise Fail('a copy of a renamed feature has another name', **info)
    if sig(c) != sig(f):
        raise Fail('a copy differs: %s %s' % (sig(c, False), sig(f, False)), **info)
    nm = rng.choice(['new name', 'x', f.get_name(), 'a = b'])
    r = f.rename(nm)
    if r.get_name() != nm or sig(r, False) != sig(f, False) or type(r) is not type(f):
        raise Fail('renaming to %r gives %s' % (nm, sig(r)), **info)
    if sig(f) != s0:
        raise Fail('the feature changed while being inspected', **info)
    if f.number_output_features == 1:
        if r.get_feature_names() != [nm] or f.get_feature_names() != [f.get_name()]:
            raise Fail('names of a single-output feature: %s' % r.get_feature_names(), **info)
    else:
        for g in (f, r):
            ns = g.get_feature_names()
            if len(ns) != g.number_output_features or len(set(ns)) != len(ns):
                raise Fail('output names %s' % ns, **info)
            for i in range(g.number_output_features):
                if g[i].get_name() != ns[i] or g[i].number_output_features != 1 or g[i].n != i:
                    raise Fail('slice %d is named %s instead of %s' % (i, g[i].get_name(), ns[i]), **info)
            try:
                g[g.number_output_features]
            except Exception:
                pass
            else:
                raise Fail('slice beyond the outputs', **info)
        if nm != f.get_name() and set(r.get_feature_names()) & set(f.get_feature_names()):
            raise Fail('a renamed feature keeps the old output names %s' % r.get_feature_names(), **info)
    if isinstance(f, FeatureOutputSlice):     # slices are inputs of features, not requested themselves
        return str(f)
    # values: slices and renamed features
    reqs = pick_cutoffs(rng, m, f.entity_id, n=3)
    top = [f, f.rename('renamed')]
    if f.number_output_features > 1:
        i = rng.randrange(f.number_output_features)
        top.append(TransformFeature(f[i], pr.Negate))
    here = presence(m, es, f.entity_id)
    fm = ft.calculate_feature_matrix(top + [here], es, cutoff_time=cut_df(m, reqs))
    fm = fm[fm['here?'].notnull()]     # instances without data get defaults
    a, b = f.get_feature_names(), f.rename('renamed').get_feature_names()
    for x, y in zip(a, b):
        if not all(cell_eq(u, v) for u, v in zip(fm[x], fm[y])):
            raise Fail('a renamed feature has other values: %s %s' % (list(fm[x]), list(fm[y])), **info)
    if f.number_output_features > 1:
        if not all(cell_eq(-u if not pd.isnull(u) else u, v) or pd.isnull(u) for u, v in zip(fm[a[i]], fm[top[2].get_name()])):
            raise Fail('slice %d is %s but its negation is %s' % (i, list(fm[a[i]]), list(fm[top[2].get_name()])), **info)
    return str(f)


OPS = {
    'add': (lambda a, b: a + b), 'sub': (lambda a, b: a - b), 'mul': (lambda a, b: a * b), 'div': (lambda a, b: a / b),
    'mod': (lambda a, b: a % b), 'gt': (lambda a, b: a > b), 'ge': (lambda a, b: a >= b), 'lt': (lambda a, b: a < b),
    'le': (lambda a, b: a <= b), 'eq': (lambda a, b: a == b), 'ne': (lambda a, b: a != b)}


def pyop(op, a, b):
    nul = pd.isnull(a) or pd.isnull(b)
    if op in ('gt', 'ge', 'lt', 'le', 'eq'):
        return False if nul else OPS[op](a, b)
    if op == 'ne':
        return True if nul else a != b
    if nul:
        return float('nan')
    if op == 'div':
        if b == 0:
            return float('nan') if a == 0 else math.copysign(math.inf, a)
    if op == 'mod':
        return float('nan') if b == 0 else a - math.floor(a / b) * b
    return float(OPS[op](a, b))


def case_operators(rng, cfg):
    m, es, target, _ = make_case(rng, dict(cfg, maxf=1, depth=1))
    b = Builder(rng, m, es)
    x, y = b.feature(target, 'num', 1), b.feature(target, 'num', 1)
    p, q = b.feature(target, 'bool', 1), b.feature(target, 'bool', 1)
    if getattr(x, '_kind', None) != 'num' or getattr(y, '_kind', None) != 'num':
        return None
    if isinstance(x, FeatureOutputSlice) or isinstance(y, FeatureOutputSlice):
        return None
    reqs = pick_cutoffs(rng, m, target, n=4, unknown_p=0)
    op = rng.choice(list(OPS) + ['neg', 'abs', 'and', 'or', 'not', 'isin', 'null', 'boolmul'])
    k = rng.choice([1, 2, -3, 2.5, 0])
    mode = rng.choice(['ff', 'fs', 'sf'])
    info = info_of(m, [x, y], reqs, op=op, mode=mode, scalar=k)
    note(**info)
    if op in OPS:
        if op in ('div', 'mod') and mode == 'fs' and k == 0:
            k = 2
        l, r = {'ff': (x, y), 'fs': (x, k), 'sf': (k, x)}[mode]
        f = OPS[op](l, r)
        ref = {'ff': lambda a, c: pyop(op, a, c), 'fs': lambda a, c: pyop(op, a, k), 'sf': lambda a, c: pyop(op, k, a)}[mode]
    elif op in ('and', 'or', 'not', 'boolmul'):
        if getattr(p, '_kind', None) != 'bool' or getattr(q, '_kind', None) != 'bool':
            return None
        x, y = p, q
        if isinstance(x, FeatureOutputSlice) or isinstance(y, FeatureOutputSlice):
            return None
        f = {'and': lambda: rng.choice([p & q, p.AND(q)]), 'or': lambda: rng.choice([p | q, p.OR(q)]), 'not': lambda: rng.choice([~p, p.NOT()]), 'boolmul': lambda: p * q}[op]()
        ref = {'and': lambda a, c: bool(a) and bool(c), 'boolmul': lambda a, c: bool(a) and bool(c), 'or': lambda a, c: bool(a) or bool(c), 'not': lambda a, c: not bool(a)}[op]
    else:
        L = rng.sample([0, 1, 2, 3, -1], rng.randint(0, 3))
        f = {'neg': lambda: -x, 'abs': lambda: abs(x), 'isin': lambda: x.isin(L), 'null': lambda: x.is_null()}[op]()
        ref = {'neg': lambda a, c: -a, 'abs': lambda a, c: abs(a), 'isin': lambda a, c: (not pd.isnull(a)) and a in L, 'null': lambda a, c: bool(pd.isnull(a))}[op]
    names = [f.get_name(), x.get_name(), y.get_name()]
    if f.entity_id != target:
        raise Fail('operator feature %s' % f, **info)
    if names[0] in names[1:]:
        return None
    here = presence(m, es, target)
    fm = ft.calculate_feature_matrix([f, here] + [g for i, g in enumerate([x, y]) if i == 0 or y.get_name() != x.get_name()], es, cutoff_time=cut_df(m, reqs))
    for i in range(len(fm)):
        if pd.isnull(fm[here.get_name()].iloc[i]):
            continue       # no data of the instance at this time: defaults
        a, c, g = fm[names[1]].iloc[i], fm[names[2]].iloc[i], fm[names[0]].iloc[i]
        if op in ('and', 'or', 'not', 'boolmul') and (pd.isnull(a) or pd.isnull(c)):
            continue
        e = ref(a, c)
        if not cell_eq(g, e):
            raise Fail('%s on row %d is %r but its inputs are %r and %r (expected %r)' % (f, i, g, a, c, e), **info)
    return '%s|%s|%s' % (op, mode, f)


# ------------------------------------------------------------------- F03
def presence(m, es, target):
    return IdentityFeature(es[target][m.ents[target].index]).rename('here?')


def case_encode(rng, cfg):
    m, es, target, feats = make_case(rng, dict(cfg, maxf=2, depth=2, gen=dict(maxrows=12)))
    b = Builder(rng, m, es)
    names = set(x for f in feats for x in f.get_feature_names())
    for _ in range(rng.randint(1, 3)):
        f = b.feature(target, 'cat', rng.choice([0, 1, 2]))
        if f is not None and f.get_name() not in names and getattr(f, '_kind', None) == 'cat':
            names.add(f.get_name())
            feats.insert(rng.randint(0, len(feats)), f)
    if not feats or any(n.startswith(f.get_name() + s) for f in feats for s in (' = ', ' is unknown') for n in names):
        return None
    ids = [r[m.ents[target].index] for r in m.ents[target].rows]
    if not ids:
        return None
    t = rng.choice([4, 8, 20])
    extra = rng.random() < .4
    from gen import T
    if extra:
        ct = cut_df(m, [(i, t) for i in ids], {'label': [rng.choice(['q', 'r']) for _ in ids]})
        fm = ft.calculate_feature_matrix(feats, es, cutoff_time=ct)
    else:
        fm = ft.calculate_feature_matrix(feats, es, instance_ids=ids, cutoff_time=T(t, m.numeric_time))
    cats = [f for f in feats if issubclass(f.variable_type, Discrete) and f.number_output_features == 1]
    top = rng.choice([10, 1, 2, 3, {f.get_name(): rng.randint(1, 3) for f in cats if rng.random() < .6}])
    inc = rng.random() < .6
    drop = rng.random() < .4
    to = None if rng.random() < .6 else [f.get_name() for f in feats if rng.random() < .6]
    inplace = rng.random() < .3
    info = info_of(m, feats, [], target=target, top_n=str(top), include_unknown=inc, drop_first=drop, to_encode=str(to), inplace=inplace, matrix=fm.to_dict('list'))
    note(**info)
    orig = fm.copy()
    flist = list(feats)
    enc, fe = ft.encode_features(fm, feats, top_n=top, include_unknown=inc, drop_first=drop, to_encode=to, inplace=inplace)
    if [id(f) for f in feats] != [id(f) for f in flist]:
        raise Fail('the feature list was changed', **info)
    if not inplace:
        same_frames(orig, fm, 'the original matrix', info)
        if list(fm.columns) != list(orig.columns):
            raise Fail('the original matrix has other columns now', **info)
    if list(enc.index) != list(orig.index):
        raise Fail('the rows changed', **info)
    fnames = [n for f in fe for n in f.get_feature_names()]
    passed = [c for c in orig.columns if c not in [n for f in feats for n in f.get_feature_names()]]
    if list(enc.columns) != fnames + passed:
        raise Fail('columns %s do not match the returned features %s' % (list(enc.columns), fnames + passed), **info)
    pos = 0
    for f in feats:
        nm = f.get_name()
        if not any(c is f for c in cats) or (to is not None and nm not in to):
            if fe[pos].unique_name() != f.unique_name():
                raise Fail('feature %s was not kept in its place (%s)' % (f, fe[pos]), **info)
            pos += 1
            for c in f.get_feature_names():
                if not all(cell_eq(x, y) for x, y in zip(orig[c], enc[c])):
                    raise Fail('column %s changed' % c, **info)
            continue
        vals = [None if pd.isnull(v) else v for v in orig[nm]]
        cnt = Counter(v for v in vals if v is not None)
        n = top.get(nm, 10) if isinstance(top, dict) else top
        n = min(n, len(cnt))
        if drop:
            n = max(n - 1, min(1, len(cnt)))
        labels = []
        while pos < len(fe) and fe[pos].get_name().startswith(nm + ' = ') and len(labels) < n:
            labels.append(fe[pos].primitive.value)
            pos += 1
        if len(labels) != n or len(set(labels)) != n or sorted((cnt[l] for l in labels), reverse=True) != sorted(cnt.values(), reverse=True)[:n]:
            raise Fail('encoded values of %s are %s, expected the %d most frequent of %s' % (nm, labels, n, dict(cnt)), **info)
        for l in labels:
            c = '%s = %s' % (nm, l)
            if [bool(x) for x in enc[c]] != [v == l for v in vals]:
                raise Fail('indicator %s is %s for values %s' % (c, list(enc[c]), vals), **info)
        if inc:
            c = nm + ' is unknown'
            if fe[pos].get_name() != c or [bool(x) for x in enc[c]] != [v not in labels for v in vals]:
                raise Fail('indicator of other values of %s is wrong' % nm, **info)
            pos += 1
    if pos != len(fe):
        raise Fail('surplus features %s' % fe[pos:], **info)
    for c in passed:
        if not all(cell_eq(x, y) for x, y in zip(orig[c], enc[c])):
            raise Fail('pass-through column %s changed' % c, **info)
    if not fe:
        return None
    here = presence(m, es, target)
    if extra:
        re = ft.calculate_feature_matrix([here] + fe, es, cutoff_time=ct)
    else:
        re = ft.calculate_feature_matrix([here] + fe, es, instance_ids=ids, cutoff_time=T(t, m.numeric_time))
    # instances without data at the cutoff get defaults
    ok = [not pd.isnull(v) for v in re['here?']]
    same_frames(enc[ok], re[ok], 'computing the encoded features', info, cols=fnames)
    return '%s|%s|%s|%s|%s' % ([str(f) for f in feats], top, inc, drop, to)


# ------------------------------------------------------------------- F04
def rand_matrix(rng):
    n = rng.choice([1, 2, 3, 5, 10, 20])
    cols = {}
    base = [rng.randint(-5, 5) for _ in range(n)]
    for j in range(rng.randint(1, 7)):
        k = rng.choice(['num', 'const', 'null', 'cat', 'lin', 'noise', 'bool', 'one', 'nulls', 'zero', 'i16', 'i16', 'f32', 'f32'])
        if k in ('i8', 'i16', 'f32'):
            v = np.array([rng.choice([1, -1]) * x for x in base] if rng.random() < .4 else [rng.randint(-5, 5) for _ in range(n)],
                         dtype={'i8': 'int8', 'i16': 'int16', 'f32': 'float32'}[k])
        elif k == 'num':
            v = [rng.randint(-5, 5) for _ in range(n)]
        elif k == 'const':
            v = [3] * n
        elif k == 'null':
            v = [float('nan')] * n
        elif k == 'cat':
            v = [rng.choice(['a', 'b', None]) for _ in range(n)]
        elif k == 'lin':
            s = rng.choice([1, -2, .5])
            v = [s * x + 1. for x in base]
        elif k == 'noise':
            v = [x + rng.choice([0, 0, 0, 1, -1, 2]) for x in base]
        elif k == 'bool':
            v = [rng.random() < .5 for _ in range(n)]
        elif k == 'one':
            v = [1.] * (n - 1) + [float('nan')]
        elif k == 'zero':
            v = [0.] * n
        else:
            p = rng.choice([.1, .5, .9])
            v = [float('nan') if rng.random() < p else 1. * rng.randint(0, 3) for _ in range(n)]
        cols['c%d' % j] = v
    order = list(cols)
    rng.shuffle(order)
    return pd.DataFrame({c: cols[c] for c in order}, index=rng.sample(range(50), n)), base


def multi_feats(rng, cols):
    """features whose output columns are those of the matrix (in order)"""
    es = ft.EntitySet('s')
    es.entity_from_dataframe('s', pd.DataFrame({'s_id': [0, 1], 'v': [1., 2.], 'w': [2., 3.]}), index='s_id')
    es.entity_from_dataframe('k', pd.DataFrame({'k_id': [0, 1], 's': [0, 1], 'v': [1., 2.]}), index='k_id')
    es.add_relationship(ft.Relationship(es['s']['s_id'], es['k']['s']))
    feats, names = [], []
    j = 0
    n = len(cols)
    while j < n:
        if j + 1 < n and rng.random() < .35:
            f = TransformFeature(es['s']['v'], cu.PlusMinus).rename('m%d' % j) if rng.random() < .5 else AggregationFeature(es['k']['v'], es['s'], cu.Spread).rename('m%d' % j)
            names += f.get_feature_names()
            j += 2
        else:
            f = IdentityFeature(es['s']['v']).rename(cols[j])
            names.append(cols[j])
            j += 1
        feats.append(f)
    return feats, names


def corr(a, b):
    p = [(float(x), float(y)) for x, y in zip(a, b) if not pd.isnull(x) and not pd.isnull(y)]
    n = len(p)
    if n < 2:
        return float('nan')
    mx, my = sum(x for x, _ in p) / n, sum(y for _, y in p) / n
    sx, sy = sum((x - mx) ** 2 for x, _ in p), sum((y - my) ** 2 for _, y in p)
    if sx < 1e-12 or sy < 1e-12:
        return float('nan')
    return sum((x - mx) * (y - my) for x, y in p) / math.sqrt(sx * sy)


def case_select(rng, cfg):
    from featuretools import selection as S
    fm, _ = rand_matrix(rng)
    with_f = rng.random() < .6
    feats = None
    if with_f:
        feats, names = multi_feats(rng, list(fm.columns))
        fm.columns = names
        if rng.random() < .2:
            fm['label'] = 1
    which = rng.choice(['low', 'null', 'single', 'corr', 'corr'])
    info = {'matrix': fm.to_dict('list'), 'dtypes': str(list(fm.dtypes)), 'function': which, 'features': str(feats)}
    note(**info)
    cols = list(fm.columns)
    vals = {c: list(fm[c]) for c in cols}
    nul = {c: [bool(pd.isnull(v)) for v in vals[c]] for c in cols}
    uniq = {c: len(set(v for v in vals[c] if not pd.isnull(v))) for c in cols}
    keep0 = fm.copy()
    args = [fm] + ([feats] if with_f else [])
    if which == 'low':
        want = [c for c in cols if uniq[c] >= 1 and uniq[c] + any(nul[c]) >= 2]
        r = S.remove_low_information_features(*args)
    elif which == 'null':
        th = rng.choice([0, .1, .5, .9, .95, 1, 1.0, 0.0, .2])
        info['threshold'] = th
        want = [c for c in cols if (sum(nul[c]) / len(fm) < th if th else not any(nul[c]))]
        r = S.remove_highly_null_features(*args, pct_null_threshold=th)
        for bad in (-.1, 1.1):
            try:
                S.remove_highly_null_features(fm, pct_null_threshold=bad)
            except ValueError:
                continue
            raise Fail('threshold %s accepted' % bad, **info)
    elif which == 'single':
        cn = rng.random() < .5
        info['count_nan_as_value'] = cn
        want = [c for c in cols if uniq[c] + (cn and any(nul[c])) >= 2]
        r = S.remove_single_value_features(*args, count_nan_as_value=cn)
    else:
        th = rng.choice([.95, .5, .9, 1., .3])
        chk = None if rng.random() < .6 else rng.sample(cols, rng.randint(1, len(cols)))
        kp = None if rng.random() < .6 else rng.sample(cols, rng.randint(0, len(cols)))
        info.update(threshold=th, check=chk, keep=kp)
        order = [c for c in (chk if chk is not None else cols)]
        order = [c for c in order if fm[c].dtype.kind in 'ifb']
        exact = None
        if len(order) > 1 and rng.random() < .45:
            i, j = sorted(rng.sample(range(len(order)), 2))
            x, y = (abs(fm[order[a]].corr(fm[order[b]])) for a, b in ((i, j), (j, i)))
            if x == y and .05 < x <= 1:
                th, exact = float(x), {(order[i], order[j])}
                info.update(threshold=th, exact_pair=str(exact))
        drop = set()
        for j, c in enumerate(order):
            for d in order[:j]:
                q = abs(corr(vals[c], vals[d]))
                if exact and ((d, c) in exact or abs(abs(fm[c].corr(fm[d])) - th) == 0 == abs(abs(fm[d].corr(fm[c])) - th)):
                    drop.add(c)
                    continue
                if abs(q - th) < 1e-9 and th != 1.:
                    return None
                if th == 1. and 1 - 1e-7 < q:
                    return None
                if q >= th:
                    drop.add(c)
        want = [c for c in cols if c not in drop or (kp and c in kp)]
        r = S.remove_highly_correlated_features(*args, pct_corr_threshold=th, features_to_check=chk, features_to_keep=kp)
    got, gf = r if with_f else (r, None)
    if list(got.columns) != want:
        raise Fail('%s keeps %s, expected %s' % (which, list(got.columns), want), **info)
    if list(got.index) != list(fm.index):
        raise Fail('rows changed', **info)
    for c in want:
        if not all(cell_eq(a, b) for a, b in zip(got[c], keep0[c])):
            raise Fail('column %s changed' % c, **info)
    if list(fm.columns) != cols or not fm.equals(keep0):
        raise Fail('the input matrix was changed', **info)
    if with_f:
        names = [n for f in gf for n in f.get_feature_names()]
        if names != [c for c in want if c != 'label']:
            raise Fail('returned features name the columns %s, kept are %s' % (names, want), **info)
        exp = []
        for f in feats:
            ns = f.get_feature_names()
            k = [n for n in ns if n in want]
            if len(k) == len(ns):
                exp.append(f.unique_name())
            else:
                exp += ['s: ' + n for n in k]
        if [f.unique_name() for f in gf] != exp or any(f.number_output_features == 1 and not any(f is g for g in feats) and not isinstance(f, FeatureOutputSlice) for f in gf):
            raise Fail('returned features are %s, expected %s' % (gf, exp), **info)
    return '%s|%s|%s' % (which, want, info['dtypes'])
