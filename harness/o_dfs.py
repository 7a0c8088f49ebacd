"""D01-D03: deep feature synthesis against a declarative description of its result."""
import itertools
import random
import warnings

import pandas as pd

import featuretools as ft
from featuretools import primitives as pr
from featuretools import variable_types as vt
from featuretools.entityset.relationship import RelationshipPath
from featuretools.feature_base.feature_base import (AggregationFeature, DirectFeature, FeatureBase, FeatureOutputSlice,
                                                    GroupByTransformFeature, IdentityFeature, TransformFeature)
from featuretools.primitives.base import AggregationPrimitive, TransformPrimitive
from featuretools.synthesis import deep_feature_synthesis as dfsmod
from featuretools.variable_types import Boolean, Discrete, Id, Numeric
from common import Fail, note
from gen import build, gen, T
import custom as cu

DeepFeatureSynthesis = dfsmod.DeepFeatureSynthesis


class PairMax(TransformPrimitive):
    """two interchangeable inputs"""
    name = 'pair_max'
    input_types = [vt.Numeric, vt.Numeric]
    return_type = vt.Numeric
    commutative = True

    def get_function(self):
        return lambda a, b: a.combine(b, max)

    def generate_name(self, base_feature_names):
        return 'PAIR_MAX(%s)' % ', '.join(base_feature_names)


class Scaled(TransformPrimitive):
    """a number and a flag"""
    name = 'scaled'
    input_types = [vt.Numeric, vt.Boolean]
    return_type = vt.Numeric

    def get_function(self):
        return lambda a, b: a.where(b.fillna(False).astype(bool), 0)


class PlainAgg(AggregationPrimitive):
    name = 'plain_agg'
    input_types = [vt.Numeric]
    return_type = vt.Numeric
    stack_on_self = True

    def get_function(self, agg_type='pandas'):
        return lambda x: float(len(x))


class OffBase(AggregationPrimitive):
    """may not be the base of Max, cannot be stacked on Min"""
    name = 'off_base'
    input_types = [vt.Numeric]
    return_type = vt.Numeric
    base_of_exclude = [pr.Max]
    stack_on_exclude = [pr.Min]

    def get_function(self, agg_type='pandas'):
        return lambda x: float(len(x)) + 1


class OnlyOn(AggregationPrimitive):
    name = 'only_on'
    input_types = [vt.Numeric]
    return_type = vt.Numeric
    stack_on = [pr.Sum, pr.Count]
    base_of = [pr.Mean]

    def get_function(self, agg_type='pandas'):
        return lambda x: float(len(x)) + 2


class Pair(AggregationPrimitive):
    name = 'pair'
    input_types = [vt.Numeric, vt.Numeric]
    return_type = vt.Numeric

    def get_function(self, agg_type='pandas'):
        return lambda x, y: float(len(x) + len(y))


AGGS = [pr.Sum, pr.Max, pr.Min, pr.Mean, pr.Count, pr.NumUnique, pr.PercentTrue, pr.Mode, PlainAgg, OffBase, OnlyOn, Pair, cu.Spread]
TRANS = [pr.Absolute, pr.IsNull, pr.AddNumeric, pr.SubtractNumeric, pr.Day, PairMax, Scaled, pr.Equal, cu.PlusMinus, pr.Not]
GROUPS = [pr.CumSum, pr.CumMean, pr.Diff, pr.CumCount]


# ---------------------------------------------------------------- references
def gdepth(f, stop):
    if f.unique_name() in stop or isinstance(f, IdentityFeature):
        return 0
    deps = list(f.base_features) + ([f.where] if getattr(f, 'where', None) is not None else [])
    return 1 + max([gdepth(d, stop) for d in deps] or [0])


def bdepth(f, stop):
    """primitives and joins stacked along the inputs (conditions and slices do not count)"""
    if isinstance(f, FeatureOutputSlice):
        return bdepth(f.base_feature, stop)
    if f.unique_name() in stop or isinstance(f, IdentityFeature):
        return 0
    return 1 + max([bdepth(d, stop) for d in f.base_features] or [0])


def deps(f, out=None):
    """f and everything it is computed from"""
    out = [] if out is None else out
    out.append(f)
    for d in list(f.base_features) + ([f.where] if getattr(f, 'where', None) is not None else []):
        deps(d, out)
    return out


def allowed(f, o, groupby=False):
    """may a primitive with options o use the feature f?"""
    g = 'groupby_' if groupby else ''
    if groupby and not issubclass(f.variable_type, Discrete):
        return False
    iv, nv = o.get('include_%svariables' % g), o.get('ignore_%svariables' % g)
    ie, ne = o.get('include_%sentities' % g), o.get('ignore_%sentities' % g)
    for d in deps(f):
        e = d.entity_id
        if isinstance(d, IdentityFeature):
            if iv is not None and e in iv:
                if d.get_name() not in iv[e]:
                    return False
                continue
            if nv is not None and e in nv and d.get_name() in nv[e]:
                return False
        if ie is not None:
            if e not in ie:
                return False
        elif ne is not None and e in ne:
            return False
    return True


def entity_off(opts, e, groupby=False):
    for o in opts:
        if groupby and not ('include_groupby_variables' in o and e in o['include_groupby_variables']):
            if 'include_groupby_entities' in o:
                if e not in o['include_groupby_entities']:
                    return True
            elif e in o.get('ignore_groupby_entities', ()):
                return True
        if 'include_variables' in o and e in o['include_variables']:
            continue
        if 'include_entities' in o:
            if e not in o['include_entities']:
                return True
        elif e in o.get('ignore_entities', ()):
            return True
    return False


def stack_ok(p, inputs):
    for f in inputs:
        q = f.primitive
        if p.stack_on_self is False and isinstance(q, type(p)):
            return False
        if p.stack_on_exclude is not None and isinstance(q, tuple(p.stack_on_exclude)):
            return False
        if f.number_output_features > 1:
            return False
        if q.base_of_exclude is not None and isinstance(p, tuple(q.base_of_exclude)):
            return False
        if p.stack_on_self is True and isinstance(q, type(p)):
            continue
        if p.stack_on is None or q.base_of is None:
            continue
        if isinstance(q, tuple(p.stack_on)) or type(p) in q.base_of:
            continue
        return False
    return True


def trans_ok(inputs):
    for f in inputs:
        if isinstance(f.primitive, TransformPrimitive):
            return False
        if isinstance(f, DirectFeature) and isinstance(f.base_features[0].primitive, TransformPrimitive):
            return False
    return True


def combos(types, feats, commutative, opts):
    """every combination of distinct features of these types that the options admit; a
    commutative primitive takes each set of inputs once"""
    cand = [[f for f in feats if issubclass(f.variable_type, t)] for t in types]
    out, seen = [], set()
    for c in itertools.product(*cand):
        ns = [f.unique_name() for f in c]
        if len(set(ns)) < len(ns):
            continue
        if commutative and len(types) > 1:
            k = frozenset(ns)
            if k in seen:
                continue
            for order in itertools.permutations(sorted(c, key=lambda f: (f.get_name().lower(), f.get_name()))):
                if all(allowed(f, o) for f, o in zip(order, opts if len(opts) > 1 else opts * len(order))):
                    seen.add(k)
                    out.append(order)
                    break
        elif all(allowed(f, o) for f, o in zip(c, opts if len(opts) > 1 else opts * len(c))):
            out.append(c)
    return out


def key(f):
    """definition of a feature; inputs of a commutative primitive in any order"""
    if isinstance(f, IdentityFeature):
        return ('id', f.entity_id, f.variable.id)
    if isinstance(f, FeatureOutputSlice):
        return ('slice', key(f.base_feature), f.n)
    b = [key(x) for x in f.base_features]
    if isinstance(f, DirectFeature):
        r = f.relationship_path[0][1]
        return ('direct', r.parent_entity.id, r.parent_variable.id, r.child_entity.id, r.child_variable.id, b[0])
    if f.primitive.commutative and len(b) > 1:
        b = sorted(b, key=str)
    out = (type(f).__name__, f.entity_id, type(f.primitive).__name__, f.primitive.get_args_string(), tuple(b))
    if isinstance(f, GroupByTransformFeature):
        out += (key(f.groupby),)
    if isinstance(f, AggregationFeature):
        out += (path_key(f.relationship_path), key(f.where) + (repr(f.where.primitive.value),) if f.where is not None else None)
    return out


def path_key(path):
    return tuple((fwd, r.child_entity.id, r.child_variable.id, r.parent_entity.id, r.parent_variable.id) for fwd, r in path)


def expand(fs):
    out = []
    for f in fs:
        if f.number_output_features > 1:
            out += [f[i] for i in range(f.number_output_features)]
        else:
            out.append(f)
    return out


def in_path(f, path):
    if not isinstance(f, IdentityFeature):
        return False
    return any((r.child_entity.id, r.child_variable.id) == (f.entity_id, f.variable.id) or
               (r.parent_entity.id, r.parent_variable.id) == (f.entity_id, f.variable.id) for _, r in path)


def same_path(fs):
    return all(isinstance(f, DirectFeature) for f in fs) and len({path_key(f.relationship_path) for f in fs}) == 1


def column_of(f):
    """the column a feature stands for: its own, or (directly) one of a related entity"""
    while isinstance(f, DirectFeature):
        f = f.base_features[0]
    return f.entity.entityset[f.entity_id][f.variable.id] if isinstance(f, IdentityFeature) else None


def down_paths(es, e):
    for r in es.relationships:
        if r.parent_entity.id == e:
            yield r.child_entity.id, ((False, r),)
            for c, p in down_paths(es, r.child_entity.id):
                yield c, ((False, r),) + p


def path_entities(path, start):
    out = [start]
    for fwd, r in path:
        out.append(r.parent_entity.id if fwd else r.child_entity.id)
    return tuple(out)


def expected_features(es, af, target, aggs, trans, groups, wheres, d, opts, S, where_limit=1):
    """what synthesis has to produce for the target, given the features of the other entities"""
    stop = {f.unique_name() for f in S['seeds']}

    def avail(e, limit):
        if limit is not None and limit < 0:
            return []
        return [f for f in expand(af.get(e, {}).values()) if limit is None or gdepth(f, stop) <= limit]
    less = None if d is None else d - 1
    out = {}

    def put(f):
        out[key(f)] = f
    for v in es[target].variables:
        if v.id not in S['ignore_variables'].get(target, ()):
            put(IdentityFeature(v))
    for f in S['seeds']:
        if f.entity_id == target:
            put(f)
    # aggregations
    for ch, path in down_paths(es, target):
        if ch in S['ignore_entities'] or (S['paths'] and path_entities(path, target) not in S['paths']):
            continue
        clauses = [f == val for f in af.get(ch, {}).values() if column_of(f) is not None for val in column_of(f).interesting_values]
        for p in aggs:
            o = opts[id(p)]
            if entity_off(o, ch):
                continue
            fs = [f for f in avail(ch, less) if not (isinstance(f, DirectFeature) and f.parent_entity.id == target) and not in_path(f, path)]
            types = p.input_types[0] if isinstance(p.input_types[0], list) else p.input_types
            for c in combos(types, fs, p.commutative, o):
                if not stack_ok(p, c):
                    continue
                put(AggregationFeature(list(c), parent_entity=es[target], relationship_path=RelationshipPath(list(path)), primitive=p))
                n = sum(1 for f in c for g in deps(f) if isinstance(g, AggregationFeature) and g.where is not None)
                if n >= where_limit or not any(isinstance(p, type(w)) for w in wheres):
                    continue
                for w in clauses:
                    if w.base_features[0].unique_name() in [f.unique_name() for f in c]:
                        continue
                    put(AggregationFeature(list(c), parent_entity=es[target], relationship_path=RelationshipPath(list(path)), primitive=p, where=w))
    # transforms and group-by transforms
    fs = avail(target, less)
    for p in trans:
        o = opts[id(p)]
        if entity_off(o, target):
            continue
        types = p.input_types[0] if isinstance(p.input_types[0], list) else p.input_types
        for c in combos(types, fs, p.commutative, o):
            if trans_ok(c) and not same_path(c):
                put(TransformFeature(list(c), primitive=p))
    for p in groups:
        o = opts[id(p)]
        if entity_off(o, target, True):
            continue
        types = p.input_types[0] if isinstance(p.input_types[0], list) else p.input_types
        free = any('include_groupby_variables' in q and target in q['include_groupby_variables'] for q in o)
        gs = [f for f in fs if (free or issubclass(f.variable_type, Id))]
        gs = [g for g in gs if all(allowed(g, q, True) for q in o[:1])]
        for c in combos(types, fs, p.commutative, o):
            if trans_ok(c):
                for g in gs:
                    if same_path(c + (g,)):
                        continue
                    put(GroupByTransformFeature(list(c), groupby=g, primitive=p))
    # direct features
    for r in es.relationships:
        if r.child_entity.id != target:
            continue
        pe = r.parent_entity.id
        if pe in S['ignore_entities'] or (S['paths'] and (target, pe) not in S['paths']):
            continue
        for f in avail(pe, d):
            if not in_path(f, [(True, r)]):
                put(DirectFeature(f, es[target], relationship=r))
    return {k: f for k, f in out.items() if d is None or bdepth(f, stop) <= d}


# ---------------------------------------------------------------- generation
def random_options(rng, m, prims, multi=True):
    out = {}
    ents = list(m.ents)

    def one(groupby):
        o = {}
        g = 'groupby_' if groupby else ''
        if rng.random() < .4:
            o['%s_%sentities' % (rng.choice(['include', 'ignore']), g)] = rng.sample(ents, rng.randint(1, len(ents)))
        if rng.random() < .6:
            o['%s_%svariables' % (rng.choice(['include', 'ignore']), g)] = {
                e: rng.sample(list(m.ents[e].cols), rng.randint(1, len(m.ents[e].cols))) for e in rng.sample(ents, rng.randint(1, len(ents)))}
        return o
    for p, gb in prims:
        if rng.random() < .45:
            n = len(p.input_types[0]) if isinstance(p.input_types[0], list) else len(p.input_types)
            if multi and n > 1 and rng.random() < .5 and not gb:
                out[type(p)] = [one(False) for _ in range(n)]
            else:
                o = one(False)
                if gb:
                    o.update(one(True))
                out[p.name] = o
    return out


def reconcile(prims, po, ignore_e, ignore_v):
    """options of each primitive and what is ignored overall, from the documented rules"""
    res = {}
    ge, gv = set(ignore_e), {e: set(v) for e, v in ignore_v.items()}
    for p in prims:
        po = {(k.name if isinstance(k, type) else k): v for k, v in po.items()}
        if p.name not in po:
            res[id(p)] = [{'ignore_entities': set(ignore_e), 'ignore_variables': {e: set(v) for e, v in ignore_v.items()}}]
            continue
        raw = po[p.name] if isinstance(po[p.name], list) else [po[p.name]]
        inc = set()
        for o in raw:
            inc |= set(o.get('include_entities', ())) | set(o.get('include_variables', ()))
        ge -= inc
        mine = []
        for o in raw:
            q = {k: ({e: set(v) for e, v in x.items()} if isinstance(x, dict) else set(x)) for k, x in o.items()}
            q['ignore_entities'] = q.get('ignore_entities', set()) | (set(ignore_e) - inc)
            iv = q.setdefault('ignore_variables', {})
            for e, v in ignore_v.items():
                if e in iv:
                    iv[e] = iv[e] | set(v)
                elif e not in inc:
                    iv[e] = set(v)
            for e, v in o.get('include_variables', {}).items():
                if e in gv:
                    gv[e] -= set(v)
            mine.append(q)
        res[id(p)] = mine
    return res, ge, gv


class Probe(DeepFeatureSynthesis):
    """records the table of features of every entity"""
    def _run_dfs(self, *a, **k):
        for x in list(a) + list(k.values()):
            if type(x) is dict:
                self.seen_features = x
        return DeepFeatureSynthesis._run_dfs(self, *a, **k)


def setup(rng, cfg):
    m = gen(rng, maxrows=6, lti_p=0, empty_p=0, numeric_time=False, **cfg.get('gen', {}))
    es = build(m)
    for nm, e in m.ents.items():
        for c, k in e.cols.items():
            if k == 'cat' and rng.random() < .5:
                es[nm][c].interesting_values = rng.sample(['u', 'v'], rng.randint(1, 2))
            if k == 'bool' and rng.random() < .25:
                es[nm][c].interesting_values = [True]
    return m, es


def pick(rng, prims, n):
    return [p() for p in rng.sample(prims, n)]


def describe(m, target, kw):
    return dict(model=m.describe(), target=target, settings={k: str(v) for k, v in kw.items()})


def run(rng, cfg, options=False):
    m, es = setup(rng, cfg)
    target = rng.choice(m.names)
    d = rng.choice([1, 1, 2, 2, 2, 3] + ([0] if not options else []))
    big = d >= 3 or len(m.names) > 3
    aggs = pick(rng, AGGS, rng.randint(0, 2 if big else 3))
    trans = pick(rng, TRANS, rng.randint(0, 1 if big else 2))
    groups = pick(rng, GROUPS, rng.choice([0, 0, 1]))
    wheres = [type(p)() for p in rng.sample(aggs, rng.randint(0, len(aggs)))] if aggs else []
    kw = dict(agg_primitives=aggs, trans_primitives=trans, groupby_trans_primitives=groups, where_primitives=wheres, max_depth=d)
    seeds = []
    if rng.random() < .2:
        e = rng.choice(m.names)
        c = [c for c, k in m.ents[e].cols.items() if k == 'num']
        seeds = [rng.choice([TransformFeature(es[e][c[0]], pr.Negate), TransformFeature(es[e][c[0]], cu.PlusMinus), IdentityFeature(es[e][c[0]]) > 1])]
        kw['seed_features'] = list(seeds)
    ig_e, ig_v, paths, po = [], {}, None, {}
    if options:
        if rng.random() < .35:
            o = [e for e in m.names if e != target]
            ig_e = rng.sample(o, rng.randint(1, len(o)))
            kw['ignore_entities'] = list(ig_e)
        if rng.random() < .4:
            ig_v = {e: rng.sample(list(m.ents[e].cols), rng.randint(1, len(m.ents[e].cols))) for e in rng.sample(m.names, rng.randint(1, len(m.names)))}
            kw['ignore_variables'] = {e: list(v) for e, v in ig_v.items()}
        if rng.random() < .6:
            po = random_options(rng, m, [(p, False) for p in aggs + trans] + [(p, True) for p in groups])
            if po:
                kw['primitive_options'] = po
        if rng.random() < cfg.get('paths_p', .25):
            up1 = [(target, r.parent_entity.id) for r in es.relationships if r.child_entity.id == target]
            up2 = [q + (r.parent_entity.id,) for q in up1 for r in es.relationships if r.child_entity.id == q[-1]]
            ps = [path_entities(p, target) for _, p in down_paths(es, target)] + up1 + up2
            if ps:
                paths = set(rng.sample(sorted(set(ps)), rng.randint(1, len(set(ps)))))
                kw['allowed_paths'] = [list(p) for p in sorted(paths)]
    if len(m.names) == 1:
        kw['max_depth'] = d = 1
    return m, es, target, d, aggs, trans, groups, wheres, seeds, ig_e, ig_v, paths, po, kw


def expected_result(es, af, target, aggs, trans, groups, wheres, d, seeds, ig_e, ig_v, paths, po):
    ps = trans + aggs + wheres + groups
    opts, ge, gv = reconcile(ps, po, ig_e, ig_v)
    S = dict(seeds=seeds, ignore_entities=ge, ignore_variables=gv, paths=paths)
    return expected_features(es, af, target, aggs, trans, groups, wheres, d, opts, S), ge, gv


def synth(es, target, kw, rt='all', **more):
    k = dict(kw)
    k.update(more)
    if 'primitive_options' in k:
        import copy
        k['primitive_options'] = copy.deepcopy(k['primitive_options'])
    p = Probe(target, es, **k)
    fs = p.build_features(return_variable_types=rt)
    return fs, getattr(p, 'seen_features', None)


MAXF = 700


def case_closure(rng, cfg):
    """exactly the features the description demands, with and without options"""
    (m, es, target, d, aggs, trans, groups, wheres, seeds, ig_e, ig_v, paths, po, kw) = run(rng, cfg, cfg.get('options', False))
    info = describe(m, target, kw)
    note(**info)
    got, af = synth(es, target, kw)
    if af is None or len(got) > MAXF or sum(map(len, af.values())) > 3 * MAXF:
        return None
    want, ge, gv = expected_result(es, af, target, aggs, trans, groups, wheres, d, seeds, ig_e, ig_v, paths, po)
    want.pop(('id', target, es[target].index), None)
    have = {}
    for f in got:
        k = key(f)
        if k in have:
            raise Fail('feature %s appears twice' % f, **info)
        have[k] = f
    miss = [want[k] for k in want if k not in have]
    more = [have[k] for k in have if k not in want]
    # a feature is named by its definition: features the names of which coincide are one
    names = {f.unique_name() for f in got}
    miss = [f for f in miss if f.unique_name() not in names]
    # grouping by something a transform computed on the same entity is transform on transform: allowed, not demanded
    miss = [f for f in miss if not (isinstance(f, GroupByTransformFeature) and isinstance(f.groupby, TransformFeature))]
    if more:
        raise Fail('synthesis gives %s although the settings exclude it' % more[:3], **info)
    if miss:
        raise Fail('synthesis lacks %s' % miss[:3], **info)
    check_wellformed(es, target, got, d, seeds, info)
    for f in got:
        for g in deps(f):
            if g.entity_id in ge:
                raise Fail('%s uses the ignored entity %s' % (f, g.entity_id), **info)
            if isinstance(g, IdentityFeature) and g.variable.id in gv.get(g.entity_id, ()) and not any(s.unique_name() in [x.unique_name() for x in deps(f)] for s in seeds):
                raise Fail('%s uses the ignored variable %s' % (f, g), **info)
    return '%s|%s|%s' % (target, info['settings'], len(got))


def case_options(rng, cfg):
    return case_closure(rng, dict(cfg, options=True))


def check_wellformed(es, target, got, d, seeds, info):
    stop = {f.unique_name() for f in seeds}
    names = [f.unique_name() for f in got]
    if len(set(names)) < len(names):
        raise Fail('two features have one name', **info)
    if any(f.entity_id != target for f in got):
        raise Fail('a feature of another entity', **info)
    for f in got:
        if d is not None and bdepth(f, stop) > d:
            raise Fail('%s is deeper than %s' % (f, d), **info)
        if isinstance(f, IdentityFeature) and f.variable.id == es[target].index:
            raise Fail('the index is returned', **info)
        for g in deps(f):
            if isinstance(g, (IdentityFeature, DirectFeature, FeatureOutputSlice)):
                continue
            ts = g.primitive.input_types
            ts = ts if isinstance(ts[0], list) else [ts]
            bf = g.base_features[:-1] if isinstance(g, GroupByTransformFeature) else g.base_features
            if not any(len(t) == len(bf) and all(issubclass(b.variable_type, x) for b, x in zip(bf, t)) for t in ts):
                raise Fail('inputs of %s do not have the types %s' % (g, ts), **info)
    ds = [f.get_depth() for f in got]
    if ds != sorted(ds):
        raise Fail('features are not ordered from shallow to deep', **info)


def case_filters(rng, cfg):
    """drop_exact, drop_contains, max_features, return types, repeatability"""
    (m, es, target, d, aggs, trans, groups, wheres, seeds, ig_e, ig_v, paths, po, kw) = run(rng, cfg, False)
    info = describe(m, target, kw)
    note(**info)
    base, _ = synth(es, target, kw)
    if len(base) > MAXF:
        return None
    check_wellformed(es, target, base, d, seeds, info)
    full = [f.unique_name() for f in base]
    again, _ = synth(es, target, kw)
    if [f.unique_name() for f in again] != full:
        raise Fail('repeating synthesis gives another list', **info)
    if not base:
        return None
    types = rng.choice([None, 'all', [Numeric], [Boolean, Discrete], [vt.Datetime]])
    ok = [Numeric, Discrete, Boolean] if types is None else types
    ex = [f.get_name() for f in rng.sample(base, min(len(base), rng.randint(0, 2)))] + (['no such name'] if rng.random() < .3 else [])
    con = [rng.choice(['(x)', 'SUM', 'x', '.', 'MAX(', 'zz', 'WHERE', '='])] if rng.random() < .4 else []
    n = rng.choice([-1, 1, 2, 5, len(base), len(base) + 3])
    info['filters'] = str((types, ex, con, n))
    want = [f for f in base if (ok == 'all' or any(issubclass(f.variable_type, t) for t in ok)) and f.get_name() not in ex and not any(c in f.get_name() for c in con)]
    if n > 0:
        want = want[:n]
    k = dict(kw)
    got = ft.dfs(entityset=es, target_entity=target, features_only=True, drop_exact=ex or None, drop_contains=con or None, max_features=n,
                 return_variable_types=types, **k)
    if [f.unique_name() for f in got] != [f.unique_name() for f in want]:
        raise Fail('with filters %s synthesis gives %s instead of %s' % (info['filters'], got[:8], want[:8]), **info)
    sub = [f for f in rng.sample(base, min(len(base), 12))]
    fm = ft.calculate_feature_matrix(sub, es, cutoff_time=T(5), instance_ids=[r[m.ents[target].index] for r in m.ents[target].rows][:3])
    cols = [c for f in sub for c in f.get_feature_names()]
    if list(fm.columns) != cols:
        raise Fail('columns of the matrix are %s for the features %s' % (list(fm.columns), sub), **info)
    return '%s|%s' % (info['settings'], info['filters'])


def case_where_order(rng, cfg):
    """the list does not depend on the hash seed of the process"""
    import os
    import subprocess
    import sys
    s = rng.randrange(10 ** 6)
    outs = []
    for hs in ('0', str(rng.randint(1, 10 ** 6))):
        env = dict(os.environ, PYTHONHASHSEED=hs)
        code = ('import sys,random,warnings,logging;logging.disable(50);warnings.simplefilter("ignore");sys.path[:0]=%r;import o_dfs\n'
                'r=random.Random(%d)\nfor i in range(4):\n'
                '  x=o_dfs.run(r,{},False)\n  fs,_=o_dfs.synth(x[1],x[2],x[-1])\n  print([f.unique_name() for f in fs])' % (sys.path[:6], s))
        outs.append(subprocess.run([sys.executable, '-W', 'ignore', '-c', code], env=env, capture_output=True, text=True, timeout=120).stdout)
    if not outs[0]:
        return None
    if outs[0] != outs[1]:
        a, b = outs[0].split('\n'), outs[1].split('\n')
        i = [j for j in range(min(len(a), len(b))) if a[j] != b[j]][0]
        raise Fail('two processes get different lists: %s against %s' % (a[i][:600], b[i][:600]), seed=s, run=i)
    return str(s)


def case_match(rng, cfg):
    """the matching of inputs by types against enumeration"""
    match = getattr(dfsmod, 'match', None)
    if match is None:
        return None
    m, es = setup(rng, {'gen': {'n_ent': 2}})
    target = m.rels[0][2]
    feats = [IdentityFeature(v) for v in es[target].variables]
    r = [r for r in es.relationships if r.child_entity.id == target][0]
    feats += [DirectFeature(IdentityFeature(v), es[target], relationship=r) for v in r.parent_entity.variables]
    nums = [f for f in feats if f.variable_type == Numeric]
    feats += [TransformFeature(f, pr.Negate) for f in nums[:1]]
    feats = rng.sample(feats, rng.randint(1, min(7, len(feats))))
    types = [rng.choice([Numeric, vt.Variable, Discrete, Boolean, vt.Categorical, Id, vt.Datetime, vt.Index]) for _ in range(rng.randint(1, 3))]
    com = rng.random() < .4 and len(set(types)) == 1
    direct = rng.random() < .4
    info = dict(features=str(feats), types=str(types), commutative=com, require_direct_input=direct)
    note(**info)
    got = list(match(list(types), list(feats), commutative=com, require_direct_input=direct))
    want = [c for c in combos(types, feats, com, [{}]) if not direct or any(isinstance(f, DirectFeature) for f in c)]
    ident = (lambda c: tuple(sorted(id(f) for f in c))) if com else (lambda c: tuple(id(f) for f in c))
    g, w = sorted(map(ident, got)), sorted(map(ident, want))
    if g != w:
        raise Fail('matching gives %s, expected %s' % (sorted(map(str, got))[:6], sorted(map(str, want))[:6]), **info)
    return str(info) if w else None


def case_stack(rng, cfg):
    """stacking rules on random user-defined primitives"""
    check = getattr(dfsmod, 'check_stacking', None)
    if check is None:
        return None
    m, es = setup(rng, {'gen': {'n_ent': 2, 'shape': 'chain', 'dup_rel_p': 0, 'diamond_p': 0}})
    ch, pa = m.rels[0][2], m.rels[0][0]
    base = [type('P%d' % i, (PlainAgg,), {'name': 'p%d' % i, 'number_output_features': 1}) for i in range(4)]
    base.append(type('Q0', (base[0],), {'name': 'q0'}))
    pool = base + [pr.Sum]

    def some():
        return rng.choice([None, None, [], rng.sample(pool, rng.randint(1, 3))])
    for c in base:
        c.stack_on_self = rng.choice([True, False, None])
        c.stack_on, c.stack_on_exclude, c.base_of, c.base_of_exclude = some(), some(), some(), some()
    x = IdentityFeature(es[ch]['x'])
    ins = []
    for _ in range(rng.randint(1, 2)):
        c = rng.choice(base + [None])
        ins.append(IdentityFeature(es[pa]['x']) if c is None else AggregationFeature(x, es[pa], c))
    p = rng.choice(base)()
    info = dict(primitive=type(p).__name__, rules={c.__name__: (c.stack_on_self, str(c.stack_on), str(c.stack_on_exclude), str(c.base_of), str(c.base_of_exclude)) for c in base},
                inputs=[type(f.primitive).__name__ for f in ins])
    note(**info)
    got, want = bool(check(p, ins)), stack_ok(p, ins)
    if got != want:
        raise Fail('stacking is %s, the rules say %s' % ('allowed' if got else 'refused', want), **info)
    return str(info)


def case_bad_options(rng, cfg):
    """malformed settings are rejected"""
    m, es = setup(rng, {})
    target = m.names[0]
    e = rng.choice(m.names)
    bad = [
        (KeyError, dict(primitive_options={'sum': {'ignore_entity': [e]}})),
        (TypeError, dict(primitive_options={'sum': {'ignore_entities': e}})),
        (TypeError, dict(primitive_options={'sum': {'ignore_variables': [e]}})),
        (TypeError, dict(primitive_options={'sum': {'include_variables': {e: 'x'}}})),
        (KeyError, dict(primitive_options={('sum', 'max'): {'ignore_entities': [e]}, 'max': {'ignore_entities': [e]}})),
        (ValueError, dict(primitive_options={'no_such': [{'ignore_entities': [e]}]})),
        (AssertionError, dict(primitive_options={'sum': [{'ignore_entities': [e]}, {}]})),
        (TypeError, dict(ignore_entities=e)),
        (AssertionError, dict(ignore_entities=[target])),
        (TypeError, dict(ignore_variables={e: 'x'})),
        (TypeError, dict(ignore_variables=[e])if False else dict(ignore_variables={e: [1]})),
        (KeyError, dict(target_entity='nope')),
        (ValueError, dict(agg_primitives=['no_such'])),
        (ValueError, dict(trans_primitives=['no_such'])),
        (ValueError, dict(agg_primitives=[pr.Absolute])),
        (ValueError, dict(trans_primitives=[pr.Sum])),
    ]
    exc, kw = rng.choice(bad)
    k = dict(agg_primitives=[pr.Sum, pr.Max], trans_primitives=[], target_entity=target)
    k.update(kw)
    try:
        ft.dfs(entityset=es, features_only=True, **k)
    except exc:
        return str(kw)
    except Exception as ex:
        raise Fail('malformed settings %s raise %s' % (kw, type(ex).__name__), settings=str(kw))
    raise Fail('malformed settings %s are accepted' % kw, settings=str(kw))
