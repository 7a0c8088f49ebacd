"""Deep feature synthesis: what is generated, kept and returned."""
from chelp import *
from featuretools.feature_base import feature_base as fb
from featuretools.entityset.entity import Entity
from featuretools.entityset.entityset import EntitySet
from featuretools.synthesis.deep_feature_synthesis import DeepFeatureSynthesis as DFS
MOD = 'featuretools.synthesis.deep_feature_synthesis:'
SL = lambda P, n: P.fresh_list(STR, n)
name_of = lambda P, f: P.call(P.getattr(f, 'get_name'), [], {})
uname = lambda P, f: P.call(P.getattr(f, 'unique_name'), [], {})


class FilterFeatures(Contract):
    target = MOD + 'DeepFeatureSynthesis._filter_features'

    def name(self):
        return '_filter_features'

    def setup(self, P):
        dc, de = SL(P, 'drop_contains'), SL(P, 'drop_exact')
        fs = P.fresh_list(Ref(fb.FeatureBase), 'features')
        return [P.born(ObjV(DFS, {'drop_contains': dc, 'drop_exact': de})), fs], {}, (dc, de, fs)

    def post(self, P, ctx, out):
        dc, de, fs = ctx
        if out.kind == 'raise':
            return [('does-not-raise', False)]
        keep = lambda f: And(Not(P.contains(de, name_of(P, f))), forall(P, dc, lambda s: Not(P.contains(name_of(P, f), s))))
        return [('keeps-exactly-the-names-not-dropped', same_members(P, out.value, fs, keep))]


class HandleNewFeature(Contract):
    target = MOD + 'DeepFeatureSynthesis._handle_new_feature'

    def name(self):
        return '_handle_new_feature'

    def setup(self, P):
        seeds = P.fresh_list(Ref(fb.FeatureBase), 'seeds')
        f = P.make(Ref(fb.FeatureBase), 'new')
        eid = P.getattr(P.getattr(f, 'entity'), 'id')
        inner = P.make(Map(STR, Ref(fb.FeatureBase)), 'known')
        has0, get0 = inner.sym[0], inner.sym[1]
        alls = P.born(DictV([Piece((), True, (eid, inner))]))
        return [P.born(ObjV(DFS, {'seed_features': seeds})), f, alls], {}, (seeds, f, inner, has0, get0)

    def post(self, P, ctx, out):
        seeds, f, inner, has0, get0 = ctx
        if out.kind == 'raise':
            return [('does-not-raise', False)]
        nm = uname(P, f)
        seeded = exists(P, seeds, lambda s: P.py_eq(uname(P, s), nm))
        now = P.dict_get(inner, nm)
        x = P.make(STR, 'other')
        return [('a-name-is-kept-from-its-first-feature', Implies(And(has0(nm), Not(seeded)), P.term(now) == P.term(get0(nm)))),
                ('otherwise-recorded-under-its-name', Implies(Or(Not(has0(nm)), seeded), P.term(now) == f.term)),
                ('other-names-untouched', Implies(Not(P.py_eq(x, nm)), Iff(B(P.contains(inner, x)), B(has0(x)))))]



class StackingDepth(Contract):
    """depth of a feature in terms of the depths of its inputs (the recursive calls stand for this same contract)"""
    target = MOD + '_stacking_depth'

    def name(self):
        return '_stacking_depth'

    def sd(self, P, f):
        return P.call_uf('stacking_depth', [f], INT)

    def contracts(self):
        return {fnref(self.target): lambda P, a, k: self.sd(P, a[0])}

    def setup(self, P):
        f = P.make(Ref(fb.FeatureBase), 'feature')
        stop = P.fresh_set(STR, 'stop_at')
        x = z3.Const('x!inv', Obj)
        P.assume(z3.ForAll([x], P.fn('stacking_depth', Obj, z3.IntSort())(x) >= 0))    # the contract itself
        return [f, stop], {}, (f, stop)

    def post(self, P, ctx, out):
        f, stop = ctx
        if out.kind == 'raise':
            return [('does-not-raise', False)]
        r = out.value
        sl = is_a(P, f, fb.FeatureOutputSlice)
        leaf = Or(P.contains(stop, uname(P, f)), is_a(P, f, fb.IdentityFeature))
        bases = P.getattr(f, 'base_features')
        return [('not-negative', r >= 0),
                ('a-slice-is-as-deep-as-its-feature', Implies(sl, r == self.sd(P, P.getattr(f, 'base_feature')))),
                ('seeds-and-columns-have-depth-zero', Implies(And(Not(sl), leaf), r == 0)),
                ('one-more-than-every-input', Implies(And(Not(sl), Not(leaf)), forall(P, bases, lambda b: r >= 1 + self.sd(P, b)))),
                ('one-more-than-some-input', Implies(And(Not(sl), Not(leaf)), Or(exists(P, bases, lambda b: r == 1 + self.sd(P, b)),
                                                                                 And(Not(P.nonempty(bases)), r == 1))))]


class BuildFeatures(Contract):
    """which of the generated features are returned (the generation itself, _run_dfs, is a black box here)"""
    target = MOD + 'DeepFeatureSynthesis.build_features'
    mode = 'list'

    def name(self):
        return 'build_features/return_variable_types=%s' % self.mode

    def contracts(self):
        def run_dfs(P, args, kwargs):
            sig = inspect.signature(fnref(MOD + 'DeepFeatureSynthesis._run_dfs'))
            b = sig.bind(*args, **kwargs).arguments
            P.setitem(b['all_features'], self.tid, self.known)
            return None
        return {k: v for k, v in {
            fnref(MOD + 'DeepFeatureSynthesis._run_dfs'): run_dfs,
            fnref(MOD + '_stacking_depth'): lambda P, a, k: P.call_uf('stacking_depth', [a[0]], INT)}.items() if k}

    def setup(self, P):
        self.known = P.make(Map(STR, Ref(fb.FeatureBase)), 'generated')
        self.tid = P.make(STR, 'target')
        es = P.make(Ref(EntitySet), 'es')
        dc, de = SL(P, 'drop_contains'), SL(P, 'drop_exact')
        seeds = P.fresh_list(Ref(fb.FeatureBase), 'seeds')
        md, mf = P.fresh('max_depth', z3.IntSort()), P.fresh('max_features', z3.IntSort())
        lim = P.fresh('limited', z3.BoolSort())
        if not P.decide(lim):
            md = None
        if not P.decide(mf > 0):
            mf = P.mf0 if hasattr(P, 'mf0') else mf
        s = P.born(ObjV(DFS, {'seed_features': seeds, 'es': es, 'target_entity_id': self.tid, 'drop_contains': dc, 'drop_exact': de,
                              'max_depth': md, 'max_features': mf}))
        kw = {}
        types = None
        if self.mode == 'all':
            kw = {'return_variable_types': 'all'}
        elif self.mode == 'list':
            types = P.fresh_list(CLS, 'types')
            kw = {'return_variable_types': types}
        return [s], kw, (es, dc, de, seeds, md, mf, types)

    def post(self, P, ctx, out):
        es, dc, de, seeds, md, mf, types = ctx
        if out.kind == 'raise':
            return [('does-not-raise', False)]
        from featuretools.variable_types import Numeric, Discrete, Boolean
        ent = P.call(P.getattr(es, '__getitem__'), [self.tid], {})

        def want(f):
            vt = P.getattr(f, 'variable_type').term
            t = True if self.mode == 'all' else (Or(*[P.sub(vt, P.lit(c)) for c in (Numeric, Discrete, Boolean)]) if types is None
                                                 else exists(P, types, lambda c: P.sub(vt, c.term)))
            key = And(is_a(P, f, fb.IdentityFeature), P.py_eq(P.getattr(P.getattr(f, 'entity'), 'id'), self.tid),
                      P.py_eq(P.getattr(P.getattr(f, 'variable'), 'id'), P.getattr(ent, 'index')))
            deep = True if md is None else P.call_uf('stacking_depth', [f], INT) <= md
            drop = Or(P.contains(de, name_of(P, f)), exists(P, dc, lambda s: P.contains(name_of(P, f), s)))
            return And(t, Not(key), deep, Not(drop))
        fs = P._m_dict_values(self.known)
        res = [('returns-only-allowed-features', forall(P, out.value, lambda f: And(exists(P, fs, lambda k: P.term(k) == P.term(f)), want(f))))]
        n = P.length(out.value)
        res.append(('at-most-max_features', Implies(mf > 0, n <= mf)))
        res.append(('every-allowed-feature-when-unlimited',
                    Implies(mf <= 0, forall(P, fs, lambda f: Implies(want(f), P.contains(out.value, f))))))
        return res


class BuildFeaturesAll(BuildFeatures):
    mode = 'all'


class BuildFeaturesDefault(BuildFeatures):
    mode = 'default'


CONTRACTS = [FilterFeatures, HandleNewFeature, StackingDepth, BuildFeatures, BuildFeaturesAll, BuildFeaturesDefault]
