"""Input matching and stacking rules."""
from chelp import *
from featuretools.feature_base import feature_base as fb
from featuretools.primitives.base import PrimitiveBase, AggregationPrimitive, TransformPrimitive
from featuretools.entityset.entity import Entity
from featuretools.entityset.relationship import Relationship, RelationshipPath
MOD = 'featuretools.synthesis.deep_feature_synthesis:'


class CheckStacking(Contract):
    target = MOD + 'check_stacking'

    def name(self):
        return 'check_stacking'

    def setup(self, P):
        p = P.make(Ref(PrimitiveBase), 'primitive')
        fs = P.fresh_list(Ref(fb.FeatureBase), 'inputs')
        return [p, fs], {}, (p, fs)

    def post(self, P, ctx, out):
        p, fs = ctx
        if out.kind == 'raise':
            return [('does-not-raise', False)]
        g = lambda o, n: P.getattr(o, n)
        pc = P.dyn(p.term)

        def opt(o, nm):
            """(is None, the list) of an optional attribute without deciding"""
            t = P.fn('PrimitiveBase.' + nm, Obj, Obj)(P.term(o))
            return P.fn('PrimitiveBase.%s?' % nm, Obj, z3.BoolSort())(P.term(o)), P.list_of(CLS, t)
        self_ok = g(p, 'stack_on_self')
        so_n, so = opt(p, 'stack_on')
        se_n, se = opt(p, 'stack_on_exclude')

        def allowed(f):
            q = g(f, 'primitive')
            qc = P.dyn(q.term)
            same = P.sub(qc, pc)
            bo_n, bo = opt(q, 'base_of')
            be_n, be = opt(q, 'base_of_exclude')
            bad = Or(And(Not(self_ok), same),
                     And(Not(se_n), isin(P, qc, se)),
                     g(f, 'number_output_features') > 1,
                     And(Not(be_n), isin(P, pc, be)))
            named = Or(And(self_ok, same),
                       so_n, And(Not(so_n), isin(P, qc, so)),
                       bo_n, And(Not(bo_n), exists(P, bo, lambda c: c.term == pc)))
            return And(Not(bad), named)
        want = forall(P, fs, allowed)
        r = P.truth(out.value)
        return [('stacks-exactly-when-no-rule-forbids-it', Iff(B(r), B(want)))]

    def cover(self, P, ctx, out):
        r = P.truth(out.value)
        return [('can allow', r), ('can forbid', Not(r))]


class CheckTransformStacking(Contract):
    target = MOD + 'check_transform_stacking'

    def name(self):
        return 'check_transform_stacking'

    def setup(self, P):
        fs = P.fresh_list(Ref(fb.FeatureBase), 'inputs')
        # a direct feature has exactly one input (class invariant, established by DirectFeature.__init__)
        i = z3.Const('f!inv', Obj)
        P.assume(z3.ForAll([i], z3.Implies(P.sub(P.dyn(i), P.lit(fb.DirectFeature)),
                                           P.fn('len_of', Obj, z3.IntSort())(P.fn('FeatureBase.base_features', Obj, Obj)(i)) == 1)))
        return [fs], {}, (fs,)

    def post(self, P, ctx, out):
        fs, = ctx
        if out.kind == 'raise':
            return [('does-not-raise', False)]

        def ok(f):
            tr = lambda x: P.sub(P.dyn(P.getattr(x, 'primitive').term), P.lit(TransformPrimitive))
            base = P.getattr(f, 'base_features').at(z3.IntVal(0))
            return And(Not(tr(f)), Not(And(P.sub(P.dyn(f.term), P.lit(fb.DirectFeature)), tr(base))))
        return [('refuses-exactly-transforms-of-transforms', Iff(B(P.truth(out.value)), B(forall(P, fs, ok))))]

    def cover(self, P, ctx, out):
        r = P.truth(out.value)
        return [('can allow', r), ('can forbid', Not(r))]


class MatchByType(Contract):
    target = MOD + 'match_by_type'

    def name(self):
        return 'match_by_type'

    def setup(self, P):
        fs = P.fresh_list(Ref(fb.FeatureBase), 'features')
        t = P.make(CLS, 't')
        return [fs, t], {}, (fs, t)

    def post(self, P, ctx, out):
        fs, t = ctx
        if out.kind == 'raise':
            return [('does-not-raise', False)]
        return [('exactly-the-features-of-the-type', same_members(P, out.value, fs, lambda f: P.sub(P.getattr(f, 'variable_type').term, t.term)))]


class SamePath(Contract):
    target = MOD + '_features_have_same_path'

    def name(self):
        return '_features_have_same_path'

    def setup(self, P):
        fs = P.fresh_list(Ref(fb.FeatureBase), 'inputs')
        P.assume(P.length(fs) >= 1)
        return [fs], {}, (fs,)

    def post(self, P, ctx, out):
        fs, = ctx
        if out.kind == 'raise':
            return [('does-not-raise', False)]
        path = lambda f: P.term(P.getattr(f, 'relationship_path'))
        same = forall(P, fs, lambda f: forall(P, fs, lambda g: path(f) == path(g)))
        return [('true-exactly-when-all-paths-agree', Iff(B(P.truth(out.value)), B(same)))]


class AllDirectSamePath(Contract):
    target = MOD + '_all_direct_and_same_path'

    def name(self):
        return '_all_direct_and_same_path'

    setup = SamePath.setup

    def post(self, P, ctx, out):
        fs, = ctx
        if out.kind == 'raise':
            return [('does-not-raise', False)]
        path = lambda f: P.term(P.getattr(f, 'relationship_path'))
        same = forall(P, fs, lambda f: forall(P, fs, lambda g: path(f) == path(g)))
        direct = forall(P, fs, lambda f: is_a(P, f, fb.DirectFeature))
        return [('true-exactly-when-all-direct-along-one-path', Iff(B(P.truth(out.value)), B(And(same, direct))))]


class DirectOfEntity(Contract):
    target = MOD + '_direct_of_entity'

    def name(self):
        return '_direct_of_entity'

    def setup(self, P):
        f = P.make(Ref(fb.FeatureBase), 'feature')
        e = P.make(Ref(Entity), 'parent')
        return [f, e], {}, (f, e)

    def post(self, P, ctx, out):
        f, e = ctx
        if out.kind == 'raise':
            return [('does-not-raise', False)]
        d = is_a(P, f, fb.DirectFeature)
        pid = P.getattr(P.getattr(f, 'parent_entity'), 'id')
        return [('direct-feature-of-that-parent', Iff(B(P.truth(out.value)), And(d, P.py_eq(pid, P.getattr(e, 'id')))))]



def rel(P, nm, r):
    """a stored name of a relationship"""
    return P.getattr(P.getattr(r, nm), 'id')


class FeatureInPath(Contract):
    target = MOD + 'DeepFeatureSynthesis._feature_in_relationship_path'

    def name(self):
        return '_feature_in_relationship_path'

    def setup(self, P):
        f = P.make(Ref(fb.FeatureBase), 'feature')
        path = P.make(Ref(RelationshipPath), 'path')
        return [None, path, f], {}, (path, f)

    def post(self, P, ctx, out):
        path, f = ctx
        if out.kind == 'raise':
            return [('does-not-raise', False)]
        eid = P.getattr(P.getattr(f, 'entity'), 'id')
        vid = P.getattr(P.getattr(f, 'variable'), 'id')
        steps = P.getattr(path, '_relationships_with_direction')

        def on(x):
            r = x[1]
            side = lambda s: And(P.py_eq(rel(P, s + '_entity', r), eid), P.py_eq(rel(P, s + '_variable', r), vid))
            return Or(side('child'), side('parent'))
        want = And(is_a(P, f, fb.IdentityFeature), exists(P, steps, on))
        return [('identity-of-a-key-column-of-the-path', Iff(B(P.truth(out.value)), B(want)))]

    def cover(self, P, ctx, out):
        return [('yes', P.truth(out.value)), ('no', Not(P.truth(out.value)))]


class Match(Contract):
    """match() for signatures of n inputs; the recursion on the signature is unrolled, the features are arbitrary"""
    n, comm = 1, False
    target = MOD + 'match'

    def name(self):
        return 'match/%d%s' % (self.n, '/commutative' if self.comm else '')

    def setup(self, P):
        ts = P.mklist([P.make(CLS, 't%d' % i) for i in range(self.n)])
        fs = P.fresh_list(Ref(fb.FeatureBase), 'features')
        rd = P.fresh('require_direct', z3.BoolSort())
        return [ts, fs], {'require_direct_input': rd, 'commutative': self.comm}, (ts, fs, rd)

    def post(self, P, ctx, out):
        ts, fs, rd = ctx
        if out.kind == 'raise':
            return [('does-not-raise', False)]
        n = self.n
        nm = lambda f: P.term(P.call(P.getattr(f, 'unique_name'), [], {}))
        typed = lambda f, i: P.sub(P.getattr(f, 'variable_type').term, ts.items()[i].term)

        def good(t):
            return And(*([P.contains(fs, f) for f in t] + [typed(f, i) for i, f in enumerate(t)] +
                         [Not(nm(t[i]) == nm(t[j])) for i in range(n) for j in range(i)] +
                         [Implies(rd, Or(*[is_a(P, f, fb.DirectFeature) for f in t]))]))

        def tup(x):
            return x if isinstance(x, tuple) else tuple(x.items())
        sound = forall(P, out.value, lambda t: And(len(tup(t)) == n, good(tup(t))))

        def nest(k, t):
            if k == n:
                return Implies(good(t), exists(P, out.value, lambda x: And(*[P.term(a) == P.term(b) for a, b in zip(tup(x), t)])))
            return forall(P, fs, lambda f: nest(k + 1, t + (f,)))
        return [('only-inputs-of-the-right-types-all-different', sound), ('every-such-input', nest(0, ()))]


class Match2(Match):
    n = 2


class Match3(Match):
    n = 3
    timeout = 30000


CONTRACTS = [CheckStacking, CheckTransformStacking, MatchByType, SamePath, AllDirectSamePath, DirectOfEntity, FeatureInPath,
             Match, Match2, Match3]
