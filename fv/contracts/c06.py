"""Features computed together: organisation of a feature list into groups and into the trie."""
from chelp import *
import itertools
from featuretools.feature_base import feature_base as fb
from featuretools.computational_backends.feature_set import FeatureSet
from featuretools.entityset.relationship import Relationship, RelationshipPath
from featuretools.utils import Trie
import models as std
MOD = 'featuretools.computational_backends.feature_set:'
F = Ref(fb.FeatureBase)
uname = lambda P, f: P.call(P.getattr(f, 'unique_name'), [], {})


def full(P, f):
    """primitives that look at the whole entity"""
    return And(is_a(P, f, fb.TransformFeature), P.getattr(P.getattr(f, 'primitive'), 'uses_full_entity'))


class UsesFull(Contract):
    target = MOD + 'FeatureSet.uses_full_entity'

    def setup(self, P):
        f = P.make(F, 'feature')
        deps = P.fresh_list(F, 'dependents')
        s = P.born(ObjV(FeatureSet, {'feature_dependents': P.born(DictV([Piece((), True, (uname(P, f), deps))]))}))
        ck = P.fresh('check_dependents', z3.BoolSort())
        return [s, f], {'check_dependents': ck}, (f, deps, ck)

    def post(self, P, ctx, out):
        f, deps, ck = ctx
        if out.kind == 'raise':
            return [('does-not-raise', False)]
        return [('exactly-whole-entity-transforms-or-their-inputs',
                 Iff(B(P.truth(out.value)), Or(full(P, f), And(ck, exists(P, deps, lambda d: full(P, d))))))]

    def cover(self, P, ctx, out):
        return [('yes', P.truth(out.value)), ('no', Not(P.truth(out.value)))]


class GetWhere(Contract):
    target = MOD + '_get_where'

    def setup(self, P):
        f = P.make(F, 'f')
        return [f], {}, (f,)

    def post(self, P, ctx, out):
        f, = ctx
        if out.kind == 'raise':
            return [('does-not-raise', False)]
        agg = is_a(P, f, fb.AggregationFeature)
        w = P.fn('FeatureBase.where', Obj, Obj)(f.term)
        has = And(agg, w != P.NONE)
        return [('the-condition-s-name', Implies(has, P.term(out.value) == P.term(uname(P, RefV(fb.FeatureBase, w))))),
                ('nothing-without-one', Implies(Not(has), P.term(out.value) == P.lit('')))]


class GetGroupby(Contract):
    target = MOD + '_get_groupby'

    def setup(self, P):
        f = P.make(F, 'f')
        return [f], {}, (f,)

    def post(self, P, ctx, out):
        f, = ctx
        if out.kind == 'raise':
            return [('does-not-raise', False)]
        g = is_a(P, f, fb.GroupByTransformFeature)
        return [('the-grouping-s-name', Implies(g, P.term(out.value) == P.term(uname(P, P.getattr(f, 'groupby'))))),
                ('nothing-without-one', Implies(Not(g), P.term(out.value) == P.lit('')))]


class GroupFeatures(Contract):
    """a group is calculated with one call, so its features have to agree on everything that call depends on"""
    target = MOD + 'FeatureSet.group_features'

    def specs(self):
        return {fb.FeatureBase: {'relationship_path_name': Meth([], STR)}}

    def contracts(self):
        c = {}
        for n in ('_get_use_previous', '_get_where', '_get_groupby'):
            c.update({fnref(MOD + n): (lambda n: lambda P, a, k: P.call_uf('callee:' + n, [a[0]], STR))(n)})
        c[fnref(MOD + 'FeatureSet.uses_full_entity')] = lambda P, a, k: P.call_uf('callee:uses_full_entity', [a[1]], BOOL)
        c[fnref(MOD + 'FeatureSet._get_feature_depths')] = lambda P, a, k: self.depths(P)
        c.pop(None, None)
        return c

    def depths(self, P):
        m = P.call_uf('callee:_get_feature_depths', [RefV('any', z3.Const('the_features', Obj))], Map(STR, INT))
        k = z3.Const('k!inv', Obj)
        P.assume(z3.ForAll([k], B(m.sym[0](RefV(str, k)))))      # every feature of the entity has a depth
        return m

    def models(self):
        def srt(P, a, k):
            r = std.M[sorted](P, a, k)
            r.sorted_by = k.get('key')
            return r

        def groupby(P, a, k):
            key = k.get('key') or (a[1] if len(a) > 1 else None)
            c = a[0]
            sb = getattr(c, 'sorted_by', None)
            if sb is None or key is None or not (sb is key or getattr(sb, 'node', 1) is getattr(key, 'node', 2)):
                raise Unsupported('groupby of a list not sorted by the same key')
            if len(c.pieces) != 1 or not c.pieces[0].vars:
                raise Unsupported('groupby')
            p = c.pieces[0]
            kv = lambda x: P.quiet(lambda: P.call(key, [x], {}))
            nv = [(v, z3.Const('%s~g%d' % (v.decl().name().split('~')[0], P.tag()), v.sort())) for v in p.vars]
            q = subst(Piece((), p.guard, p.value), nv)
            k1 = kv(p.value)
            inner = ListV([Piece([b for _, b in nv], And(q.guard, P.quiet(lambda: P.py_eq(kv(q.value), k1))), q.value)])
            P.born(inner)
            return P.born(ListV([Piece(p.vars, p.guard, (k1, inner))]))
        return {sorted: srt, itertools.groupby: groupby}

    def setup(self, P):
        by = P.make(Map(STR, F), 'by_name')
        names = P.fresh_list(STR, 'names')
        k = z3.Const('k!inv', Obj)
        P.assume(forall(P, names, lambda n: by.sym[0](n)))
        # the printed names of classes are different
        a, b = z3.Consts('a!inv b!inv', Obj)
        so = P.fn('str_of', Obj, Obj)
        P.assume(z3.ForAll([a, b], z3.Implies(so(P.dyn(a)) == so(P.dyn(b)), P.dyn(a) == P.dyn(b))))
        s = P.born(ObjV(FeatureSet, {'features_by_name': by}))
        return [s, names], {}, (by, names)

    def post(self, P, ctx, out):
        by, names = ctx
        if out.kind == 'raise':
            return [('does-not-raise', False)]
        uf = lambda n, x, t=STR: P.term(P.call_uf('callee:' + n, [x], t)) if t is STR else P.call_uf('callee:' + n, [x], t)
        agree = {
            'relationship-path': lambda x, y: P.py_eq(P.call(P.getattr(x, 'relationship_path_name'), [], {}), P.call(P.getattr(y, 'relationship_path_name'), [], {})),
            'kind': lambda x, y: P.dyn(x.term) == P.dyn(y.term),
            'use_previous': lambda x, y: uf('_get_use_previous', x) == uf('_get_use_previous', y),
            'where': lambda x, y: uf('_get_where', x) == uf('_get_where', y),
            'groupby': lambda x, y: uf('_get_groupby', x) == uf('_get_groupby', y),
            'whole-entity-need': lambda x, y: uf('uses_full_entity', x, BOOL) == uf('uses_full_entity', y, BOOL),
        }
        gs = out.value
        res = []
        for nm, eq in agree.items():
            res.append(('grouped-features-agree-on-' + nm, forall(P, gs, lambda g: forall(P, g, lambda x: forall(P, g, lambda y: eq(x, y))))))
        d = self.depths(P)
        res.append(('grouped-features-have-one-depth', forall(P, gs, lambda g: forall(P, g, lambda x: forall(
            P, g, lambda y: d.sym[1](uname(P, x)) == d.sym[1](uname(P, y)))))))
        res.append(('every-feature-is-in-a-group', forall(P, names, lambda n: exists(P, gs, lambda g: exists(P, g, lambda x: P.term(x) == P.term(by.sym[1](n)))))))
        res.append(('groups-hold-only-requested-features', forall(P, gs, lambda g: forall(P, g, lambda x: exists(P, names, lambda n: P.term(x) == P.term(by.sym[1](n)))))))
        return res


class AddToTrie(Contract):
    """one step of building the trie; relationship paths of k steps, everything else arbitrary"""
    target = MOD + 'FeatureSet._add_feature_to_trie'
    k = 0

    def name(self):
        return '_add_feature_to_trie/path of %d' % self.k

    def specs(self):
        return {fb.FeatureBase: {'relationship_path': ('prop', lambda I, v: self.path if v.term.eq(self.f.term) else RefV(RelationshipPath, I.fresh('p', Obj)))}}

    def contracts(self):
        def rec(P, a, k):
            d = inspect.signature(fnref(self.target)).bind(*a, **k)
            d.apply_defaults()
            d = d.arguments
            P.event('rec', (d['trie'], d['feature'], d['approximate_feature_trie'], d['ancestor_needs_full_entity']))
        return {fnref(self.target): rec,
                fnref(MOD + 'FeatureSet.uses_full_entity'): lambda P, a, k: P.call_uf('callee:uses_full_entity', [a[1]], BOOL)}

    def node(self, P, nm):
        a = P.fresh(nm + '.full', z3.BoolSort())
        return (a, P.fresh_set(STR, nm + '.f'), P.fresh_set(STR, nm + '.nf'))

    def setup(self, P):
        self.f = f = P.make(F, 'feature')
        steps = [(P.fresh('fwd%d' % i, z3.BoolSort()), P.make(Ref(Relationship), 'r%d' % i)) for i in range(self.k)]
        self.path = P.born(ObjV(RelationshipPath, {'_relationships_with_direction': P.mklist(list(steps))}))
        mk = ModelV('default', lambda I, a, k: (False, I.born(SetV()), I.born(SetV())))
        t = P.call(Trie, [], {'default': mk})
        t.attrs['value'] = self.node(P, 'root')
        ap = P.call(Trie, [], {'default': ModelV('default', lambda I, a, k: I.mklist([]))})
        ap.attrs['value'] = P.fresh_list(STR, 'approximated')
        # any node already on the way, with any content
        nd, nodes = t, []
        for s in steps:
            nd = P.call(P.getattr(nd, 'get_node'), [P.mklist([s])], {})
            nd.attrs['value'] = self.node(P, 'n%d' % len(nodes))
            nodes.append(nd)
        anc = P.fresh('ancestor', z3.BoolSort())
        flags = [n.attrs['value'][0] for n in nodes]
        s = P.born(ObjV(FeatureSet, {}))
        old = t.attrs['value']
        name = uname(P, f)
        P.assume(Not(And(P.contains(old[1], name), P.contains(old[2], name))))      # invariant: never in both
        x = P.make(STR, 'other')
        before = (P.contains(old[1], name), P.contains(old[2], name), P.contains(old[1], x), P.contains(old[2], x))
        return [s, t, f, ap], {'ancestor_needs_full_entity': anc}, (t, f, ap, nodes, anc, old, before, x, len(P.events), flags)

    def post(self, P, ctx, out):
        t, f, ap, nodes, anc, old, before, x, nev, flags = ctx
        if out.kind == 'raise':
            return [('does-not-raise', False)]
        name = uname(P, f)
        skip = P.contains(ap.attrs['value'], name)
        need = Or(anc, P.call_uf('callee:uses_full_entity', [f], BOOL))
        flag, fs, nf = t.attrs['value']
        recs = [e for e in P.events[nev:] if e.value[0] == 'rec']
        last = nodes[-1] if nodes else t
        deps = P.call(P.getattr(f, 'get_dependencies'), [], {})

        def base(d):
            return z3.If(is_a(P, d, fb.FeatureOutputSlice), P.term(P.getattr(d, 'base_feature')), P.term(d))
        res = [('approximated-features-are-left-out', Implies(skip, And(Iff(B(P.contains(fs, name)), B(before[0])), Iff(B(P.contains(nf, name)), B(before[1]))))),
               ('needed-on-the-whole-entity', Implies(And(Not(skip), need), And(P.contains(fs, name), Not(P.contains(nf, name)), flag))),
               ('otherwise-recorded-once', Implies(And(Not(skip), Not(need)), And(Iff(B(P.contains(fs, name)), B(before[0])),
                                                                                  Iff(B(P.contains(nf, name)), Not(before[0]))))),
               ('other-features-untouched', Implies(P.term(x) != P.term(name), And(Iff(B(P.contains(fs, x)), B(before[2])), Iff(B(P.contains(nf, x)), B(before[3]))))),
               ('whole-entity-need-is-remembered', Implies(B(old[0]), B(flag)))]
        for i, n in enumerate(nodes):
            res.append(('every-entity-on-the-way-is-needed-whole', Implies(And(Not(skip), need), n.attrs['value'][0])))
            res.append(('flags-on-the-way-never-cleared', Implies(flags[i], n.attrs['value'][0])))
        # recursion: exactly the dependencies, at the end of the path, with the need inherited
        l = ListV([Piece(e.vars, e.guard, e.value) for e in recs])
        res.append(('dependencies-of-left-out-features-not-added', Implies(skip, len(recs) == 0)))
        if recs:
            res.append(('adds-only-dependencies', forall(P, l, lambda e: exists(P, deps, lambda d: e_feat(P, e) == base(d)))))
            res.append(('below-the-end-of-the-path', all(e.value[1] is last for e in recs)))
            res.append(('passes-the-need-on', forall(P, l, lambda e: Iff(B(e[4]), B(need)))))
            res.append(('leaves-out-what-is-approximated-there', all(e.value[3] is P.call(P.getattr(ap, 'get_node'), [self.path], {}) for e in recs)))
        res.append(('adds-every-dependency', Implies(Not(skip), forall(P, deps, lambda d: exists(P, l, lambda e: e_feat(P, e) == base(d))))))
        return res


def e_feat(P, e):
    return P.term(e[2])


class AddToTrie1(AddToTrie):
    k = 1


class AddToTrie2(AddToTrie):
    k = 2


CONTRACTS = [UsesFull, GetWhere, GetGroupby, GroupFeatures, AddToTrie, AddToTrie1, AddToTrie2]
