"""Equality of entitysets, entities and columns: which differences count."""
from chelp import *
from values import LibV, ModelV
from featuretools.entityset.entity import Entity
from featuretools.entityset.entityset import EntitySet
from featuretools.entityset.relationship import Relationship
from featuretools.variable_types import Variable
EN, ESM, VM = 'featuretools.entityset.entity:Entity.', 'featuretools.entityset.entityset:EntitySet.', 'featuretools.variable_types.variable:Variable.'


class VariableEq(Contract):
    """columns are equal exactly when class, id and entity agree; compared deeply, also their interesting values"""
    target = VM + '__eq__'

    def specs(self):
        return {Variable: {'interesting_values': ('prop', lambda P, v: P.born(ObjV(Holder, {'values': P.list_of(ANY, P.fn('interesting', Obj, Obj)(P.term(v)))})))}}

    def setup(self, P):
        a, b = P.make(Ref(Variable), 'a'), P.make(Ref(Variable), 'b')
        d = P.decide(P.make(BOOL, 'deep'))
        return [a, b], {'deep': d}, (a, b, d)

    def post(self, P, ctx, out):
        a, b, d = ctx
        if out.kind == 'raise':
            return [('does-not-raise', False)]
        iv = lambda v: P.list_of(ANY, P.fn('interesting', Obj, Obj)(P.term(v)))
        want = And(P.sub(P.dyn(b.term), P.dyn(a.term)), P.py_eq(P.getattr(a, 'id'), P.getattr(b, 'id')), P.py_eq(P.getattr(a, 'entity_id'), P.getattr(b, 'entity_id')))
        if d:
            want = And(want, forall(P, iv(a), lambda x: P.contains(iv(b), x)), forall(P, iv(b), lambda x: P.contains(iv(a), x)))
        return [('equal-exactly-when-they-agree', Iff(B(P.truth(out.value)), want))]

    def cover(self, P, ctx, out):
        return [('equal', P.truth(out.value)), ('different', Not(P.truth(out.value)))]


class Holder(object):
    pass


class EntitiesEq(Contract):
    """entitysets are equal exactly when they have the same entities, equal one by one, and the same relationships"""
    target = ESM + '__eq__'
    deep_same = True

    def entity_eq(self, P, x, y, deep=False):
        P.oblige('depth-is-passed-on', P.py_eq(deep, self.deep))
        return self.same(P, x, y)

    def same(self, P, x, y):
        return P.fn('entities agree', Obj, Obj, z3.BoolSort())(P.term(x), P.term(y))

    def specs(self):
        return {Entity: {'__eq__': ('model', self.entity_eq)}, Relationship: {'__eq__': ('model', lambda P, a, b: P.fn('relationships agree', Obj, Obj, z3.BoolSort())(P.term(a), P.term(b)))}}

    def es(self, P, nm):
        d = P.make(Map(STR, Ref(Entity)), nm + '_entities')
        rs = P.fresh_list(Ref(Relationship), nm + '_relationships')
        return P.born(ObjV(EntitySet, {'id': nm, 'entity_dict': d, 'relationships': rs}))

    def setup(self, P):
        a, b = self.es(P, 'a'), self.es(P, 'b')
        self.deep = P.make(BOOL, 'deep')
        return [a, b], {'deep': self.deep}, (a, b)

    def post(self, P, ctx, out):
        if out.kind == 'raise':
            return [('does-not-raise', False)]
        (a, b) = ctx
        da, db, ra, rb = a.attrs['entity_dict'], b.attrs['entity_dict'], a.attrs['relationships'], b.attrs['relationships']
        k = P.make(STR, 'any id')
        ids = P.list_of
        r = B(P.truth(out.value))
        keys = P.quiet(lambda: P.call(P.getattr(da, 'items'), [], {}))
        agree = forall(P, keys, lambda kv: And(P.contains(db, kv[0]), self.same(P, kv[1], db.sym[1](kv[0]))))
        rels = forall(P, ra, lambda x: exists(P, rb, lambda y: self.same_rel(P, x, y)))
        return [('equal-exactly-when-entities-and-relationships-agree', Iff(r, And(P.length(da) == P.length(db), agree, P.length(ra) == P.length(rb), rels)))]

    def same_rel(self, P, x, y):
        return P.py_eq(x, y)

    def cover(self, P, ctx, out):
        return [('equal', P.truth(out.value)), ('different', Not(P.truth(out.value)))]



class EntityEq(Contract):
    """entities are equal exactly when index, time indexes and columns agree (compared shallowly, whatever the data)"""
    target = EN + '__eq__'
    deep = False

    def contracts(self):
        f = fnref('featuretools.entityset.entity:_dataframes_equal')
        return {f: lambda P, a, k: self.data_agree(P, *a)} if f is not None else {}

    def data_agree(self, P, x, y):
        ok = {x.why, y.why} == {'a data', 'b data'} if hasattr(x, 'why') and hasattr(y, 'why') else False
        P.oblige('compares-the-two-tables', ok)
        return P.fn('tables agree', z3.BoolSort())()

    def lti(self, P, nm):
        return LibV(nm + ' last times')

    def specs(self):
        return {Variable: {'__eq__': ('model', self.columns)}} if self.deep else {}

    def columns(self, P, x, y, deep=False):
        same = P.term(x) == P.term(y)
        if not deep:
            return same
        P.oblige('columns-are-compared-in-pairs', same)
        return P.fn('columns agree deeply', Obj, z3.BoolSort())(P.term(x))

    def setup(self, P):
        es = []
        for nm in 'ab':
            vs = P.fresh_list(Ref(Variable), nm + '_variables')
            es.append(P.born(ObjV(Entity, {'id': nm, 'index': P.make(STR, nm + '_index'), 'time_index': P.make(Opt(STR), nm + '_time_index'), 'variables': vs,
                                           'secondary_time_index': P.make(ANY, nm + '_secondary'), 'data': P.born(DictV([Piece((), True, ('df', LibV(nm + ' data'))), Piece((), True, ('last_time_index', self.lti(P, nm)))]))})))
        return es, {'deep': self.deep}, es

    def post(self, P, ctx, out):
        a, b = (e.attrs for e in ctx)
        if out.kind == 'raise':
            return [('does-not-raise', False)]
        va, vb = a['variables'], b['variables']
        want = And(*[P.py_eq(a[x], b[x]) for x in ('index', 'time_index', 'secondary_time_index')], P.length(va) == P.length(vb),
                   forall(P, va, lambda v: P.contains(vb, v)), forall(P, vb, lambda v: P.contains(va, v)))
        return [('equal-exactly-when-they-agree', Iff(B(P.truth(out.value)), want))]

    def cover(self, P, ctx, out):
        return [('equal', P.truth(out.value)), ('different', Not(P.truth(out.value)))]


CONTRACTS = [VariableEq, EntitiesEq, EntityEq]


class EntityDeepEq(EntityEq):
    """compared deeply: also the data, the last times and every pair of columns [entities of two columns]"""
    deep = True

    def name(self):
        return 'Entity.__eq__ (deep)'

    def lti(self, P, nm):
        none = P.decide(P.make(BOOL, nm + ' has no last times'))
        self.none[nm] = none
        if none:
            return None
        def equals(I, a, k):
            I.oblige('compares-the-two-last-times', {getattr(a[0], 'attrs', {}).get('of'), nm} == {'a', 'b'})
            return I.fn('last times agree', z3.BoolSort())()
        return P.born(ObjV(Holder, {'of': nm, 'equals': ModelV('equals', equals)}))

    def setup(self, P):
        self.none = {}
        es, kw, ctx = EntityEq.setup(self, P)
        u, v = P.make(Ref(Variable), 'u'), P.make(Ref(Variable), 'v')
        P.assume(u.term != v.term)
        for e, vs in zip(es, ((u, v), (v, u) if P.decide(P.make(BOOL, 'other order')) else (u, v))):
            e.attrs['variables'] = P.mklist(list(vs))
        self.vs = (u, v)
        return es, kw, ctx

    def post(self, P, ctx, out):
        fs = EntityEq.post(self, P, ctx, out)
        if out.kind == 'raise':
            return fs
        a, b = (e.attrs for e in ctx)
        n = self.none
        lti = n['a'] == n['b'] and (n['a'] or P.fn('last times agree', z3.BoolSort())())
        want = And(*[P.py_eq(a[x], b[x]) for x in ('index', 'time_index', 'secondary_time_index')], lti, P.fn('tables agree', z3.BoolSort())(),
                   *[P.fn('columns agree deeply', Obj, z3.BoolSort())(x.term) for x in self.vs])
        return [('equal-exactly-when-they-agree', Iff(B(P.truth(out.value)), want))]


CONTRACTS.append(EntityDeepEq)
