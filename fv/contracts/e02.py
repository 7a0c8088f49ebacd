"""Adding a relationship: recorded exactly once, or refused without a trace in the relationship list."""
from flow import *
from values import LibV, ModelV
from flowsettings import ES
import pandas as pd
from pandas.api.types import is_dtype_equal, is_numeric_dtype
from featuretools.entityset.entityset import EntitySet
from featuretools.entityset.entity import Entity
from featuretools.entityset.relationship import Relationship
from featuretools.variable_types import Variable, Id, Index
MOD = 'featuretools.entityset.relationship:'
FLD = ('_parent_entity_id', '_child_entity_id', '_parent_variable_id', '_child_variable_id')


def continued(P, now, before):
    """(the elements of `before` are there, in order; what there is besides)"""
    p, = before.pieces
    same = [q for q in now.pieces if len(q.vars) == 1 and alike(P, subst(q, [(q.vars[0], p.vars[0])]), p)]
    rest = [q for q in now.pieces if q not in same]
    if any(not q.single for q in rest):
        raise Unsupported('the list of relationships is made up of other parts')
    return len(same) == 1, [q.value for q in rest]


def alike(P, q, p):
    return z3.simplify(B(q.guard)).eq(z3.simplify(B(p.guard))) and P.term(q.value).eq(P.term(p.value))


class Ghost(object):
    """what has been done to the columns"""


class Add(Flow):
    target = ES + 'add_relationship'

    def name(self):
        return 'EntitySet.add_relationship'

    def contracts(self):
        out = Flow.contracts(self)
        f = fnref('featuretools.entityset.entity:Entity.convert_variable_type')

        def convert(P, args, kwargs):
            ba = inspect.signature(f).bind(*args, **kwargs)
            ba.apply_defaults()
            a = ba.arguments
            P.oblige('data-are-not-converted', Not(P.truth(a['convert_data'])))
            side = [s for s in ('child', 'parent') if a['self'] is self.ent[s]]
            if len(side) > 1:
                side = ['child' if P.decide(P.py_eq(a['variable_id'], self.var['child'])) else 'parent']
            P.oblige('only-the-two-columns-are-declared', And(len(side) == 1, P.py_eq(a['variable_id'], self.var[side[0]]) if side else False))
            if side:
                P.oblige('the-%s-column-is-declared-as-it-should' % side[0], a['new_type'] is (Id if side[0] == 'child' else Index))
                P.set_attr(self.ghost, side[0], True)
            return None
        out[f] = convert
        return out

    def models(self):
        return {pd.Series: lambda P, a, k: LibV('empty column', pd.Series), is_dtype_equal: lambda P, a, k: P.py_eq(a[0], a[1]), is_numeric_dtype: lambda P, a, k: P.fresh('numeric', z3.BoolSort())}

    def column(self, P, side, v):
        ok = P.py_eq(v, self.var[side])
        if P.decide(ok):
            return LibV('column', pd.Series, {'dtype': self.dtype[side]})
        return LibV('another column')

    def frame(self, P, side):
        def write(I, a, k):
            # the only write there is: giving an empty column of an empty table its type
            I.oblige('data-are-not-written', And(self.empty[side], I.py_eq(a[0], self.var[side])))
            I.set_attr(self.ghost, 'retyped', True)
            return None
        return LibV('data', pd.DataFrame, {'empty': self.empty[side], '__getitem__': ModelV('column', lambda I, a, k: self.column(I, side, a[0])),
                                           '__setitem__': ModelV('write', write)})

    def start(self, P):
        self.ent, self.var, self.dtype, self.empty, self.of = {}, {}, {}, {}, {}
        self.ghost = P.born(ObjV(Ghost, {'child': False, 'parent': False, 'retyped': False}))
        one = P.decide(P.make(BOOL, 'the two are the same entity'))
        for s in ('child', 'parent'):
            self.var[s] = P.make(STR, s + '_variable')
            self.dtype[s] = P.make(ANY, s + ' dtype')
            self.of[s] = P.make(Ref(Variable), s + ' column')
            if s == 'parent' and one:
                self.ent[s], self.empty[s] = self.ent['child'], self.empty['child']
            else:
                self.empty[s] = P.make(BOOL, s + ' data are empty')
                self.ent[s] = P.born(ObjV(Entity, {'id': P.make(STR, s + '_entity'), 'index': P.make(STR, s + '_index'), 'df': self.frame(P, s), '__getitem__': self.item(s)}))
        if one:
            P.assume(B(Not(P.py_eq(self.var['child'], self.var['parent']))))
            c = self.ent['child']
            c.attrs['df'] = LibV('data', pd.DataFrame, {'empty': self.empty['child'], '__setitem__': self.ent['child'].attrs['df'].hooks['__setitem__'],
                '__getitem__': ModelV('column', lambda I, a, k: self.column(I, 'child' if I.decide(I.py_eq(a[0], self.var['child'])) else 'parent', a[0]))})
            c.attrs['__getitem__'] = ModelV('variable', lambda I, a, k: self.of['child' if I.decide(I.py_eq(a[0], self.var['child'])) else 'parent'])
        e = self.ent
        r = P.born(ObjV(Relationship, {'parent_entity': e['parent'], 'child_entity': e['child'], '_parent_entity_id': e['parent'].attrs['id'], '_child_entity_id': e['child'].attrs['id'],
                                       '_parent_variable_id': self.var['parent'], '_child_variable_id': self.var['child']}))
        for s in ('child', 'parent'):
            r.attrs[s + '_variable'] = P.born(ObjV(Variable, {'id': self.var[s]}))
        t = P.fresh('relationships', Obj)
        es = P.born(ObjV(EntitySet, {'id': 'es', 'relationships': P.list_of(Ref(Relationship), t), '_data_description': LibV('description')}))
        before = P.list_of(Ref(Relationship), t)
        P.assume(forall(P, before, lambda x: P.dyn(x.term) == P.lit(Relationship)))
        return [es, r], {}, {'es': es, 'r': r, 'before': before, 'st': dict(self.__dict__)}

    def item(self, s):
        return ModelV('variable', lambda I, a, k: self.of[s] if I.decide(I.py_eq(a[0], self.var[s])) else I.make(Ref(Variable), 'another'))

    def post(self, P, c, out):
        self.__dict__.update(c['st'])
        now, before, r = c['es'].attrs['relationships'], c['before'], c['r']
        kept, rest = continued(P, now, before)
        known = exists(P, before, lambda x: And(*[P.py_eq(P.getattr(x, f), r.attrs[f]) for f in FLD]))
        own_index = P.py_eq(self.ent['child'].attrs['index'], self.var['child'])
        differ = Not(P.py_eq(self.dtype['child'], self.dtype['parent']))
        if out.kind == 'raise':
            return [('refused-without-changing-the-list', kept and not rest), ('refused-only-with-a-reason', Or(own_index, differ)), ('refused-by-an-error-of-values', out.value.cls is ValueError)]
        lit = lambda k: P.lit(k)
        is_id = lambda s, k: Or(self.ghost.attrs[s], P.sub(P.dyn(P.term(self.of[s])), lit(k)))
        fs = [('known-ones-change-nothing', Implies(known, not rest)), ('new-ones-are-recorded-once', Implies(Not(known), And(len(rest) == 1, *[P.term(x) == P.term(r) for x in rest]))), ('the-others-stay-in-place', kept),
              ('not-over-the-childs-own-index', Or(known, Not(own_index))), ('only-over-columns-of-one-type', Or(known, self.ghost.attrs['retyped'], Not(differ))),
              ('the-child-column-is-an-identifier', Or(known, is_id('child', Id))), ('the-parent-column-is-an-index', Or(known, is_id('parent', Index)))]
        return fs

    def cover(self, P, c, out):
        rest = continued(P, c['es'].attrs['relationships'], c['before'])[1]
        return [('refused', out.kind == 'raise'), ('added', And(out.kind != 'raise', bool(rest))), ('known', And(out.kind != 'raise', not rest))]


CONTRACTS = [Add]
