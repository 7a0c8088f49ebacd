"""Relationships and paths as values."""
from chelp import *
from featuretools.entityset.relationship import Relationship, RelationshipPath
from featuretools.entityset.entityset import EntitySet
MOD = 'featuretools.entityset.relationship:'
FLD = ('_parent_entity_id', '_child_entity_id', '_parent_variable_id', '_child_variable_id')
STEP = Tup(BOOL, Ref(Relationship))


def rel(P, nm):
    return P.make(Ref(Relationship), nm)


def agree(P, a, b):
    return And(*[P.py_eq(P.getattr(a, x), P.getattr(b, x)) for x in FLD])


class RelEq(Contract):
    target = MOD + 'Relationship.__eq__'

    def setup(self, P):
        a, b = rel(P, 'a'), rel(P, 'b')
        P.assume(P.sub(P.dyn(a.term), P.lit(Relationship)))
        return [a, b], {}, (a, b)

    def post(self, P, ctx, out):
        a, b = ctx
        if out.kind == 'raise':
            return [('does-not-raise', False)]
        # `isinstance(other, self.__class__)`: both are plain relationships
        same = P.sub(P.dyn(b.term), P.dyn(a.term))
        return [('equal-exactly-when-entities-and-columns-agree', Iff(B(P.truth(out.value)), And(same, agree(P, a, b))))]

    def cover(self, P, ctx, out):
        return [('equal', P.truth(out.value)), ('different', Not(P.truth(out.value)))]


class RelHash(Contract):
    """equal relationships have equal hashes"""
    target = MOD + 'Relationship.__hash__'

    def setup(self, P):
        a, b = rel(P, 'a'), rel(P, 'b')
        P.assume(agree(P, a, b))
        return [a], {}, (a, b)

    def body(self, P, fn, args, kw, ctx):
        return (P.call(fn, args, kw), P.call(fn, [ctx[1]], {}))

    def post(self, P, ctx, out):
        if out.kind == 'raise':
            return [('does-not-raise', False)]
        return [('equal-relationships-hash-alike', P.py_eq(out.value[0], out.value[1]))]


class RelRoundTrip(Contract):
    """from_dictionary(to_dictionary(r), es) == r"""
    target = MOD + 'Relationship.to_dictionary'

    def name(self):
        return 'Relationship.to_dictionary/from_dictionary'

    def specs(self):
        return {EntitySet: {'__getitem__': ('model', lambda I, v, k: I.call_uf('es_entity', [v, k], Ref(Ent())))},
                Ent(): {'__getitem__': ('model', lambda I, v, k: I.call_uf('entity_var', [v, k], Ref(Var())))}}

    def setup(self, P):
        r = rel(P, 'r')
        es = P.make(Ref(EntitySet), 'es')
        # the entityset holds the entities and columns under their ids
        for s in ('parent', 'child'):
            e = P.call_uf('es_entity', [es, P.getattr(r, '_%s_entity_id' % s)], Ref(Ent()))
            v = P.call_uf('entity_var', [e, P.getattr(r, '_%s_variable_id' % s)], Ref(Var()))
            P.assume(P.py_eq(P.getattr(e, 'id'), P.getattr(r, '_%s_entity_id' % s)))
            P.assume(P.py_eq(P.getattr(v, 'id'), P.getattr(r, '_%s_variable_id' % s)))
            P.assume(P.term(P.getattr(v, 'entity')) == e.term)
            if s == 'parent':
                P.assume(P.py_eq(P.getattr(e, 'index'), P.getattr(r, '_parent_variable_id')))
        return [r], {}, (r, es)

    def body(self, P, fn, args, kw, ctx):
        d = P.call(fn, args, kw)
        return P.call(P.getattr(Relationship, 'from_dictionary'), [d, ctx[1]], {})

    def post(self, P, ctx, out):
        r, es = ctx
        if out.kind == 'raise':
            return [('does-not-raise', False)]
        return [('round-trip-gives-an-equal-relationship', agree(P, r, out.value))]


class PathAdd(Contract):
    target = MOD + 'RelationshipPath.__add__'

    def setup(self, P):
        a, b = P.fresh_list(STEP, 'a'), P.fresh_list(STEP, 'b')
        mk = lambda l: P.born(ObjV(RelationshipPath, {'_relationships_with_direction': l}))
        return [mk(a), mk(b)], {}, (a, b)

    def post(self, P, ctx, out):
        a, b = ctx
        if out.kind == 'raise':
            return [('does-not-raise', False)]
        l = P.getattr(out.value, '_relationships_with_direction')
        n, m = P.length(a), P.length(b)
        i = z3.Int('i!q')
        eq = lambda x, y: And(x[0] == y[0], P.term(x[1]) == P.term(y[1]))
        return [('as-long-as-both', P.length(l) == n + m),
                ('first-the-steps-of-the-left', ForAll([i], Implies(And(i >= 0, i < n), eq(l.at(i), a.at(i))))),
                ('then-the-steps-of-the-right', ForAll([i], Implies(And(i >= 0, i < m), eq(l.at(n + i), b.at(i)))))]


class Names(Contract):
    """the name of a step says which relationship it is when there are several between the two entities"""
    target = MOD + 'Relationship.parent_name'
    side = 'parent'

    def contracts(self):
        return as_uf(MOD + 'Relationship._is_unique', BOOL)

    def name(self):
        return 'Relationship.%s_name' % self.side

    def setup(self, P):
        r = rel(P, 'r')
        return [r], {}, (r,)

    def post(self, P, ctx, out):
        r, = ctx
        if out.kind == 'raise':
            return [('does-not-raise', False)]
        u = P.call_uf('callee:Relationship._is_unique', [r], BOOL)
        e = P.getattr(r, '_%s_entity_id' % self.side)
        long = P.mkstr([e, '[', P.getattr(r, '_child_variable_id'), ']'])
        return [('entity-name-when-unique', Implies(u, P.py_eq(out.value, e))),
                ('names-the-key-column-otherwise', Implies(Not(u), P.py_eq(out.value, long)))]


class NamesChild(Names):
    target = MOD + 'Relationship.child_name'
    side = 'child'


class IsUnique(Contract):
    target = MOD + 'Relationship._is_unique'

    def specs(self):
        return {EntitySet: {'get_forward_relationships': Meth([STR], Lst(Ref(Relationship)))}}

    def setup(self, P):
        r = rel(P, 'r')
        es = P.getattr(P.getattr(r, 'child_entity'), 'entityset')
        fr = P.call(P.getattr(es, 'get_forward_relationships'), [P.getattr(r, '_child_entity_id')], {})
        # contract of get_forward_relationships: relationships whose child is that entity, each once, r among them
        P.assume(P.contains(fr, r))
        return [r], {}, (r, fr)

    def post(self, P, ctx, out):
        r, fr = ctx
        if out.kind == 'raise':
            return [('does-not-raise', False)]
        par = lambda x: P.py_eq(P.getattr(x, '_parent_entity_id'), P.getattr(r, '_parent_entity_id'))
        i, j = z3.Ints('i!q j!q')
        n = P.length(fr)
        two = z3.Exists([i, j], And(i >= 0, i < j, j < n, par(fr.at(i)), par(fr.at(j))))
        return [('unique-exactly-when-no-second-relationship-to-the-parent', Iff(B(P.truth(out.value)), Not(two)))]


def Ent():
    from featuretools.entityset.entity import Entity
    return Entity


def Var():
    from featuretools.variable_types import Variable
    return Variable


CONTRACTS = [RelEq, RelHash, RelRoundTrip, PathAdd, Names, NamesChild, IsUnique]
