"""Linking the rows of an aggregation to the instances: the name of the linking column."""
from chelp import *
from values import LibV, ModelV, StrV
from featuretools.entityset.relationship import Relationship, RelationshipPath
from featuretools.entityset.entity import Entity
from featuretools.variable_types import Variable
import pandas as pd
FSC = 'featuretools.computational_backends.feature_set_calculator:FeatureSetCalculator.'


def step(P, r, below):
    """the column of r's child that links it further up: what r's parent is called, and the column there"""
    return StrV([P.getattr(r, 'parent_name'), '.', below])


def link(P, n):
    """the linking column after n relationships of the path (an uninterpreted function of n, unrolled by `axiom`)"""
    return RefV(str, P.fn('link', z3.IntSort(), Obj)(n))


def invariant(names, inv):
    """loop over a list: `inv(I, value of the names, i)` holds before iteration i"""
    def spec(I, s, env, it):
        it = I.iterated(it)
        if not isinstance(it, ListV) or it.length is None and not it.concrete:
            raise Unsupported('loop over something else')
        missing = [x for x in names if x not in env.vars]
        if missing:
            raise Unsupported('the loop carries other variables')
        n, at = I.length(it), I.at_of(it)
        I.oblige('loop-invariant-holds-at-entry', inv(I, [env.vars[x] for x in names], z3.IntVal(0)))
        i = I.fresh('iteration', z3.IntSort())
        I.assume(z3.And(i >= 0, i < n))

        def havoc(tag, k):
            vs = [I.make(STR, '%s@%s' % (x, tag)) for x in names]
            I.assume(inv(I, vs, k))
            for x, v in zip(names, vs):
                I.set_env(env, x, v)

        def body():
            havoc('start', i)
            I.assign(s.target, at(i), env)
            try:
                I.block(s.body, env)
            except Exception as e:
                if type(e).__name__ in ('BreakSig', 'ReturnSig'):
                    raise Unsupported('exit from the loop')
                if type(e).__name__ != 'ContinueSig':
                    raise
            I.oblige('loop-invariant-is-kept', inv(I, [env.vars[x] for x in names], i + 1))
        hook, I.on_path = I.on_path, None
        try:
            I.explore(body)
        finally:
            I.on_path = hook
        havoc('end', n)
    return spec


class LinkName(Contract):
    """along a path, the linking column is the child's own column of the first relationship, prefixed by each further step"""
    target = 'featuretools.utils.gen_utils:get_relationship_variable_id'

    def name(self):
        return 'get_relationship_variable_id'

    def specs(self):
        return {Relationship: {'parent_name': STR, 'child_name': STR}}

    def loop_specs(self):
        def inv(I, vs, i):
            return I.py_eq(vs[0], link(I, i))
        return {('get_relationship_variable_id', 0): invariant(['child_link_name'], inv)}

    def setup(self, P):
        path = P.make(Lst(Tup(BOOL, Ref(Relationship))), 'path')
        n = P.length(path)
        P.assume(n >= 1)
        at = P.at_of(path)
        # what the linking columns are called
        P.assume(B(P.py_eq(link(P, z3.IntVal(0)), P.getattr(P.getattr(at(z3.IntVal(0))[1], 'child_variable'), 'id'))))
        i = z3.Int('i!step')
        nxt = P.quiet(lambda: P.term(step(P, at(i + 1)[1], link(P, i))))
        P.assume(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < n - 1), P.term(link(P, i + 1)) == nxt)))
        return [path], {}, n

    def post(self, P, n, out):
        if out.kind == 'raise':
            return [('does-not-raise', False)]
        return [('name-of-the-linking-column', P.py_eq(out.value, link(P, n - 1)))]



class Ancestors(Contract):
    """the columns linking an entity to its ancestors are carried down one relationship, each under the name `get_relationship_variable_id` gives it"""
    target = FSC + '_add_ancestor_relationship_variables'
    library = True

    def name(self):
        return '_add_ancestor_relationship_variables'

    def specs(self):
        return {Relationship: {'parent_name': STR, 'child_variable': Ref(Variable), 'parent_variable': Ref(Variable), 'child_entity': Ref(Entity)}}

    def setup(self, P):
        r = P.make(Ref(Relationship), 'r')
        names = P.fresh_list(STR, 'ancestor_variables')
        own, below = (P.getattr(P.getattr(r, s + '_variable'), 'id') for s in ('parent', 'child'))
        P.assume(Not(P.contains(names, own)))

        def rename(I, a, k):
            m = k.get('columns')
            I.oblige('renames-by-a-mapping', isinstance(m, DictV))
            self.mapping(I, m, names, own, below, r)
            return LibV('renamed', pd.DataFrame)

        def columns(I, a, k):
            cols = a[0]
            I.oblige('takes-the-linking-columns-of-the-parent', And(I.contains(cols, own), forall(I, names, lambda x: I.contains(cols, x))) if isinstance(cols, ListV) else False)
            return LibV('linking columns', pd.DataFrame, {'rename': ModelV('rename', rename)})

        def merge(I, a, k):
            on = k.get('on')
            I.oblige('no-child-row-is-lost', k.get('how') == 'left')
            I.oblige('rows-meet-their-parent', And(I.py_eq(k.get('left_on', on), below), I.py_eq(k.get('right_on', on), below)))
            other = a[0] if a else k.get('right')
            if not getattr(other, 'why', '').startswith('renamed'):
                raise Unsupported('linked in some other way')
            I.event('merged', ())
            return LibV('merged', pd.DataFrame)
        child = LibV('child', pd.DataFrame, {'merge': ModelV('merge', merge)})
        parent = LibV('parent', pd.DataFrame, {'__getitem__': ModelV('columns', columns)})
        from featuretools.computational_backends.feature_set_calculator import FeatureSetCalculator
        return [P.born(ObjV(FeatureSetCalculator, {})), child, parent, names, r], {}, (names, r)

    def mapping(self, I, m, names, own, below, r):
        I.oblige('the-parents-key-becomes-the-childs-column', And(I.contains(m, own), I.py_eq(I.getitem(m, own), below)))
        n = I.length(names)
        if not I.decide(n == 0):
            j = I.make(INT, 'any ancestor')
            I.assume(z3.And(j >= 0, j < n))
            x = I.at_of(names)(j)
            I.oblige('each-ancestor-column-is-renamed', And(I.contains(m, x), I.py_eq(I.getitem(m, x), step(I, r, x))))

    def post(self, P, ctx, out):
        names, r = ctx
        if out.kind == 'raise':
            return [('does-not-raise', False)]
        df, new = out.value
        done = len([e for e in P.events if e.value[0] == 'merged'])
        if not done:
            raise Unsupported('linked in some other way')
        i = z3.Int('i!name')
        n = P.length(names)
        if not isinstance(new, ListV):
            raise Unsupported('other result')
        got, of = P.at_of(new), P.at_of(names)
        e = P.quiet(lambda: P.py_eq(got(i), step(P, r, of(i))))
        return [('one-name-per-ancestor-column', P.length(new) == n), ('named-one-step-longer', z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < n), B(e)))),
                ('the-child-with-its-links-is-returned', getattr(df, 'why', '').startswith('merged')), ('linked-once', done == 1)]


CONTRACTS = [LinkName, Ancestors]
