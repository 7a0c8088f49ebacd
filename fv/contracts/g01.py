"""Neighbour and path queries on the relationship graph."""
from chelp import *
from featuretools.entityset.relationship import Relationship, RelationshipPath
from featuretools.entityset.entityset import EntitySet
MOD = 'featuretools.entityset.entityset:'
RELS = Lst(Ref(Relationship))


class PathV(RefV):
    """a list of relationships: only consing and reversing matter here"""
    def binop(self, P, op, other, refl):
        if op == 'Add' and refl and isinstance(other, ListV):
            t = self.term
            for r in reversed(other.items()):
                t = P.fn('cons', Obj, Obj, Obj)(P.term(r), t)
            return PathV('path', t)
        return NotImplemented

    def slice(self, P, lo, hi, st):
        if lo is None and hi is None and st == -1:
            return PathV('path', P.fn('rev', Obj, Obj)(self.term))
        raise Unsupported('slice of a path')

    def subst(self, pairs):
        return PathV(self.cls, z3.substitute(self.term, *pairs))

    def truth(self, P):
        return self.term != P.fn('nil', Obj)()


def pterm(P, p):
    if isinstance(p, ListV):
        t = P.fn('nil', Obj)()
        for r in reversed(p.items()):
            t = P.fn('cons', Obj, Obj, Obj)(P.term(r), t)
        return t
    return P.term(p)


def paths_of(P, fname, *key):
    """list of (entity id, path) denoted by a recursive call"""
    l = P.call_uf(fname, list(key), Lst(Tup(STR, Ref('path'))))
    for p in l.pieces:
        p.value = (p.value[0], PathV('path', p.value[1].term))
    at = l.at
    l.at = lambda i: (at(i)[0], PathV('path', at(i)[1].term))
    return l


class GetRels(Contract):
    target = MOD + 'EntitySet.get_forward_relationships'
    side = 'child'

    def specs(self):
        return {EntitySet: {'relationships': RELS}}

    def setup(self, P):
        es, e = P.make(Ref(EntitySet), 'es'), P.make(STR, 'entity_id')
        return [es, e], {}, (es, e)

    def post(self, P, ctx, out):
        es, e = ctx
        if out.kind == 'raise':
            return [('does-not-raise', False)]
        rs = P.getattr(es, 'relationships')
        want = lambda r: P.py_eq(P.getattr(P.getattr(r, self.side + '_entity'), 'id'), e)
        i, j = z3.Ints('i!q j!q')
        n = P.length(rs)
        few = z3.Not(z3.Exists([i, j], And(i >= 0, i < j, j < n, want(rs.at(i)), want(rs.at(j)))))
        return [('exactly-the-relationships-on-that-side', same_members(P, out.value, rs, want)),
                ('each-once', Implies(few, P.length(out.value) <= 1))]


class GetBackRels(GetRels):
    target = MOD + 'EntitySet.get_backward_relationships'
    side = 'parent'


class Neighbours(Contract):
    """one unfolding of the recursion: get_*_entities(e) in terms of get_*_entities of the neighbours"""
    target = MOD + 'EntitySet.get_forward_entities'
    rels, far, fwd = 'get_forward_relationships', 'parent', True

    def specs(self):
        return {EntitySet: {self.rels: Meth([STR], RELS)},
                RelationshipPath: {'__add__': ('model', lambda I, v, o: I.call_uf('path_add', [v, o], Ref(RelationshipPath)))}}

    def models(self):
        def mk(P, a, k):
            its = a[0].items()
            if len(its) != 1:
                raise Unsupported('a path of several steps')
            return P.call_uf('path1', [its[0][0], its[0][1]], Ref(RelationshipPath))
        return {RelationshipPath: mk}

    def contracts(self):
        def rec(P, a, k):
            ba = inspect.signature(fnref(self.target)).bind(*a, **k)
            ba.apply_defaults()
            d = ba.arguments
            nm = 'all_from' if d['deep'] is True else 'direct_from'
            return P.call_uf(nm, [d['entity_id']], Lst(Tup(STR, Ref(RelationshipPath))))
        return {fnref(self.target): rec}

    def setup(self, P):
        es, e = P.make(Ref(EntitySet), 'es'), P.make(STR, 'entity_id')
        deep = P.decide(P.fresh('deep', z3.BoolSort()))
        return [es, e], {'deep': deep}, (es, e, deep)

    def post(self, P, ctx, out):
        es, e, deep = ctx
        if out.kind == 'raise':
            return [('does-not-raise', False)]
        rs = P.call(P.getattr(es, self.rels), [e], {})
        far = lambda r: P.getattr(P.getattr(r, self.far + '_entity'), 'id')
        one = lambda r: P.call_uf('path1', [self.fwd, r], Ref(RelationshipPath))
        sub = lambda r: P.call_uf('all_from', [far(r)], Lst(Tup(STR, Ref(RelationshipPath))))
        join = lambda p, q: P.call_uf('path_add', [p, q], Ref(RelationshipPath))
        is_ = lambda x, eid, p: And(P.py_eq(x[0], eid), P.term(x[1]) == P.term(p))
        direct = lambda x: exists(P, rs, lambda r: is_(x, far(r), one(r)))
        further = lambda x: exists(P, rs, lambda r: exists(P, sub(r), lambda y: is_(x, y[0], join(one(r), y[1])))) if deep else False
        got = out.value
        res = [('only-reachable-entities-with-their-paths', forall(P, got, lambda x: Or(direct(x), further(x)))),
               ('every-direct-neighbour', forall(P, rs, lambda r: exists(P, got, lambda x: is_(x, far(r), one(r)))))]
        if deep:
            res.append(('everything-behind-each-neighbour', forall(P, rs, lambda r: forall(
                P, sub(r), lambda y: exists(P, got, lambda x: is_(x, y[0], join(one(r), y[1])))))))
        return res


class NeighboursBack(Neighbours):
    target = MOD + 'EntitySet.get_backward_entities'
    rels, far, fwd = 'get_backward_relationships', 'child', False


class EntityPaths(Contract):
    """depth first search: paths from an entity in terms of the paths of its parents that avoid the entities seen"""
    target = MOD + 'EntitySet._forward_entity_paths'

    def specs(self):
        return {EntitySet: {'get_forward_relationships': Meth([STR], RELS)}}

    def contracts(self):
        def rec(P, a, k):
            d = inspect.signature(fnref(self.target)).bind(*a, **k)
            d.apply_defaults()
            d = d.arguments
            seen = d['seen_entities']
            x = z3.Const('x!chk', Obj)
            # what the recursive call may not visit: what was seen before and this entity
            was = P.fn('set_member', Obj, Obj, z3.BoolSort())(self.seen_term, x) if self.seen_term is not None else False
            want = Or(was, x == P.term(self.start))
            has = isinstance(seen, SetV) and P.contains(seen, RefV(str, x))
            ok = has is not False and P.entailed(z3.ForAll([x], B(Iff(B(has), B(want)))))
            return paths_of(P, 'paths_avoiding' if ok else 'paths_wrong_seen', d['start_entity_id'])
        return {fnref(self.target): rec}

    def setup(self, P):
        es, e = P.make(Ref(EntitySet), 'es'), P.make(STR, 'start')
        self.start = e
        if P.decide(P.fresh('first', z3.BoolSort())):
            self.seen_term = None
            return [es, e], {}, (es, e, None)
        t = P.fresh('seen', Obj)
        seen = P.from_term(St(STR), t)
        self.seen_term = t
        return [es, e, seen], {}, (es, e, P.contains(P._m_set_copy(seen), e))

    def post(self, P, ctx, out):
        es, e, was = ctx
        if out.kind == 'raise':
            return [('does-not-raise', False)]
        rs = P.call(P.getattr(es, 'get_forward_relationships'), [e], {})
        far = lambda r: P.getattr(P.getattr(r, 'parent_entity'), 'id')
        sub = lambda r: paths_of(P, 'paths_avoiding', far(r))
        cons = lambda r, p: P.fn('cons', Obj, Obj, Obj)(P.term(r), P.term(p))
        nil = P.fn('nil', Obj)()
        is_ = lambda x, eid, t: And(P.py_eq(x[0], eid), pterm(P, x[1]) == t)
        new = True if was is None else Not(was)
        start = lambda x: is_(x, e, nil)
        step = lambda x: exists(P, rs, lambda r: exists(P, sub(r), lambda y: is_(x, y[0], cons(r, y[1]))))
        got = out.value
        r_, p_ = z3.Consts('r!cn p!cn', Obj)
        P.assume(z3.ForAll([r_, p_], P.fn('cons', Obj, Obj, Obj)(r_, p_) != nil))
        first = not got.pieces or got.pieces[0].single and pterm(P, got.pieces[0].value[1]).eq(nil)
        rest = ListV(got.pieces[1:]) if got.pieces else got
        return [('nothing-from-an-entity-already-seen', Implies(Not(new), Not(P.nonempty(got)))),
                ('only-the-first-path-is-empty', And(first, forall(P, rest, lambda x: pterm(P, x[1]) != nil))),
                ('only-the-start-and-steps-along-a-relationship', forall(P, got, lambda x: Or(start(x), step(x)))),
                ('the-empty-path-to-the-start', Implies(new, exists(P, got, start))),
                ('every-step-along-a-relationship', Implies(new, forall(P, rs, lambda r: forall(
                    P, sub(r), lambda y: exists(P, got, lambda x: is_(x, y[0], cons(r, y[1])))))))]


class FindForward(Contract):
    target = MOD + 'EntitySet.find_forward_paths'

    def contracts(self):
        return {fnref(MOD + 'EntitySet._forward_entity_paths'): lambda P, a, k: paths_of(P, 'paths_from', a[1])}

    def setup(self, P):
        es, s, g = P.make(Ref(EntitySet), 'es'), P.make(STR, 'start'), P.make(STR, 'goal')
        return [es, s, g], {}, (es, s, g)

    def post(self, P, ctx, out):
        es, s, g = ctx
        if out.kind == 'raise':
            return [('does-not-raise', False)]
        allp = paths_of(P, 'paths_from', s)
        return [('only-paths-to-the-goal', forall(P, out.value, lambda p: exists(P, allp, lambda x: And(P.py_eq(x[0], g), pterm(P, x[1]) == pterm(P, p))))),
                ('every-path-to-the-goal', forall(P, allp, lambda x: Implies(P.py_eq(x[0], g), exists(P, out.value, lambda p: pterm(P, x[1]) == pterm(P, p)))))]


class FindBackward(Contract):
    target = MOD + 'EntitySet.find_backward_paths'

    def contracts(self):
        return {fnref(MOD + 'EntitySet.find_forward_paths'): lambda P, a, k: self.fw(P, a[1], a[2])}

    def fw(self, P, s, g):
        l = P.call_uf('forward_paths', [s, g], Lst(Ref('path')))
        for p in l.pieces:
            p.value = PathV('path', p.value.term)
        at = l.at
        l.at = lambda i: PathV('path', at(i).term)
        return l

    setup = FindForward.setup

    def post(self, P, ctx, out):
        es, s, g = ctx
        if out.kind == 'raise':
            return [('does-not-raise', False)]
        f = self.fw(P, g, s)
        rev = lambda p: P.fn('rev', Obj, Obj)(pterm(P, p))
        return [('only-reversed-forward-paths', forall(P, out.value, lambda p: exists(P, f, lambda q: pterm(P, p) == rev(q)))),
                ('every-forward-path-reversed', forall(P, f, lambda q: exists(P, out.value, lambda p: pterm(P, p) == rev(q))))]


class UniquePath(Contract):
    target = MOD + 'EntitySet.has_unique_forward_path'

    def contracts(self):
        return {fnref(MOD + 'EntitySet.find_forward_paths'): lambda P, a, k: FindBackward.fw(None, P, a[1], a[2])}

    def setup(self, P):
        a, k, c = FindForward.setup(self, P)
        l = FindBackward.fw(None, P, c[1], c[2])
        # only the first path may be the empty one (what _forward_entity_paths yields first; see EntityPaths)
        i = z3.Int('i!nil')
        P.assume(z3.ForAll([i], z3.Implies(z3.And(i >= 1, i < P.length(l)), l.at(i).term != P.fn('nil', Obj)())))
        return a, k, c + (l,)

    def post(self, P, ctx, out):
        es, s, g, l = ctx
        n = P.length(l)
        if out.kind == 'raise':
            return [('raises-only-without-a-path', n == 0)]
        return [('true-exactly-for-one-path', Iff(B(P.truth(out.value)), n == 1))]


CONTRACTS = [GetRels, GetBackRels, Neighbours, NeighboursBack, EntityPaths, FindForward, FindBackward, UniquePath]
