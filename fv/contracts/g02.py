"""A trie is a map from paths to values."""
from chelp import *
from featuretools.utils.trie import Trie
MOD = 'featuretools.utils.trie:'


class SeqV(RefV):
    """a path: only emptiness and concatenation matter"""
    def binop(self, P, op, other, refl):
        if op == 'Add' and isinstance(other, RefV):
            a, b = (other, self) if refl else (self, other)
            return SeqV('seq', P.fn('seq_cat', Obj, Obj, Obj)(a.term, b.term))
        return NotImplemented


def trie(P, nm):
    """any trie: a value, a default, a path constructor and any children"""
    ch = P.make(Map(Ref('any'), Ref(Trie)), nm + '.children')
    default = ModelV('default', lambda I, a, k: (I.event('default', (nm,)), RefV('any', I.fresh('default_value', Obj)))[1])
    cons = ModelV('path_constructor', lambda I, a, k: mkpath(I, a[0]))
    t = P.born(ObjV(Trie, {'value': RefV('any', P.fresh(nm + '.value', Obj)), '_children': ch, '_default': default,
                           '_path_constructor': cons}))
    return t, ch


def mkpath(I, l):
    its = l.items()
    if not its:
        return SeqV('seq', I.fn('seq_nil', Obj)())
    if len(its) == 1:
        return SeqV('seq', I.fn('seq_one', Obj, Obj)(I.term(its[0])))
    raise Unsupported('path of several edges')


class GetNode(Contract):
    """one step of a lookup; the rest of the walk is the same contract on the child"""
    target = MOD + 'Trie.get_node'

    def specs(self):
        return {Trie: {}}

    def contracts(self):
        def rec(P, a, k):
            d = inspect.signature(fnref(self.target)).bind(*a, **k).arguments
            return P.call_uf('node_at', [d['self'], P.seq_term(d['path'])], Ref(Trie))
        return {fnref(self.target): rec}

    def setup(self, P):
        t, ch = trie(P, 't')
        path = P.list_of(Ref('any'), P.fresh('path', Obj))
        self.path = path
        return [t, path], {}, (t, ch, ch.sym[0], ch.sym[1], path, t.attrs['_default'], t.attrs['_path_constructor'], t.attrs['value'], len(P.events))

    def post(self, P, ctx, out):
        t, ch, has0, get0, path, default, cons, val0, nev = ctx
        if out.kind == 'raise':
            return [('does-not-raise', False)]
        x = P.make(Ref('any'), 'edge')
        n = P.length(path)
        made = [e for e in P.events[nev:] if e.value[0] == 'default']
        res = [('own-value-untouched', P.term(t.attrs['value']) == P.term(val0))]
        now = t.attrs['_children']
        if out.value is t:
            return res + [('only-the-empty-path-is-here', n == 0), ('nothing-created', len(made) == 0),
                          ('children-untouched', Iff(B(P.contains(now, x)), B(has0(x))))]
        first = path.at(z3.IntVal(0))
        child = P.dict_get(now, first)
        if isinstance(child, RefV):
            fresh_ok = And(len(made) == 0, P.term(child) == P.term(get0(first)), has0(first))
        else:
            fresh_ok = And(len(made) == 1, Not(has0(first)), child.attrs.get('_default') is default,
                           child.attrs.get('_path_constructor') is cons, Not(P.nonempty(child.attrs['_children'])),
                           'default_value' in str(P.term(child.attrs['value'])))
        node = lambda c, p: P.call_uf('node_at', [c, p], Ref(Trie))
        sub = [u for u in [P.slice(path, 1, None, None)]]
        r = P.term(out.value)
        return res + [('a-first-edge-is-there', n > 0),
                      ('existing-child-kept-else-a-new-default-one', fresh_ok),
                      ('other-edges-untouched', Implies(P.term(x) != P.term(first), And(Iff(B(P.contains(now, x)), B(has0(x))))))] + \
            self.walk(P, out, child, path)

    def walk(self, P, out, child, path):
        """the result is the walk from the child along the rest"""
        t = P.term(out.value)
        if t.decl().name() != 'node_at':
            return [('continues-from-the-child', False)]
        i = z3.Int('i!q')
        rest = t.arg(1)
        at = P.fn('at_Obj', Obj, z3.IntSort(), Obj)
        ln = P.fn('len_of', Obj, z3.IntSort())
        n = P.length(path)
        return [('continues-from-the-child', t.arg(0) == P.term(child)),
                ('along-the-rest-of-the-path', And(ln(rest) == n - 1, ForAll([i], Implies(And(i >= 0, i < n - 1), at(rest, i) == P.term(path.at(i + 1))))))]


class Iterate(Contract):
    target = MOD + 'Trie.__iter__'

    def specs(self):
        return {Trie: {'__iter__': ('model', lambda I, v: walk(I, v))}}

    def setup(self, P):
        t, ch = trie(P, 't')
        return [t], {}, (t, ch)

    def post(self, P, ctx, out):
        t, ch = ctx
        if out.kind == 'raise':
            return [('does-not-raise', False)]
        nil = P.fn('seq_nil', Obj)()
        kids = P._m_dict_items(ch)
        cat = lambda k, p: P.fn('seq_cat', Obj, Obj, Obj)(P.fn('seq_one', Obj, Obj)(P.term(k)), P.term(p))
        is_ = lambda x, p, v: And(P.term(x[0]) == p, P.term(x[1]) == P.term(v))
        root = lambda x: is_(x, nil, t.attrs['value'])
        below = lambda x: exists(P, kids, lambda kc: exists(P, walk(P, kc[1]), lambda y: is_(x, cat(kc[0], y[0]), y[1])))
        got = out.value
        return [('only-the-root-and-what-is-below-an-edge', forall(P, got, lambda x: Or(root(x), below(x)))),
                ('the-root', exists(P, got, root)),
                ('everything-below-every-edge', forall(P, kids, lambda kc: forall(P, walk(P, kc[1]), lambda y: exists(
                    P, got, lambda x: is_(x, cat(kc[0], y[0]), y[1])))))]


def walk(P, c):
    l = P.call_uf('walk', [c], Lst(Tup(Ref('any'), Ref('any'))))
    for p in l.pieces:
        p.value = (SeqV('seq', p.value[0].term), p.value[1])
    l.at = None
    return l


CONTRACTS = [GetNode, Iterate]
