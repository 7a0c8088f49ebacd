"""The verifier's own test: right bodies are accepted, wrong ones are not, and on concrete inputs the
symbolic interpreter computes what CPython computes."""
import os
import random
import sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.path.insert(0, os.environ.get('FT_REPO', '/repo'))
from prove import *      # noqa
from chelp import *      # noqa
import fv_selftest as T

INTS = Lst(INT)
big = lambda x: x > 3


def members(P, out, xs):
    return [('members', same_members(P, out.value, xs, big))] if isinstance(out.value, ListV) else [('members', False)]


def largest(ok):
    def post(P, a, out):
        v = out.value
        return [('upper bound', And(v >= 0, forall(P, a[0], lambda x: Implies(ok(x), v >= x)))),
                ('attained', Or(v == 0, exists(P, a[0], lambda x: And(ok(x), x == v))))]
    return post


def count(P, a, out):
    xs, v = a[0], out.value
    return [('bounds', And(v >= 0, v <= P.length(xs))), ('none', Implies(forall(P, xs, lambda x: Not(big(x))), v == 0)),
            ('all', Implies(forall(P, xs, big), v == P.length(xs))), ('some', Implies(exists(P, xs, big), v >= 1))]


def boxed(P, a, out):
    return [('value', False if out.value is None else out.value == a[0] + 4)]


def lookup(P, a, out):
    d, k = a
    if out.kind == 'raise':
        return [('no exception', False)]
    return [('found', Implies(P.contains(d, k), P.py_eq(out.value, P.getitem(d, k)) if P.decide(P.contains(d, k)) else True))]


def floor(P, a, out):
    if out.kind == 'raise':
        return [('refuses only zero', And(out.value.cls is ValueError, a[1] == 0))]
    return [('zero refused', a[1] != 0), ('below', Implies(a[1] > 0, And(out.value * a[1] <= a[0], (out.value + 1) * a[1] > a[0])))]


def first(P, a, out):
    xs, v = a[0], out.value
    if v is None:
        return [('none left', forall(P, xs, lambda x: Not(big(x))))]
    return [('is one', And(big(v), exists(P, xs, lambda x: x == v)))]


CASES = {
    'largest': ([INTS], largest(lambda x: True)), 'largest_if': ([INTS], largest(lambda x: True)), 'largest_min': ([INTS], largest(lambda x: True)),
    'largest_even': ([INTS], largest(lambda x: x % 2 == 0)),
    'count': ([INTS], count), 'count_sum': ([INTS], count), 'count_all': ([INTS], count),
    'any': ([INTS], lambda P, a, o: [('any', Iff(B(P.truth(o.value)), B(exists(P, a[0], big))))]),
    'filter': ([INTS], lambda P, a, o: members(P, o, a[0])),
    'abs': ([INT], lambda P, a, o: [('abs', And(o.value >= 0, Or(o.value == a[0], o.value == -a[0])))]),
    'floor': ([INT, INT], floor),
    'own_list': ([INTS, INT], lambda P, a, o: [('length', P.length(o.value) == P.the_length)]),
    'default': ([Map(STR, INT), STR], lookup),
    'box': ([INT], boxed),
    'first': ([INTS], first),
}
CASES.update({k: CASES['any'] for k in ('any_if', 'any_break', 'any_last', 'any_all')})
CASES.update({f[2:]: CASES['filter'] for f in vars(T) if f[2:].startswith('filter_')})


def contract(fname):
    types, post_ = CASES[fname[2:]]

    class C(Contract):
        target = 'fv_selftest:' + fname

        def name(self):
            return fname

        def setup(self, P):
            args = [P.make(t, 'arg%d' % i) for i, t in enumerate(types)]
            if isinstance(args[0], ListV):
                P.the_length = P.length(args[0])
            return args, {}, args

        def post(self, P, ctx, out):
            if out.kind == 'raise' and fname[2:] not in ('floor', 'default'):
                return [('no exception', False)]
            return post_(P, ctx, out)
    return C()


def symbolic():
    bad = []
    n = 0
    for f in sorted(vars(T)):
        if f[:2] not in ('r_', 'w_') or f[2:] not in CASES:
            continue
        n += 1
        r = verify(contract(f))
        st = {v['status'] for v in r['obligations'].values()}
        if f[:2] == 'r_' and (st != {'discharged'} or r['error']):
            bad.append((f, r['error'], r['obligations']))
        # a loop outside the engine's reach may leave a mistake undecided, never accepted
        if f[:2] == 'w_' and st == {'discharged'} and not r['error']:
            bad.append((f, 'accepted', r['obligations']))
        if os.environ.get('FV_V'):
            print(f, st, r['error'] or '', r['wall_s'])
    return n, bad


ARGS = {'default': 'dk', 'try': 'dk', 'floor': 'ii', 'own_list': 'li', 'abs': 'i', 'box': 'i'}


def concrete(seed=1, rounds=12):
    """every function on concrete inputs: the interpreter against CPython"""
    rng = random.Random(seed)
    bad, n = [], 0
    for f in sorted(vars(T)):
        if f[:2] not in ('r_', 'w_'):
            continue
        fn = getattr(T, f)
        for _ in range(rounds):
            xs = [rng.randint(-2, 6) for _ in range(rng.randint(0, 4))]
            d = {k: rng.randint(0, 5) for k in rng.sample(['a', 'b', 'c'], rng.randint(0, 3))}
            mk = {'l': lambda: list(xs), 'i': lambda: 0, 'd': lambda: dict(d), 'k': lambda: 'a'}
            kinds = ARGS.get(f[2:], 'l')
            ints = [rng.randint(-4, 4) for _ in kinds]
            args = lambda: [ints[i] if k == 'i' else mk[k]() for i, k in enumerate(kinds)]
            try:
                want = ('normal', fn(*args()))
            except Exception as e:
                want = ('raise', type(e))
            I = Verifier(specs={}, contracts={}, timeout=2000)
            install(I)
            I.library, I.forks, I.on_path = None, {}, None
            rs = []

            def one():
                I.depth = 0
                a = [I.mklist(list(x)) if isinstance(x, list) else I.lift(x) for x in args()]
                v = I.call(fn, a, {})
                return I.native(v) if isinstance(v, Sym) else v
            try:
                rs = I.explore(one)
            except Unsupported as e:
                bad.append((f, args(), 'unsupported %s' % e))
                continue
            n += 1
            got = [(r.kind, r.value.cls if r.kind == 'raise' else r.value) for r in rs]
            if got != [want]:
                bad.append((f, args(), 'CPython %r, interpreter %r' % (want, got)))
    return n, bad


if __name__ == '__main__':
    n, bad = symbolic()
    m, bad2 = concrete()
    for b in bad + bad2:
        print('SELFTEST FAILED', str(b)[:1000])
    print('verifier self-test: %d contracts, %d concrete runs, %d failures' % (n, m, len(bad + bad2)))
    sys.exit(1 if bad or bad2 else 0)
