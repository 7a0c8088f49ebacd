"""Approximation: how cutoff times are binned, and which features are approximated."""
from flow import *
from values import LibV, ModelV, StrV, Sym
import pandas as pd
from flowsettings import CB
from featuretools.entityset.timedelta import Timedelta
from featuretools.entityset.relationship import RelationshipPath
from featuretools.computational_backends.feature_set import FeatureSet
from featuretools.utils.trie import Trie
from featuretools.feature_base import feature_base as fb
U = CB + 'utils:'
SECS = {'ms': z3.RealVal('1/1000'), 's': z3.RealVal(1), 'm': z3.RealVal(60), 'h': z3.RealVal(3600), 'd': z3.RealVal(86400), 'w': z3.RealVal(7 * 86400)}
ALIAS = {'ms': 'ms', 'L': 'ms', 'l': 'ms', 's': 's', 'S': 's', 't': 'm', 'T': 'm', 'min': 'm', 'h': 'h', 'H': 'h', 'd': 'd', 'D': 'd'}


class Span(Sym):
    """a span of time in seconds"""
    def __init__(self, secs):
        self.secs = secs

    def binop(self, I, op, y, refl):
        if op == 'Add' and isinstance(y, Span):
            return Span(self.secs + y.secs)
        if op == 'Add' and y == 0 and not z3.is_expr(y):
            return self
        return NotImplemented


def span(P, a, k):
    v = a[0] if a else k['value']
    unit = a[1] if len(a) > 1 else k.get('unit')
    if isinstance(v, Span):
        return v
    v = z3.RealVal(v) if isinstance(v, (int, float)) else z3.ToReal(v) if z3.is_int(v) else v
    if unit is None:
        return Span(v / 10 ** 9)
    if unit not in SECS:
        raise Unsupported('unit %r of pandas' % (unit,))
    return Span(v * SECS[unit])


span.forced = True


class Round(Flow):
    """cutoff times are rounded down to a multiple of exactly the window given, whatever its unit; relative windows are refused"""
    target = U + 'datetime_round'

    def name(self):
        return 'datetime_round [windows of one or two units]'

    def models(self):
        return {pd.Timedelta: span}

    def start(self, P):
        units = ['ms', 's', 'h', 'm', 'd', 'w', 'mo', 'Y', 'o']
        def choose(us, what):
            for u in us[:-1]:
                if P.decide(P.make(BOOL, '%s is %s' % (what, u))):
                    return u
            return us[-1]
        one = choose(units, 'unit')
        us = [one]
        if P.decide(P.make(BOOL, 'two units')):
            us.append(choose([u for u in units if u != one][:6], 'second unit'))
        val = {u: P.make(INT, 'amount of ' + u) for u in us}
        for v in val.values():
            P.assume(v > 0)
        td = P.born(ObjV(Timedelta, {'times': P.born(DictV([Piece((), True, (u, val[u])) for u in us])), 'delta_obj': LibV('delta')}))

        def floor(I, a, k):
            f = a[0] if a else k['freq']
            I.event('rounded', (f,))
            return LibV('rounded')
        other = lambda n: ModelV(n, lambda I, a, k: LibV('rounded otherwise'))
        dt = LibV('times', None, {'dt': LibV('dt', None, {'floor': ModelV('floor', floor), 'ceil': other('ceil'), 'round': other('round')})})
        return [dt, td], {}, dict(val=val, us=us)

    def post(self, P, c, out):
        us, val = c['us'], c['val']
        relative = any(u not in SECS for u in us)
        if out.kind == 'raise':
            return [('refused-only-when-relative', relative)]
        fs = [e.value[1] for e in P.events if e.value[0] == 'rounded']
        posts = [('accepted-only-when-absolute', not relative), ('rounded-down', getattr(out.value, 'why', '') == 'rounded' and len(fs) == 1)]
        if relative or len(fs) != 1:
            return posts
        want = sum((z3.ToReal(val[u]) * SECS[u] for u in us), z3.RealVal(0))
        return posts + [('to-a-multiple-of-the-window', self.seconds(P, fs[0], val) == want)]

    def seconds(self, P, f, val):
        if isinstance(f, Span):
            return f.secs
        if isinstance(f, StrV) and len(f.parts) == 2 and f.parts[1].strip() in ALIAS:
            n = getattr(f.parts[0], 'term', None)      # the text of a number
            if n is not None and n.num_args() == 1 and n.arg(0).num_args() == 1 and z3.is_int(n.arg(0).arg(0)):
                return z3.ToReal(n.arg(0).arg(0)) * SECS[ALIAS[f.parts[1].strip()]]
        raise Unsupported('window %s not followed' % (f,))

    def cover(self, P, c, out):
        return [('refused', out.kind == 'raise'), ('two units', len(c['us']) > 1 and out.kind != 'raise'), ('weeks', c['us'] == ['w'])]


class Ghost(object):
    """what has been recorded"""


def steps(path):
    """the steps of a path, when they are known"""
    l = path.attrs['_relationships_with_direction'] if isinstance(path, ObjV) else path
    if isinstance(l, ListV) and l.concrete and all(isinstance(p.value, str) for p in l.pieces):
        return tuple(p.value for p in l.pieces)
    raise Unsupported('path not followed')


class Gather(Flow):
    """exactly the aggregations reached through direct features (of any length) that need no whole entity are approximated, at the end of the path of the direct features"""
    target = U + 'gather_approximate_features'

    def name(self):
        return 'gather_approximate_features [chains of up to three direct features]'

    def calls(self):
        def node(P, a):
            at, g = steps(a['path']), P.flow['g']
            for t, s, n in g.attrs['nodes']:
                if t is a['self'] and s == at:
                    return n
            n = P.born(ObjV(Trie, {'value': P.call(a['self'].attrs['_default'], [], {})}))
            P.set_attr(g, 'nodes', g.attrs['nodes'] + ((a['self'], at, n),))
            return n
        def full(P, a):
            f = a['feature']
            P.oblige('what-a-feature-depends-on-counts', P.truth(a['check_dependents']))
            return f.attrs['needs all']
        return {'featuretools.utils.trie:Trie.get_node': (node, {}), CB + 'feature_set:FeatureSet.uses_full_entity': (full, {})}

    def start(self, P):
        L = lambda x: P.born(ListV([Piece((), True, v) for v in x]))
        path = lambda *x: P.born(ObjV(RelationshipPath, {'_relationships_with_direction': L(x)}))
        said = lambda n: ModelV('name', lambda I, a, k: n)
        mk = lambda cls, n, base, p=None: P.born(ObjV(cls, {'base_features': L(base), 'relationship_path': p, 'unique_name': said(n), 'get_name': said(n), 'needs all': n in ('one', 'two', 'three', 'same', 't') and P.decide(P.make(BOOL, n + ' needs a whole entity'))}))
        a1, a2, raw = mk(fb.AggregationFeature, 'a1', [], path('down')), mk(fb.AggregationFeature, 'a2', [], path('down')), mk(fb.IdentityFeature, 'raw', [])
        t = mk(fb.TransformFeature, 't', [a1])
        one, two, three = mk(fb.DirectFeature, 'one', [a1], path('x')), mk(fb.DirectFeature, 'y2', [a2], path('y')), None
        two = mk(fb.DirectFeature, 'two', [two], path('x'))
        three = mk(fb.DirectFeature, 'three', [mk(fb.DirectFeature, 'm', [mk(fb.DirectFeature, 'n', [a1], path('z'))], path('y'))], path('x'))
        same_ = mk(fb.DirectFeature, 'same', [a2], path('x'))
        others = [mk(fb.DirectFeature, 'of raw', [raw], path('x')), mk(fb.DirectFeature, 'of t', [t], path('x')), a2, raw, t]
        fs = P.born(ObjV(FeatureSet, {'target_features': L([one, two, three, same_] + others)}))
        g = P.born(ObjV(Ghost, {'nodes': ()}))
        return [fs], {}, dict(g=g, want=[(one, ('x',), 'a1'), (two, ('x', 'y'), 'a2'), (three, ('x', 'y', 'z'), 'a1'), (same_, ('x',), 'a2')])

    def post(self, P, c, out):
        if out.kind == 'raise':
            return [('does-not-raise', False)]
        posts = []
        nodes = {s: n.attrs['value'] for t, s, n in c['g'].attrs['nodes'] if t is out.value}
        allowed = {}
        for f, s, name in c['want']:
            here = P.contains(nodes[s], name) if s in nodes else False
            posts.append(('approximated-exactly-when-it-needs-no-whole-entity', Iff(here, Not(f.attrs['needs all']))))
            allowed.setdefault(s, []).append(name)
        for s, v in nodes.items():
            posts.append(('nothing-else-is-approximated', forall(P, v, lambda x: Or(*[P.py_eq(x, n) for n in allowed.get(s, [])]))))
        return posts

    def cover(self, P, c, out):
        return [('some are approximated', len(c['g'].attrs['nodes']) > 0)]


class Bin(Flow):
    """binning gives each cutoff time the largest multiple of the window not after it, in a new table that is otherwise the one given"""
    target = U + 'bin_cutoff_times'

    def calls(self):
        def rounded(P, a):
            P.oblige('rounds-the-times', getattr(a['dt'], 'why', '') == 'times')
            P.oblige('rounds-by-the-window', getattr(a['freq'], 'why', '') == 'window as a timedelta')
            return LibV('binned')
        def td(P, a):
            P.oblige('the-window-is-parsed', getattr(a['td'], 'why', '') == 'window')
            return LibV('window as a timedelta')
        return {U + 'datetime_round': (rounded, {}), U + '_check_timedelta': (td, {})}

    def start(self, P):
        number = P.decide(P.make(BOOL, 'a number'))
        size = P.make(INT, 'window') if number else LibV('window', pd.Timedelta)
        if number:
            P.assume(size > 0)
        x = P.make(INT, 'time')

        def apply(I, a, k):
            r = I.call(a[0], [x], {})
            I.oblige('not-after-the-time', r <= x)
            I.oblige('less-than-a-window-before-it', x - r < size)
            I.oblige('a-multiple-of-the-window', r % size == 0)
            return LibV('binned')

        def put(I, a, k):
            I.oblige('only-the-times-change', I.py_eq(a[0], 'time'))
            I.oblige('they-become-the-binned-times', getattr(a[1], 'why', '') == 'binned')
            I.event('put', ())
        col = lambda I, a, k: LibV('times' if a[0] == 'time' else 'other column', None, {'apply': ModelV('apply', apply), 'map': ModelV('map', apply)})
        new = LibV('copy', None, {'__getitem__': ModelV('column', col), '__setitem__': ModelV('write', put)})
        given = LibV('given', None, {'copy': ModelV('copy', lambda I, a, k: new), '__getitem__': ModelV('column', col),
                                     '__setitem__': ModelV('write', lambda I, a, k: I.oblige('the-table-given-is-not-written', False))})
        return [given, size], {}, dict(new=new)

    def post(self, P, c, out):
        if out.kind == 'raise':
            return [('does-not-raise', False)]
        if not isinstance(out.value, LibV) or out.value is not c['new']:
            raise Unsupported('the result was not followed')
        return [('times-are-binned', any(e.value[0] == 'put' for e in P.events))]

    def cover(self, P, c, out):
        return [('binned', out.kind != 'raise')]


CONTRACTS = [Round, Gather, Bin]
