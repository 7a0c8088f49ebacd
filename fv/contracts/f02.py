"""Features as values: operators, names, dependencies, depth, copies."""
from chelp import *
from featuretools import primitives as pr
from featuretools.entityset.relationship import Relationship, RelationshipPath
from featuretools.feature_base import feature_base as fb
from featuretools.primitives.base import AggregationPrimitive, PrimitiveBase, TransformPrimitive
from featuretools.variable_types import Boolean
MOD = 'featuretools.feature_base.feature_base:'
F = Ref(fb.FeatureBase)
name = lambda P, f: P.call(P.getattr(f, 'get_name'), [], {})
uname = lambda P, f: P.call(P.getattr(f, 'unique_name'), [], {})


class Built(Sym):
    """a feature that a constructor was asked to make"""
    def __init__(self, cls, args):
        self.cls, self.args = cls, args

    def attr(self, P, nm):
        raise Unsupported('attribute %s of a new feature' % nm)


def ctor(cls, sig):
    """the constructor of a feature class: what it was given"""
    def m(P, a, k):
        try:
            b = sig.bind(None, *a, **k)
        except TypeError:
            raise PyExc(TypeError, ())
        b.apply_defaults()
        d = dict(b.arguments)
        d.pop('self', None)
        return Built(cls, d)
    return m


CLASSES = (fb.IdentityFeature, fb.DirectFeature, fb.AggregationFeature, fb.TransformFeature, fb.GroupByTransformFeature, fb.FeatureOutputSlice)
CTORS = {c: ctor(c, inspect.signature(c.__init__)) for c in CLASSES}


# ------------------------------------------------------------------- operators
BIN = {'__eq__': (pr.Equal, pr.EqualScalar), '__ne__': (pr.NotEqual, pr.NotEqualScalar),
       '__gt__': (pr.GreaterThan, pr.GreaterThanScalar), '__ge__': (pr.GreaterThanEqualTo, pr.GreaterThanEqualToScalar),
       '__lt__': (pr.LessThan, pr.LessThanScalar), '__le__': (pr.LessThanEqualTo, pr.LessThanEqualToScalar),
       '__add__': (pr.AddNumeric, pr.AddNumericScalar), '__radd__': (pr.AddNumeric, pr.AddNumericScalar),
       '__sub__': (pr.SubtractNumeric, pr.SubtractNumericScalar), '__truediv__': (pr.DivideNumeric, pr.DivideNumericScalar),
       '__div__': (pr.DivideNumeric, pr.DivideNumericScalar),
       '__mul__': (pr.MultiplyNumeric, pr.MultiplyNumericScalar), '__rmul__': (pr.MultiplyNumeric, pr.MultiplyNumericScalar),
       '__mod__': (pr.ModuloNumeric, pr.ModuloNumericScalar)}
# reflected: a scalar on the left of a feature
REF = {'__rsub__': pr.ScalarSubtractNumericFeature, '__rtruediv__': pr.DivideByFeature, '__rmod__': pr.ModuloByFeature}
BOTH = {'__and__': (pr.And, 0), 'AND': (pr.And, 0), '__or__': (pr.Or, 0), 'OR': (pr.Or, 0), '__rand__': (pr.And, 1), '__ror__': (pr.Or, 1)}
ONE = {'__abs__': pr.Absolute, '__neg__': pr.Negate, 'NOT': pr.Not, '__invert__': pr.Not, 'is_null': pr.IsNull, 'isin': pr.IsIn}
VALUE = {pr.IsIn: 'list_of_outputs'}


class Op(Contract):
    def models(self):
        return CTORS

    def claim(self, P, out, ins, prim, scalar):
        if out.kind == 'raise':
            return [('does-not-raise', False)]
        v = out.value
        if not isinstance(v, Built) or v.cls is not fb.TransformFeature:
            return [('builds-a-transform-of-its-operands', False)]
        b, p = v.args['base_features'], v.args['primitive']
        b = P.iter_pieces(b) if not isinstance(b, RefV) else [Piece((), True, b)]
        same = len(b) == len(ins) and And(*[P.term(x.value) == P.term(y) for x, y in zip(b, ins)])
        if scalar is None:
            right = p is prim or (isinstance(p, ObjV) and p.cls is prim)
        else:
            right = isinstance(p, ObjV) and p.cls is prim and same_value(P, p.attrs.get(VALUE.get(prim, 'value')), scalar)
        return [('operands-in-the-written-order', same), ('the-primitive-of-the-operator', right),
                ('default-name', v.args.get('name') is None)]


def op(nm, kind):
    class C(Op):
        target = MOD + 'FeatureBase.' + nm

        def name(self):
            return '%s[%s]' % (nm, kind)

        def setup(self, P):
            f = P.make(F, 'self')
            g = P.make(F, 'other') if kind == 'feature' else P.make(REAL, 'other') if kind == 'scalar' else P.make(Lst(ANY), 'values') if nm == 'isin' else None
            return [f] + ([g] if g is not None else []), {}, (f, g)

        def post(self, P, ctx, out):
            f, g = ctx
            if kind == 'feature' and nm in BIN:
                p = BIN[nm][0]
                if nm in ('__mul__', '__rmul__'):
                    bools = And(P.py_eq(P.getattr(f, 'variable_type'), Boolean), P.py_eq(P.getattr(g, 'variable_type'), Boolean))
                    want = pr.MultiplyBoolean if P.decide(bools) else p
                    return self.claim(P, out, [f, g], want, None)
                return self.claim(P, out, [f, g], p, None)
            if kind == 'scalar' and nm in BIN:
                return self.claim(P, out, [f], BIN[nm][1], g)
            if nm in REF:
                return self.claim(P, out, [f], REF[nm], g)
            if nm in BOTH:
                return self.claim(P, out, [g, f] if BOTH[nm][1] else [f, g], BOTH[nm][0], None)
            return self.claim(P, out, [f], ONE[nm], g)
    C.__name__ = 'Op_' + nm.strip('_') + '_' + kind
    return C


OPS = [op(n, k) for n in BIN for k in ('feature', 'scalar') if not n.startswith('__r') or k == 'scalar'] + [op(n, 'scalar') for n in REF] + \
    [op(n, 'feature') for n in BOTH] + [op(n, 'alone') for n in ONE]


# ------------------------------------------------------------- dependencies, depth
def me(P, cls, nm='self', **attrs):
    """a feature of a known class: the attributes given, everything else arbitrary"""
    o = P.born(ObjV(cls, dict(attrs, __term__=P.make(F, nm)), nm))
    P.assume(P.sub(P.dyn(o.attrs['__term__'].term), P.lit(cls)))
    return o


def args_of(spec, a, k):
    fn = fnref(spec)
    d = inspect.signature(fn).bind(*a, **k)
    d.apply_defaults()
    return d.arguments


def same_members_of(P, a, b):
    if a is b:
        return True
    if not (isinstance(a, (SetV, ListV)) and isinstance(b, (SetV, ListV))):
        return False
    return And(forall(P, a, lambda x: P.contains(b, x)), forall(P, b, lambda x: P.contains(a, x)))


def not_given(P, a):
    return a is None or (isinstance(a, (SetV, ListV)) and Not(P.nonempty(a)))


def same_value(P, a, b):
    if isinstance(b, (ListV, tuple)):
        return a is b or (isinstance(a, (ListV, tuple)) and P.quiet(lambda: P.py_eq(aslist(P, a), aslist(P, b))))
    if a is b:
        return True
    if isinstance(b, (RefV, ObjV)) or isinstance(a, (RefV, ObjV)):
        return P.term(a) == P.term(b)
    return P.py_eq(a, b)


def aslist(P, x):
    return P.mklist(list(x)) if isinstance(x, tuple) else x


class Dependencies(Contract):
    """what is used directly (the inputs and the condition, less what is ignored); deeply: and everything those use"""
    target = MOD + 'FeatureBase.get_dependencies'
    deep, cls, where = False, fb.TransformFeature, False

    def name(self):
        return 'get_dependencies/%s%s%s' % (self.cls.__name__, '/where' if self.where else '', '/deep' if self.deep else '')

    def specs(self):
        def rec(P, v, *a, **k):
            d = args_of(self.target, (v,) + a, k)
            P.oblige('everything-below-with-the-same-exceptions', B(And(P.truth(d['deep']), self.same(P, d['ignored']))))
            return P.call_uf('deep dependencies', [v], Lst(F))
        return {fb.FeatureBase: {'get_dependencies': ('model', rec)}}

    def same(self, P, ign):
        if self.ign is None:
            return ign is None or (isinstance(ign, (SetV, ListV)) and Not(P.nonempty(ign))) if not isinstance(ign, bool) else False
        return same_members_of(P, ign, self.ign)

    def setup(self, P):
        base = P.fresh_list(F, 'inputs')
        w = P.make(F, 'where') if self.where else None
        ats = dict(base_features=base)
        if self.cls is fb.AggregationFeature:
            ats['where'] = w
        self.ign = P.make(Opt(St(STR)), 'ignored')
        return [me(P, self.cls, **ats)], {'deep': self.deep, 'ignored': self.ign}, (base, w)

    def post(self, P, ctx, out):
        base, w = ctx
        if out.kind == 'raise':
            return [('does-not-raise', False)]
        r = out.value
        free = lambda x: True if self.ign is None else Not(P.contains(self.ign, uname(P, x)))
        direct = lambda x: And(free(x), Or(P.contains(base, x), False if w is None else P.term(x) == P.term(w)))
        below = lambda x: P.call_uf('deep dependencies', [x], Lst(F))
        got = lambda x: P.contains(r, x)
        dom = [(base, None)] if w is None else [(base, None), (P.mklist([w]), None)]
        res = [('nothing-else' if not self.deep else 'nothing-else-deep',
                forall(P, r, lambda x: direct(x) if not self.deep else Or(direct(x), *[
                    exists(P, l, lambda d: And(free(d), P.contains(below(d), x))) for l, _ in dom])))]
        for l, _ in dom:
            res.append(('every-direct-one', forall(P, l, lambda d: Implies(free(d), got(d)))))
            if self.deep:
                res.append(('everything-those-use', forall(P, l, lambda d: Implies(free(d), forall(P, below(d), got)))))
        return res


def variant(base, nm, **kw):
    return type(nm, (base,), kw)


DEPS = [Dependencies] + [variant(Dependencies, 'Dep%d' % i, **kw) for i, kw in enumerate([
    dict(deep=True), dict(cls=fb.AggregationFeature), dict(cls=fb.AggregationFeature, where=True),
    dict(cls=fb.AggregationFeature, deep=True), dict(cls=fb.AggregationFeature, where=True, deep=True), dict(cls=fb.DirectFeature)])]


class Depth(Contract):
    target = MOD + 'FeatureBase.get_depth'

    def specs(self):
        def deps(P, v, *a, **k):
            d = args_of(MOD + 'FeatureBase.get_dependencies', (v,) + a, k)
            ign = d['ignored']
            if self.stop is None:
                ok = ign is None or (isinstance(ign, (SetV, ListV)) and Not(P.nonempty(ign)))
            else:
                ok = isinstance(ign, (SetV, ListV)) and And(
                    forall(P, self.stop, lambda s: P.contains(ign, uname(P, s))),
                    forall(P, ign, lambda n: exists(P, self.stop, lambda s: P.term(uname(P, s)) == P.term(n))))
            P.oblige('looks-at-everything-below-up-to-where-it-stops', B(And(P.truth(d['deep']), ok)))
            return P.call_uf('below', [v], Lst(F))

        def depth(P, v, *a, **k):
            d = args_of(self.target, (v,) + a, k)
            P.oblige('stops-at-the-same-features-below', B(self.stop is None and not_given(P, d['stop_at']) or same_members_of(P, d['stop_at'], self.stop)))
            r = P.call_uf('depth', [v], INT)
            P.assume(r >= 0)
            return r
        return {fb.FeatureBase: {'get_dependencies': ('model', deps), 'get_depth': ('model', depth)}}

    def setup(self, P):
        self.stop = P.make(Opt(Lst(F)), 'stop_at')
        f = P.make(F, 'self')
        self.f = f
        return [f], {'stop_at': self.stop}, (f,)

    def post(self, P, ctx, out):
        f, = ctx
        if out.kind == 'raise':
            return [('does-not-raise', False)]
        v = out.value
        below = P.call_uf('below', [f], Lst(F))
        depth = lambda d: P.call_uf('depth', [d], INT)
        stops = False if self.stop is None else exists(P, self.stop, lambda s: P.term(uname(P, s)) == P.term(uname(P, f)))
        return [('zero-exactly-where-it-stops', Iff(B(v == 0), B(stops))),
                ('one-more-than-everything-below', Implies(Not(stops), forall(P, below, lambda d: v >= depth(d) + 1))),
                ('one-more-than-the-deepest', Implies(Not(stops), Or(v == 1, exists(P, below, lambda d: v == depth(d) + 1))))]


class IdentityDepth(Contract):
    target = MOD + 'IdentityFeature.get_depth'

    def name(self):
        return 'IdentityFeature.get_depth'

    def setup(self, P):
        return [me(P, fb.IdentityFeature)], {'stop_at': P.make(Opt(Lst(F)), 'stop_at')}, None

    def post(self, P, ctx, out):
        return [('a-plain-column-has-depth-zero', False if out.kind == 'raise' else P.py_eq(out.value, 0))]


# ------------------------------------------------------------------ names, copies

def steps(P, *pairs):
    return P.born(ObjV(RelationshipPath, {'_relationships_with_direction': P.mklist(list(pairs))}))


class Copy(Contract):
    """a copy is built from the same parts"""
    cls = None

    @property
    def target(self):
        return MOD + self.cls.__name__ + '.copy'

    def name(self):
        return self.cls.__name__ + '.copy'

    def models(self):
        return CTORS

    def setup(self, P):
        nm = P.make(Opt(STR), '_name')
        ats = {'_name': nm}
        fs = P.fresh_list(F, 'inputs')
        P.assume(P.length(fs) >= 1)
        r = P.make(Ref(Relationship), 'r')
        prim = P.make(Ref(PrimitiveBase), 'primitive')
        up, wh = P.make(ANY, 'use_previous'), P.make(Opt(F), 'where')
        var = P.make(Ref(fb.Variable), 'variable')
        path = P.make(Ref(RelationshipPath), 'path')
        if self.cls is fb.IdentityFeature:
            ats.update(variable=var)
            want = dict(variable=var)
        elif self.cls is fb.DirectFeature:
            f = P.make(F, 'base')
            ats.update(base_features=P.mklist([f]), relationship_path=steps(P, (True, r)))
            want = dict(base_feature=f, relationship=r)
        elif self.cls is fb.AggregationFeature:
            ats.update(base_features=fs, primitive=prim, use_previous=up, where=wh, relationship_path=path)
            want = dict(base_features=fs, primitive=prim, use_previous=up, where=wh, relationship_path=path)
        elif self.cls is fb.TransformFeature:
            ats.update(base_features=fs, primitive=prim)
            want = dict(base_features=fs, primitive=prim)
        elif self.cls is fb.GroupByTransformFeature:
            g = P.make(F, 'groupby')
            P.assume(P.length(fs) >= 2)
            P.assume(P.term(fs.at(P.length(fs) - 1)) == g.term)         # class invariant: the grouping column is the last input
            ats.update(base_features=fs, primitive=prim, groupby=g)
            want = dict(base_features=P.getitem(fs, slice(None, -1)), primitive=prim, groupby=g)
        else:
            f, n = P.make(F, 'base'), P.make(INT, 'n')
            ats.update(base_feature=f, base_features=P.mklist([f]), n=n)
            want = dict(base_feature=f, n=n)
        o = me(P, self.cls, **ats)
        if self.cls in (fb.DirectFeature, fb.AggregationFeature):
            want['child_entity' if self.cls is fb.DirectFeature else 'parent_entity'] = P.getattr(o, 'entity' if self.cls is fb.DirectFeature else 'parent_entity')
        return [o], {}, (o, want, nm)

    def post(self, P, ctx, out):
        o, want, nm = ctx
        if out.kind == 'raise':
            return [('does-not-raise', False)]
        v = out.value
        if not isinstance(v, Built) or v.cls is not self.cls:
            return [('a-feature-of-the-same-kind', False)]
        res = [('same ' + k, same_value(P, v.args.get(k), w)) for k, w in want.items()]
        res.append(('same name', same_value(P, v.args.get('name'), nm)))
        return res


class Rename(Contract):
    target = MOD + 'FeatureBase.rename'

    def name(self):
        return 'rename'

    def specs(self):
        def copy(P, v):
            self.copied.append(v)
            self.c = P.born(ObjV(fb.TransformFeature, {'_name': P.make(Opt(STR), 'copied name'), '_names': P.make(Opt(Lst(STR)), 'copied names')}))
            return self.c
        return {fb.FeatureBase: {'copy': ('model', copy)}}

    def setup(self, P):
        self.copied, self.c = [], None
        self.nm, self.nms = P.make(Opt(STR), '_name'), P.make(Opt(Lst(STR)), '_names')
        o = P.born(ObjV(fb.TransformFeature, {'_name': self.nm, '_names': self.nms}))
        new = P.make(STR, 'name')
        return [o, new], {}, (o, new)

    def post(self, P, ctx, out):
        o, new = ctx
        if out.kind == 'raise':
            return [('does-not-raise', False)]
        c = out.value
        return [('a-copy', c is self.c and len(self.copied) == 1 and self.copied[0] is o and c is not o),
                ('named-as-asked', P.py_eq(c.attrs.get('_name'), new) if isinstance(c, ObjV) else False),
                ('old-output-names-forgotten', isinstance(c, ObjV) and c.attrs.get('_names') is None),
                ('the-feature-itself-keeps-its-name', o.attrs['_name'] is self.nm and o.attrs['_names'] is self.nms)]


class GetName(Contract):
    target = MOD + 'FeatureBase.get_name'

    def name(self):
        return 'get_name'

    def specs(self):
        return {fb.FeatureBase: {'generate_name': ('model', lambda P, v: P.call_uf('generated', [], STR))}}

    def setup(self, P):
        nm = P.make(Opt(STR), '_name')
        o = P.born(ObjV(fb.TransformFeature, {'_name': nm, '_names': None}))
        return [o], {}, (o, nm)

    def post(self, P, ctx, out):
        o, nm = ctx
        if out.kind == 'raise':
            return [('does-not-raise', False)]
        gen = P.call_uf('generated', [], STR)
        if nm is None:
            return [('the-generated-name-without-one', P.py_eq(out.value, gen))]
        return [('its-own-name', P.py_eq(out.value, nm) if P.decide(P.truth(nm)) else P.py_eq(out.value, gen))]


class FeatureNames(Contract):
    """as many output names as outputs: the name itself for one output; otherwise the primitive's, or the new name's once renamed"""
    target = MOD + 'FeatureBase.get_feature_names'

    def name(self):
        return 'get_feature_names'

    def specs(self):
        gen = lambda P, v: P.call_uf('generated', [], STR)
        return {fb.FeatureBase: {'generate_name': ('model', gen), 'get_name': ('model', lambda P, v: P.call_uf('name', [], STR)),
                                 'generate_names': ('model', lambda P, v: P.call_uf('generated names', [], Lst(STR))),
                                 'number_output_features': ('prop', lambda P, v: self.n)}}

    def setup(self, P):
        self.n = P.make(INT, 'outputs')
        P.assume(self.n >= 1)
        names = P.call_uf('generated names', [], Lst(STR))
        P.assume(P.length(names) == self.n)         # generate_names: one per output (its own contract)
        o = P.born(ObjV(fb.TransformFeature, {'_name': None, '_names': None, '__term__': P.make(F, 'self')}))
        return [o], {}, (o, names)

    def post(self, P, ctx, out):
        o, names = ctx
        if out.kind == 'raise':
            return [('does-not-raise', False)]
        v = out.value
        nm, gen = P.call_uf('name', [], STR), P.call_uf('generated', [], STR)
        res = [('one-name-per-output', P.length(v) == self.n)]
        if P.decide(self.n == 1):
            return res + [('the-name-of-the-only-output', P.py_eq(P.getitem(v, 0), nm))]
        if P.decide(P.py_eq(nm, gen)):
            return res + [('the-names-of-the-primitive', same_value(P, v, names))]
        i = z3.Int('i!n')
        e = P.quiet(lambda: P.py_eq(P.at_of(v)(i), StrV([nm, '[', P.call(str, [i], {}), ']'])))
        return res + [('numbered-by-the-new-name', z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < self.n), B(e))))]

    def cover(self, P, ctx, out):
        return [('several', self.n > 1), ('one', self.n == 1)]


class SliceName(Contract):
    target = MOD + 'FeatureOutputSlice.generate_name'

    def name(self):
        return 'FeatureOutputSlice.generate_name'

    def specs(self):
        return {fb.FeatureBase: {'get_feature_names': Meth([], Lst(STR))}}

    def setup(self, P):
        f, n = P.make(F, 'base'), P.make(INT, 'n')
        names = P.call(P.getattr(f, 'get_feature_names'), [], {})
        P.assume(z3.And(n >= 0, n < P.length(names)))
        return [me(P, fb.FeatureOutputSlice, base_feature=f, base_features=P.mklist([f]), n=n)], {}, (names, n)

    def post(self, P, ctx, out):
        names, n = ctx
        return [('the-name-of-that-output', False if out.kind == 'raise' else P.py_eq(out.value, names.at(n)))]


class NewSlice(Contract):
    target = MOD + 'FeatureOutputSlice.__init__'

    def name(self):
        return 'FeatureOutputSlice.__init__'

    def setup(self, P):
        f, n, nm = P.make(F, 'base'), P.make(INT, 'n'), P.make(Opt(STR), 'name')
        o = P.born(ObjV(fb.FeatureOutputSlice, {}))
        return [o, f, n], {'name': nm}, (o, f, n, nm)

    def post(self, P, ctx, out):
        o, f, n, nm = ctx
        k = P.getattr(f, 'number_output_features')
        if out.kind == 'raise':
            return [('refuses-only-outputs-there-are-not', And(issubclass(out.value.cls, AssertionError), Or(k <= 1, n >= k)))]
        a = o.attrs
        same = lambda x, y: x in a and same_value(P, a[x], y)
        return [('refuses-outputs-there-are-not', And(k > 1, n < k)),
                ('of-that-feature', And(same('base_feature', f), same('base_features', P.mklist([f])))),
                ('that-output', same('n', n)),
                ('named-as-asked', same('_name', nm)),
                ('on-the-same-entity', And(*[same(x, P.getattr(f, x)) for x in ('entity_id', 'entityset', 'primitive', 'relationship_path')]))]

    def cover(self, P, ctx, out):
        return [(out.kind, True)]


class GetItem(Contract):
    target = MOD + 'FeatureBase.__getitem__'

    def name(self):
        return 'FeatureBase.__getitem__'

    def models(self):
        return CTORS

    def setup(self, P):
        f, n = P.make(F, 'self'), P.make(INT, 'key')
        return [f, n], {}, (f, n)

    def post(self, P, ctx, out):
        f, n = ctx
        k = P.getattr(f, 'number_output_features')
        if out.kind == 'raise':
            return [('refuses-only-outputs-there-are-not', And(issubclass(out.value.cls, AssertionError), Or(k <= 1, n >= k)))]
        v = out.value
        ok = isinstance(v, Built) and v.cls is fb.FeatureOutputSlice
        return [('refuses-outputs-there-are-not', And(k > 1, n < k)),
                ('the-slice-asked-for', ok and And(same_value(P, v.args['base_feature'], f), P.py_eq(v.args['n'], n), v.args['name'] is None))]


class NewFeature(Contract):
    """ft.Feature: the kind of feature the arguments describe, given exactly those arguments"""
    target = MOD + 'Feature.__new__'
    kind = 'identity'

    def name(self):
        return 'Feature[%s]' % self.kind

    def models(self):
        return CTORS

    def setup(self, P):
        b = P.make(ANY, 'base')
        kw = {}
        if self.kind == 'direct':
            kw['entity'] = P.make(Ref(fb.FeatureBase), 'entity')
        if self.kind in ('aggregation', 'transform', 'groupby'):
            kw['primitive'] = P.make(Ref(AggregationPrimitive if self.kind == 'aggregation' else TransformPrimitive), 'primitive')
            P.assume(P.sub(P.dyn(kw['primitive'].term), P.lit(kw['primitive'].cls)))
        if self.kind == 'aggregation':
            kw.update(parent_entity=P.make(Ref(fb.FeatureBase), 'parent'), use_previous=P.make(ANY, 'use_previous'), where=P.make(ANY, 'where'))
        if self.kind == 'groupby':
            kw['groupby'] = P.make(F, 'groupby')
        return [fb.Feature, b], kw, (b, kw)

    def post(self, P, ctx, out):
        b, kw = ctx
        if out.kind == 'raise':
            return [('does-not-raise', False)]
        cls, ren = {'identity': (fb.IdentityFeature, {'base': 'variable'}), 'direct': (fb.DirectFeature, {'base': 'base_feature', 'entity': 'child_entity'}),
                    'aggregation': (fb.AggregationFeature, {'base': 'base_features'}), 'transform': (fb.TransformFeature, {'base': 'base_features'}),
                    'groupby': (fb.GroupByTransformFeature, {'base': 'base_features'})}[self.kind]
        v = out.value
        if not isinstance(v, Built) or v.cls is not cls:
            return [('the-kind-described', False)]
        return [('hands-on %s' % k, same_value(P, v.args.get(ren.get(k, k)), x)) for k, x in [('base', b)] + list(kw.items())]


class CheckFeature(Contract):
    target = MOD + '_check_feature'

    def name(self):
        return '_check_feature'

    def models(self):
        return CTORS

    def setup(self, P):
        x = P.make(Ref(object), 'x')
        P.assume(Not(And(P.sub(P.dyn(x.term), P.lit(fb.Variable)), P.sub(P.dyn(x.term), P.lit(fb.FeatureBase)))))
        return [x], {}, (x,)

    def post(self, P, ctx, out):
        x, = ctx
        var, feat = is_a(P, x, fb.Variable), is_a(P, x, fb.FeatureBase)
        if out.kind == 'raise':
            return [('refuses-only-other-things', Not(Or(var, feat)))]
        v = out.value
        if isinstance(v, Built):
            return [('the-column-s-feature', And(var, v.cls is fb.IdentityFeature, same_value(P, v.args['variable'], x)))]
        return [('a-feature-is-itself', And(feat, same_value(P, v, x)))]

    def cover(self, P, ctx, out):
        return [(out.kind, True)]


NAMES = [variant(Copy, 'Copy' + c.__name__, cls=c) for c in CLASSES] + [Rename, GetName, FeatureNames, SliceName, NewSlice, GetItem, CheckFeature] + \
    [variant(NewFeature, 'New' + k, kind=k) for k in ('identity', 'direct', 'aggregation', 'transform', 'groupby')]

CONTRACTS = OPS + DEPS + [Depth, IdentityDepth] + NAMES
