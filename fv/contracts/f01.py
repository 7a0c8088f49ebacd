"""Features written as dictionaries and read back."""
from chelp import *
import itertools
import logging
import warnings
from featuretools.entityset.entity import Entity
from featuretools.entityset.entityset import EntitySet
from featuretools.entityset.relationship import Relationship, RelationshipPath
from featuretools.entityset.timedelta import Timedelta
from featuretools.feature_base import feature_base as fb
from featuretools.feature_base.features_deserializer import FeaturesDeserializer
from featuretools.feature_base.features_serializer import FeaturesSerializer
from featuretools.primitives import utils as pu
from featuretools.primitives.base import PrimitiveBase
from contracts.f02 import Built, CTORS, CLASSES, Copy, F, MOD, me, same_value, uname, variant, args_of
REL = 'featuretools.entityset.relationship:Relationship.'


class Written(RefV):
    """the written form (or the unique name) of a part: not empty, and enough to find the part again"""
    __slots__ = ('part',)

    def __init__(self, cls, term, part):
        RefV.__init__(self, cls, term)
        self.part = part

    def truth(self, P):
        return True

    def subst(self, pairs):
        return Written(self.cls, z3.substitute(self.term, *pairs), subst(self.part, pairs))


def written(P, what, x):
    return Written(str if what == 'name' else 'written ' + what, P.fn('written ' + what, Obj, Obj)(P.term(x)), x)


def read_back(P, what, d):
    if isinstance(d, Written) and d.cls == (str if what == 'name' else 'written ' + what):
        return d.part
    return RefV({'relationship': Relationship, 'primitive': PrimitiveBase, 'timedelta': Timedelta, 'name': fb.FeatureBase}[what],
                P.fn('read ' + what, Obj, Obj)(P.term(d)))


class Named(Sym):
    """the dependencies by unique name"""
    def getitem(self, P, k):
        return read_back(P, 'name', k)

    def attr(self, P, nm):
        raise Unsupported('dependencies.' + nm)


class FeatureBack(Copy):
    """from_dictionary(get_arguments()) is built from the same parts"""
    def name(self):
        return self.cls.__name__ + ' and back'

    @property
    def target(self):
        return MOD + self.cls.__name__ + '.get_arguments'

    def contracts(self):
        return {fnref(REL + 'to_dictionary'): lambda P, a, k: self.out(P, 'relationship', a[0]),
                fnref(REL + 'from_dictionary'): lambda P, a, k: self.back(P, 'relationship', a[1] if len(a) > 1 else k['arguments']),
                fnref('featuretools.primitives.utils:serialize_primitive'): lambda P, a, k: self.out(P, 'primitive', a[0]),
                fnref('featuretools.entityset.timedelta:Timedelta.from_dictionary'): lambda P, a, k: self.back(P, 'timedelta', a[1] if len(a) > 1 else k['dictionary'])}

    def specs(self):
        return {fb.FeatureBase: {'unique_name': ('model', lambda P, v: written(P, 'name', v))},
                Timedelta: {'get_arguments': ('model', lambda P, v: self.out(P, 'timedelta', v))}}

    # every kind of part reads back as itself: proved for each of them separately
    def out(self, P, what, x):
        return written(P, what, x)

    def back(self, P, what, d):
        return read_back(P, what, d)

    def setup(self, P):
        (o,), _, ctx = super().setup(P)
        if self.cls is fb.AggregationFeature:
            up = P.make(Opt(Ref(Timedelta)), 'span')
            o.attrs['use_previous'] = ctx[1]['use_previous'] = up
            steps = P.fresh_list(Ref(Relationship), 'steps')
            P.assume(P.length(steps) >= 1)
            i = z3.Int('i!step')
            path = ListV([Piece((i,), z3.And(i >= 0, i < P.length(steps)), (False, steps.at(i)))], 'list', 'idx', P.length(steps), lambda j: (False, steps.at(j)))
            o.attrs['relationship_path'] = P.born(ObjV(RelationshipPath, {'_relationships_with_direction': P.born(path)}))
            ctx[1].pop('relationship_path')
            ctx[1].pop('parent_entity')
            self.steps = steps
        if self.cls is fb.DirectFeature:
            ctx[1].pop('child_entity')
        return [o], {}, ctx

    def body(self, P, fn, args, kwargs, ctx):
        d = P.call(fn, args, kwargs)
        deps = Named()
        pd = P.born(ObjV(pu.PrimitivesDeserializer, {}))
        P.contracts[fnref('featuretools.primitives.utils:PrimitivesDeserializer.deserialize_primitive')] = lambda P, a, k: self.back(P, 'primitive', a[1])
        es = P.make(Ref(EntitySet), 'es')
        frm = inspect.getattr_static(self.cls, 'from_dictionary').__func__
        return P.call(frm, [self.cls, d, es, deps, pd], {})

    def post(self, P, ctx, out):
        res = super().post(P, ctx, out)
        v = out.value
        if isinstance(v, Built) and self.cls is fb.AggregationFeature:
            p = v.args.get('relationship_path')
            l = p.attrs.get('_relationships_with_direction') if isinstance(p, ObjV) else None
            i = z3.Int('i!b')
            at = P.quiet(lambda: P.at_of(l)(i)) if isinstance(l, ListV) else None
            res.append(('same relationship_path', at is not None and And(P.length(l) == P.length(self.steps), ForAll([i], Implies(
                z3.And(i >= 0, i < P.length(self.steps)), And(at[0] is False, P.term(at[1]) == P.term(self.steps.at(i))))))))
            res.append(('of the entity the path starts from', P.term(v.args.get('parent_entity')) == P.term(P.getattr(self.steps.at(z3.IntVal(0)), 'parent_entity'))))
        if isinstance(v, Built) and self.cls is fb.DirectFeature:
            res.append(('for the child of its relationship', P.term(v.args.get('child_entity')) == P.term(P.getattr(v.args['relationship'], 'child_entity'))))
        return res


BACK = [variant(FeatureBack, c.__name__ + 'Back', cls=c) for c in CLASSES[1:]]


class RelationshipBack(Contract):
    target = REL + 'to_dictionary'

    def name(self):
        return 'Relationship and back'

    def specs(self):
        return {Entity: {'__getitem__': Meth([STR], Ref(fb.Variable))}}

    def setup(self, P):
        r = P.make(Ref(Relationship), 'r')
        es = P.make(Ref(EntitySet), 'es')
        self.ends = {}
        # the entityset has the entities and variables the relationship names; they know their own names
        for side in ('parent', 'child'):
            e = P.call(P.getattr(es, '__getitem__'), [P.getattr(r, '_%s_entity_id' % side)], {})
            v = P.call(P.getattr(e, '__getitem__'), [P.getattr(r, '_%s_variable_id' % side)], {})
            P.assume(B(And(P.py_eq(P.getattr(e, 'id'), P.getattr(r, '_%s_entity_id' % side)), P.py_eq(P.getattr(v, 'id'), P.getattr(r, '_%s_variable_id' % side)),
                           P.term(P.getattr(v, 'entity')) == P.term(e), P.term(P.getattr(v, 'entityset')) == P.term(es))))
            if side == 'parent':
                P.assume(B(P.py_eq(P.getattr(e, 'index'), P.getattr(r, '_parent_variable_id'))))
        return [r], {}, (r, es)

    def body(self, P, fn, args, kwargs, ctx):
        d = P.call(fn, args, kwargs)
        return P.call(inspect.getattr_static(Relationship, 'from_dictionary').__func__, [Relationship, d, ctx[1]], {})

    def post(self, P, ctx, out):
        r, es = ctx
        if out.kind == 'raise':
            return [('does-not-raise', False)]
        v = out.value
        if not isinstance(v, ObjV) or v.cls is not Relationship:
            return [('a-relationship', False)]
        return [('same ' + a, P.py_eq(v.attrs.get(a), P.getattr(r, a))) for a in ('_parent_entity_id', '_child_entity_id', '_parent_variable_id', '_child_variable_id')] + \
            [('of the entityset given', P.term(v.attrs.get('entityset')) == P.term(es))]


# -------------------------------------------------------------------- primitives
class Primitive(Contract):
    """the written form of a primitive names its class and its arguments, and is turned into that class called with those arguments"""
    target = 'featuretools.primitives.utils:PrimitivesDeserializer.deserialize_primitive'
    cached = False

    def name(self):
        return 'primitive and back' + ('/class seen before' if self.cached else '')

    def setup(self, P):
        cls = P.make(CLS, 'class')
        nm, mod = P.make(STR, '__name__'), P.make(STR, '__module__')
        p = P.born(ObjV(cls, {}))
        self.given = {k: P.make(ANY, 'value of ' + k) for k in ('one', 'two')}
        args = P.born(DictV([Piece((), True, (k, v)) for k, v in self.given.items()]))
        key = (nm, mod)
        cache = P.born(DictV([Piece((), True, (key, cls))] if self.cached else []))
        d = P.born(ObjV(pu.PrimitivesDeserializer, {'class_cache': cache, 'primitive_classes': 'the classes'}))
        written = P.born(DictV([Piece((), True, (k, v)) for k, v in (('type', nm), ('module', mod), ('arguments', args))]))
        return [d, written], {}, (cls, key, args)

    def contracts(self):
        def find(P, a, k):
            P.oblige('looks-for-the-class-of-that-name-and-module', B(P.py_eq(a[1], (P.ctx_key))))
            r = P.make(Opt(CLS), 'found')
            self.found = r
            return r
        return {fnref('featuretools.primitives.utils:PrimitivesDeserializer._find_class_in_descendants'): find}

    def models(self):
        def made(P, cls, a, k):
            return Built(cls, {'args': list(a), 'kwargs': dict(k)})
        return {'symbolic class': made}

    def body(self, P, fn, args, kwargs, ctx):
        self.found = None
        P.ctx_key = ctx[1]
        return P.call(fn, args, kwargs)

    def post(self, P, ctx, out):
        cls, key, args = ctx
        want = cls if self.cached else self.found
        if out.kind == 'raise':
            return [('fails-only-without-such-a-class', want is None)]
        v = out.value
        return [('that-class', isinstance(v, Built) and want is not None and P.term(v.cls) == P.term(want)),
                ('with-those-arguments', isinstance(v, Built) and v.args['args'] == [] and sorted(v.args['kwargs']) == sorted(self.given) and
                 B(And(*[P.py_eq(v.args['kwargs'][k], x) for k, x in self.given.items()])))]


class Serialize(Contract):
    target = 'featuretools.primitives.utils:serialize_primitive'

    def name(self):
        return 'serialize_primitive'

    def specs(self):
        return {PrimitiveBase: {'get_arguments': Meth([], Lst(Tup(STR, ANY)))}}

    def setup(self, P):
        p = P.make(Ref(PrimitiveBase), 'primitive')
        args = P.call(P.getattr(p, 'get_arguments'), [], {})
        i, j = z3.Ints('i!k j!k')
        n = P.length(args)
        P.assume(z3.ForAll([i, j], z3.Implies(z3.And(0 <= i, i < n, 0 <= j, j < n, P.term(args.at(i)[0]) == P.term(args.at(j)[0])), i == j)))
        return [p], {}, (p, args)

    def post(self, P, ctx, out):
        p, args = ctx
        if out.kind == 'raise':
            return [('does-not-raise', False)]
        d = out.value
        if not isinstance(d, DictV):
            return [('a-dictionary', False)]
        cls = P.call(type, [p], {})
        got = P.getitem(d, 'arguments')
        return [('names-the-class', P.py_eq(P.getitem(d, 'type'), P.getattr(cls, '__name__'))),
                ('and-its-module', P.py_eq(P.getitem(d, 'module'), P.getattr(cls, '__module__'))),
                ('every-argument-with-its-value', forall(P, args, lambda a: exists(P, P._m_dict_items(got), lambda e: And(P.py_eq(e[0], a[0]), P.py_eq(e[1], a[1]))))),
                ('no-other-argument', forall(P, P._m_dict_keys(got), lambda k: exists(P, args, lambda a: P.py_eq(a[0], k))))]


# --------------------------------------------------------------- schema versions
class VersionStr(Sym):
    """a version string of k numbers"""
    def __init__(self, parts):
        self.parts = parts

    def attr(self, P, nm):
        if nm == 'split':
            def split(I, a, k):
                if list(a) != ['.']:
                    raise Unsupported('split')
                return I.mklist([VersionPart(p) for p in self.parts])
            return ModelV('split', split)
        raise Unsupported('version.' + nm)


class VersionPart(Sym):
    def __init__(self, n):
        self.n = n


class Schema(Contract):
    target = 'featuretools.utils.gen_utils:check_schema_version'
    kind, k = 'features', 3

    def name(self):
        return 'check_schema_version/%s/%d numbers' % (self.kind, self.k)

    def models(self):
        import models as std

        def to_int(P, a, k):
            return a[0].n if a and isinstance(a[0], VersionPart) else std.M[int](P, a, k)

        def longest(P, a, k):
            its = [P.iter_pieces(x) for x in a]
            n = max(len(x) for x in its)
            f = k.get('fillvalue')
            return P.mklist([tuple(x[i].value if i < len(x) else f for x in its) for i in range(n)])
        return {int: to_int, itertools.zip_longest: longest, warnings.warn: lambda P, a, k: P.event('newer', ()),
                logging.Logger.warning: lambda P, a, k: P.event('older', ())}

    def setup(self, P):
        self.saved = [P.make(INT, 'v%d' % i) for i in range(self.k)]
        for v in self.saved:
            P.assume(v >= 0)
        vs = VersionStr(self.saved)
        key = P.mklist
        d = P.born(DictV([Piece((), True, ('schema_version', vs))]))
        c = P.born(ObjV(FeaturesDeserializer, {'features_dict': d})) if self.kind == 'features' else d
        return [c, self.kind], {}, len(P.events)

    def post(self, P, n0, out):
        if out.kind == 'raise':
            return [('does-not-raise', False)]
        import featuretools.entityset.serialize as a
        import featuretools.feature_base.features_serializer as b
        cur = [int(x) for x in (a if self.kind == 'entityset' else b).SCHEMA_VERSION.split('.')]
        m = max(len(cur), len(self.saved))
        pad = lambda l: l + [z3.IntVal(0)] * (m - len(l))
        newer, eq = z3.BoolVal(False), z3.BoolVal(True)
        for s, c in zip(pad(self.saved), pad([z3.IntVal(x) for x in cur])):
            newer = z3.Or(newer, z3.And(eq, s > c))
            eq = z3.And(eq, s == c)
        got = lambda w: any(e.value[0] == w for e in P.events[n0:])
        return [('warns-exactly-about-newer-schemas', newer == z3.BoolVal(got('newer'))),
                ('notes-exactly-older-major-versions', (self.saved[0] < cur[0]) == z3.BoolVal(got('older')))]

    def cover(self, P, n0, out):
        return [(' '.join(sorted({e.value[0] for e in P.events[n0:]})) or 'silent', True)]


# ------------------------------------------------------- feature lists, written
DES = 'featuretools.feature_base.features_deserializer:FeaturesDeserializer.'
SER = 'featuretools.feature_base.features_serializer:FeaturesSerializer.'


class Definitions(Sym):
    """what the file says about every feature it defines"""
    def __init__(self, typ):
        self.typ = typ

    def getitem(self, P, name):
        deps = P.list_of(STR, P.fn('dependency names', Obj, Obj)(P.term(name)))
        return P.born(DictV([Piece((), True, kv) for kv in (('type', self.typ), ('dependencies', deps), ('arguments', RefV(None, P.fn('arguments of', Obj, Obj)(P.term(name)))))]))

    def attr(self, P, nm):
        raise Unsupported('definitions.' + nm)


def feature_named(P, n):
    return RefV(fb.FeatureBase, P.fn('feature of that name', Obj, Obj)(P.term(n)))


class ReadFeature(Contract):
    """a feature is read with its own arguments and with each of its dependencies under its name, and read once"""
    target = DES + '_deserialize_feature'
    typ, seen = 'TransformFeature', False

    def name(self):
        return '_deserialize_feature/' + ('read before' if self.seen else self.typ)

    def setup(self, P):
        nm = P.make(STR, 'name')
        self.first = P.make(Ref(fb.FeatureBase), 'read before')
        self.es = P.make(Ref(EntitySet), 'es')
        self.pd = P.born(ObjV(pu.PrimitivesDeserializer, {}))
        self.cache = P.born(DictV([Piece((), True, (nm, self.first))] if self.seen else []))
        d = P.born(ObjV(FeaturesDeserializer, {'features_dict': P.born(DictV([Piece((), True, ('feature_definitions', Definitions(self.typ)))])),
                                               '_deserialized_features': self.cache, 'entityset': self.es, '_primitives_deserializer': self.pd}))
        self.calls = []
        return [d, nm], {}, nm

    def contracts(self):
        def made(cls):
            def m(P, a, k):
                args, es, deps, pd = a[1:]
                r = P.make(Ref(cls), 'feature')
                P.event('from_dictionary', (cls, args, es, deps, pd, r))
                return r
            return m
        cs = {fnref(MOD + c.__name__ + '.from_dictionary'): made(c) for c in (fb.IdentityFeature,) + tuple(CLASSES[1:])}
        cs[fnref(self.target)] = lambda P, a, k: feature_named(P, a[1])
        return cs

    def body(self, P, fn, args, kwargs, ctx):
        P.events_before = len(P.events)
        return P.call(fn, args, kwargs)

    def post(self, P, nm, out):
        calls = [e.value[1] if len(e.value) == 2 else e.value[1:] for e in P.events[P.events_before:] if e.value[0] == 'from_dictionary']
        if out.kind == 'raise':
            return [('unknown-types-only', self.typ == 'Mystery' and out.value.cls is RuntimeError and not calls)]
        if self.seen:
            return [('the-one-read-before', P.term(out.value) == P.term(self.first)), ('not-read-again', not calls)]
        if len(calls) != 1:
            return [('read-once', False)]
        cls, args, es, deps, pd, r = calls[0]
        names = P.list_of(STR, P.fn('dependency names', Obj, Obj)(P.term(nm)))
        items = P._m_dict_items(deps)
        return [('as-its-own-type', cls.__name__ == self.typ), ('read-once', P.term(out.value) == P.term(r)),
                ('with-its-own-arguments', P.term(args) == P.fn('arguments of', Obj, Obj)(P.term(nm))),
                ('in-the-entityset', P.term(es) == P.term(self.es)), ('with-the-primitives', pd is self.pd),
                ('with-every-dependency-under-its-name', forall(P, names, lambda n: exists(P, items, lambda e: And(P.py_eq(e[0], n), P.term(e[1]) == feature_named(P, n).term)))),
                ('every-name-with-its-feature', forall(P, items, lambda e: P.term(e[1]) == feature_named(P, e[0]).term)),
                ('remembered', P.term(P.getitem(self.cache, nm)) == P.term(r))]


class ReadList(Contract):
    """the features read are the ones listed, in that order"""
    target = DES + 'to_list'

    def name(self):
        return 'FeaturesDeserializer.to_list'

    def setup(self, P):
        names = P.fresh_list(STR, 'names')
        d = P.born(ObjV(FeaturesDeserializer, {'features_dict': P.born(DictV([Piece((), True, ('feature_list', names))]))}))
        return [d], {}, names

    def contracts(self):
        return {fnref(DES + '_deserialize_feature'): lambda P, a, k: feature_named(P, a[1])}

    def post(self, P, names, out):
        if out.kind == 'raise':
            return [('does-not-raise', False)]
        i = z3.Int('i!l')
        got = P.quiet(lambda: P.at_of(out.value)(i))
        return [('one-feature-per-name', P.length(out.value) == P.length(names)),
                ('in-the-order-listed', ForAll([i], Implies(z3.And(i >= 0, i < P.length(names)), P.term(got) == feature_named(P, names.at(i)).term)))]


class FindClass(Contract):
    """the class found has the name and module looked for"""
    target = 'featuretools.primitives.utils:PrimitivesDeserializer._find_class_in_descendants'

    def name(self):
        return '_find_class_in_descendants'

    def setup(self, P):
        classes = P.fresh_list(CLS, 'classes')
        key = (P.make(STR, 'name'), P.make(STR, 'module'))
        cache = P.born(DictV([]))
        d = P.born(ObjV(pu.PrimitivesDeserializer, {'class_cache': cache, 'primitive_classes': classes}))
        return [d, key], {}, (classes, key)

    def post(self, P, ctx, out):
        classes, key = ctx
        if out.kind == 'raise':
            return [('does-not-raise', False)]
        is_it = lambda c: And(P.py_eq(P.getattr(c, '__name__'), key[0]), P.py_eq(P.getattr(c, '__module__'), key[1]))
        if out.value is None:
            return [('none-only-when-there-is-none', forall(P, classes, lambda c: Not(is_it(c))))]
        return [('of-that-name-and-module', is_it(out.value)), ('one-of-the-classes', P.contains(classes, out.value))]


class WriteList(Contract):
    """the file lists the features by their unique names, in order, with the entityset and every definition"""
    target = SER + 'to_dict'

    def name(self):
        return 'FeaturesSerializer.to_dict'

    def specs(self):
        return {EntitySet: {'to_dictionary': Meth([], ANY)}}

    def contracts(self):
        return {fnref(SER + '_feature_definitions'): lambda P, a, k: 'the definitions'}

    def setup(self, P):
        fs = P.fresh_list(F, 'features')
        P.assume(P.length(fs) >= 1)
        return [P.born(ObjV(FeaturesSerializer, {'feature_list': fs, '_features_dict': None}))], {}, fs

    def post(self, P, fs, out):
        if out.kind == 'raise':
            return [('does-not-raise', False)]
        d = out.value
        g = lambda k: P.getitem(d, k)
        import featuretools.feature_base.features_serializer as b
        i = z3.Int('i!l')
        l = g('feature_list')
        got = P.quiet(lambda: P.at_of(l)(i))
        es = P.getattr(fs.at(z3.IntVal(0)), 'entityset')
        return [('schema-version', g('schema_version') == b.SCHEMA_VERSION), ('the-definitions', g('feature_definitions') == 'the definitions'),
                ('the-entityset', P.term(g('entityset')) == P.term(P.call(P.getattr(es, 'to_dictionary'), [], {}))),
                ('one-name-per-feature', P.length(l) == P.length(fs)),
                ('in-order', ForAll([i], Implies(z3.And(i >= 0, i < P.length(fs)), P.py_eq(got, P.quiet(lambda: P.call(P.getattr(fs.at(i), 'unique_name'), [], {}))))))]


CONTRACTS = BACK + [RelationshipBack, Primitive, variant(Primitive, 'PrimitiveSeen', cached=True), Serialize] + \
    [variant(Schema, 'Schema_%s_%d' % (kd, k), kind=kd, k=k) for kd in ('features', 'entityset') for k in (1, 2, 3, 4)] + \
    [variant(ReadFeature, 'Read_' + c.__name__, typ=c.__name__) for c in (fb.IdentityFeature,) + tuple(CLASSES[1:])] + \
    [variant(ReadFeature, 'ReadUnknown', typ='Mystery'), variant(ReadFeature, 'ReadBefore', seen=True), ReadList, FindClass, WriteList]
