"""Selection functions: exactly the columns the rule describes, for matrices of any shape and content."""
from chelp import *
from aggmodel import *
from featuretools.feature_base import feature_base as fb
S = 'featuretools.selection.selection:'


class Mx(Sym):
    """a feature matrix: its column names in order; the statistics of a column are functions of its values"""
    pycls = pd.DataFrame

    def __init__(self, names, numeric=None):
        self.names, self.cells = names, ('the values',)

    def iter_pieces(self, I):
        return list(self.names.pieces)

    def contains(self, I, k):
        return I.contains(self.names, k)

    def stats(self, I, k):
        return ColV(I, k)

    def getitem(self, I, k):
        if isinstance(k, (Cols, ListV)):
            l = k.names if isinstance(k, Cols) else k
            I.oblige('only-columns-of-the-matrix-are-asked-for', forall(I, l, lambda x: I.contains(self.names, x)))
            return Mx(l)
        if isinstance(k, (str, StrV, RefV)):
            return ColV(I, k)
        raise Unsupported('matrix[%r]' % (k,))

    def per_column(self, I, f):
        """a series of one value per column"""
        ps = [Piece(p.vars, p.guard, (p.value, I.quiet(lambda: f(ColV(I, p.value))))) for p in self.names.pieces]
        return Stat(ps)

    def attr(self, I, name):
        if name == 'columns':
            return Cols(self.names)
        if name in ('isnull', 'isna'):
            return ModelV(name, lambda I, a, k: Nulls(self))
        if name == 'nunique':
            return ModelV(name, lambda I, a, k: self.per_column(I, lambda c: c.nunique(I, k.get('dropna', a[1] if len(a) > 1 else True))))
        if name == 'count':
            return ModelV(name, lambda I, a, k: self.per_column(I, lambda c: c.count))
        if name == 'select_dtypes':
            def sel(I, a, k):
                inc = k.get('include', a[0] if a else None)
                if not I.is_native(inc) or 'exclude' in k:
                    raise Unsupported('select_dtypes')
                want = {'int16', 'int32', 'int64', 'float16', 'float32', 'float64', 'bool'}
                if set(I.native(inc)) != want:
                    raise Unsupported('select_dtypes(%r)' % (inc,))
                num = I.fn('numeric_or_boolean', Obj, z3.BoolSort())
                l = I.fresh_list(STR, 'numeric columns')
                # the same columns in the same order, those of the dtypes asked for
                src = I.freshfn('place_of', z3.IntSort(), z3.IntSort())
                dst = I.freshfn('place_in', z3.IntSort(), z3.IntSort())
                i, j = z3.Ints('i!s j!s')
                at, big = l.at, self.names.at
                m, N = l.length, self.names.length
                inr = lambda x, y: z3.And(0 <= x, x < y)
                I.assume(z3.ForAll([i], z3.Implies(inr(i, m), z3.And(inr(src(i), N), I.term(at(i)) == I.term(big(src(i))), num(I.term(at(i)))))))
                I.assume(z3.ForAll([i, j], z3.Implies(z3.And(inr(i, m), inr(j, m), i < j), src(i) < src(j))))
                I.assume(z3.ForAll([i], z3.Implies(z3.And(inr(i, N), num(I.term(big(i)))), z3.And(inr(dst(i), m), src(dst(i)) == i))))
                I.numeric = num
                return Mx(l)
            return ModelV(name, sel)
        if name == 'shape':
            return (I.fn('rows of the matrix', z3.IntSort())(), I.length(self.names))
        raise Unsupported('matrix.%s' % name)

    def length(self, I):
        n = I.fn('rows of the matrix', z3.IntSort())()
        I.assume(n >= 0)
        return n


class Cols(Sym):
    def __init__(self, names):
        self.names = names

    def iter_pieces(self, I):
        return list(self.names.pieces)

    def contains(self, I, k):
        return I.contains(self.names, k)

    def length(self, I):
        return I.length(self.names)

    def getitem(self, I, k):
        return I.getitem(self.names, k)


class Nulls(Sym):
    def __init__(self, m):
        self.m = m

    def attr(self, I, name):
        if name == 'mean':
            return ModelV(name, lambda I, a, k: self.m.per_column(I, lambda c: c.nullfrac))
        if name == 'sum':
            return ModelV(name, lambda I, a, k: self.m.per_column(I, lambda c: c.n - c.count))
        raise Unsupported('isnull().%s' % name)


class Stat(Sym):
    def __init__(self, pieces):
        self.pieces = pieces

    def attr(self, I, name):
        if name in ('to_dict', 'items', 'iteritems'):
            d = I.born(DictV(self.pieces))
            return ModelV(name, lambda I, a, k: d if name == 'to_dict' else I.call(I.getattr(d, 'items'), [], {}))
        raise Unsupported('statistics.%s' % name)


class ColV(Sym):
    pycls = pd.Series

    def __init__(self, I, name):
        t = I.term(name)
        u = lambda nm, s: I.fn('column.' + nm, Obj, s)(t)
        self.t = t
        self.nn, self.count = u('distinct', z3.IntSort()), u('count', z3.IntSort())
        self.nullfrac = u('missing fraction', z3.RealSort())
        self.n = I.fn('rows of the matrix', z3.IntSort())()

    def nunique(self, I, dropna):
        """distinct values, a missing one counted too unless dropna"""
        both = z3.If(self.count < self.n, self.nn + 1, self.nn)
        if isinstance(dropna, bool):
            return self.nn if dropna else both
        return z3.If(B(dropna), self.nn, both)

    def attr(self, I, name):
        if name == 'nunique':
            return ModelV(name, lambda I, a, k: self.nunique(I, k.get('dropna', a[0] if a else True)))
        if name == 'dropna':
            d = lambda I, a, k: Dropped(self)
            return ModelV(name, d)
        if name == 'count':
            return ModelV(name, lambda I, a, k: self.count)
        if name == 'corr':
            def corr(I, a, k):
                if not isinstance(a[0], ColV) or len(a) > 1 or k.get('method', 'pearson') != 'pearson':
                    raise Unsupported('corr')
                return corr_of(I, self.t, a[0].t)
            return ModelV(name, corr)
        raise Unsupported('column.%s' % name)


class Dropped(Sym):
    def __init__(self, c):
        self.c = c

    def length(self, I):
        return self.c.count

    def attr(self, I, name):
        if name == 'shape':
            return (self.c.count,)
        if name == 'empty':
            return self.c.count == 0
        if name in ('size',):
            return self.c.count
        if name == 'nunique':
            return ModelV(name, lambda I, a, k: self.c.nn)
        raise Unsupported('dropna().%s' % name)


class Corr(Sym):
    """a number, or missing"""
    pycls = float

    def __init__(self, v, null):
        self.v, self.null = v, null

    def elementwise(self, I, op):
        return Corr(z3.If(self.v < 0, -self.v, self.v), self.null)

    def compare(self, I, op, y, refl):
        if op not in ('Lt', 'LtE', 'Gt', 'GtE') or isinstance(y, Corr):
            return NotImplemented
        b = as_num(I, y)[0]
        if refl:
            op = {'Lt': 'Gt', 'Gt': 'Lt', 'LtE': 'GtE', 'GtE': 'LtE'}[op]
        f = {'Lt': self.v < b, 'LtE': self.v <= b, 'Gt': self.v > b, 'GtE': self.v >= b}[op]
        return z3.And(z3.Not(self.null), f)


def corr_of(I, a, b):
    f, n = I.fn('correlation', Obj, Obj, z3.RealSort()), I.fn('correlation?', Obj, Obj, z3.BoolSort())
    x, y = z3.Consts('x!c y!c', Obj)
    I.axiom_once('correlation is symmetric', z3.ForAll([x, y], z3.And(f(x, y) == f(y, x), n(x, y) == n(y, x))))
    return Corr(f(a, b), n(a, b))


for _c in (Mx, Cols, Nulls, Stat, ColV, Dropped):
    ATTR[_c] = lambda I, v, name: v.attr(I, name)
APPLY = S + '_apply_feature_selection'


def the_matrix(P):
    names = P.fresh_list(STR, 'columns')
    i, j = z3.Ints('i!m j!m')
    n = P.length(names)
    # column names are distinct
    P.assume(z3.ForAll([i, j], z3.Implies(z3.And(0 <= i, i < n, 0 <= j, j < n, P.term(names.at(i)) == P.term(names.at(j))), i == j)))
    rows = P.fn('rows of the matrix', z3.IntSort())()
    x = z3.Const('x!m', Obj)
    cnt, nn, fr = P.fn('column.count', Obj, z3.IntSort()), P.fn('column.distinct', Obj, z3.IntSort()), P.fn('column.missing fraction', Obj, z3.RealSort())
    P.assume(rows >= 0)
    P.assume(z3.ForAll([x], z3.And(0 <= nn(x), nn(x) <= cnt(x), cnt(x) <= rows, (nn(x) == 0) == (cnt(x) == 0))))
    return Mx(names)


class Select(Contract):
    """the names handed to _apply_feature_selection, whose contract is proved below"""
    doc = ''

    def contracts(self):
        f = fnref(APPLY)

        def m(P, a, k):
            ba = inspect.signature(f).bind(*a, **k)
            ba.apply_defaults()
            self.kept = ba.arguments
            P.oblige('selects-from-the-matrix-given', z3.BoolVal(ba.arguments['feature_matrix'] is self.fm))
            P.oblige('hands-the-features-on', z3.BoolVal(ba.arguments['features'] is self.features))
            return 'selected'
        return {f: m} if f else {}

    def setup(self, P):
        self.kept = None
        self.fm = the_matrix(P)
        self.features = P.make(Lst(Ref(fb.FeatureBase)), 'features')
        kw = self.more(P)
        self.kw = kw
        return [self.fm], dict(kw, features=self.features), kw

    def more(self, P):
        return {}

    def bad(self, P, kw):
        return False

    def post(self, P, kw, out):
        if out.kind == 'raise':
            return [('refuses-only-impossible-thresholds', And(self.bad(P, kw), z3.BoolVal(out.value.cls is ValueError)))]
        if self.kept is None or out.value != 'selected':
            return [('selection-is-applied', False)]
        keep, names = self.kept['keep'], self.fm.names
        fs = [('impossible-thresholds-refused', Not(self.bad(P, kw))),
              ('keeps-exactly-the-columns-of-the-rule', same_members(P, keep, names, lambda x: self.rule(P, x, kw)))]
        if isinstance(keep, ListV) and all(len(p.vars) == 1 and z3.is_int(p.vars[0]) for p in keep.pieces):
            # the comprehension goes once over the columns: element i of it is column i
            fs.append(('in-the-order-of-the-matrix', And(*[ForAll(p.vars, Implies(p.guard, P.term(p.value) == P.term(names.at(p.vars[0])))) for p in keep.pieces])))
        else:
            P.mark_approx('order of the kept columns')
            fs.append(('in-the-order-of-the-matrix', False))
        return fs

    def cover(self, P, kw, out):
        if out.kind == 'raise' or self.kept is None:
            return []
        return [('a column kept', P.nonempty(self.kept['keep'])), ('a column removed', exists(P, self.fm.names, lambda x: Not(self.rule(P, x, kw))))]


class LowInformation(Select):
    target = S + 'remove_low_information_features'

    def rule(self, P, x, kw):
        c = ColV(P, x)
        return And(c.nunique(P, False) >= 2, c.count > 0)


class HighlyNull(Select):
    target = S + 'remove_highly_null_features'

    def more(self, P):
        return {'pct_null_threshold': P.make(REAL, 'threshold')}

    def bad(self, P, kw):
        return Or(kw['pct_null_threshold'] < 0, kw['pct_null_threshold'] > 1)

    def rule(self, P, x, kw):
        t = kw['pct_null_threshold']
        f = ColV(P, x).nullfrac
        return Or(f < t, And(t == 0, f == 0))

    def setup(self, P):
        r = Select.setup(self, P)
        x = z3.Const('x!f', Obj)
        f = P.fn('column.missing fraction', Obj, z3.RealSort())(x)
        P.assume(z3.ForAll([x], z3.And(0 <= f, f <= 1)))
        return r


class SingleValue(Select):
    target = S + 'remove_single_value_features'

    def more(self, P):
        return {'count_nan_as_value': P.make(BOOL, 'count_nan')}

    def rule(self, P, x, kw):
        c = ColV(P, x)
        return z3.If(B(kw['count_nan_as_value']), c.nunique(P, False), c.nn) >= 2


class Correlated(Select):
    target = S + 'remove_highly_correlated_features'
    timeout = 12000

    def more(self, P):
        return {'pct_corr_threshold': P.make(REAL, 'threshold'), 'features_to_check': P.make(Opt(Lst(STR)), 'to_check'),
                'features_to_keep': P.make(Opt(Lst(STR)), 'to_keep')}

    def setup(self, P):
        r = Select.setup(self, P)
        c = self.kw['features_to_check']
        if c is not None:
            i, j = z3.Ints('i!k j!k')
            n = P.length(c)
            P.assume(z3.ForAll([i, j], z3.Implies(z3.And(0 <= i, i < n, 0 <= j, j < n, P.term(c.at(i)) == P.term(c.at(j))), i == j)))
        P.numeric = P.fn('numeric_or_boolean', Obj, z3.BoolSort())
        return r

    def bad(self, P, kw):
        t, c = kw['pct_corr_threshold'], kw['features_to_check']
        return Or(t < 0, t > 1)

    def post(self, P, kw, out):
        c = kw['features_to_check']
        if out.kind == 'raise' and out.value.cls is AssertionError:
            return [('refuses-only-columns-the-matrix-does-not-have', c is not None and exists(P, c, lambda x: Not(P.contains(self.fm.names, x))))]
        return Select.post(self, P, kw, out)

    def rule(self, P, x, kw):
        """kept: asked for, or not checked, or no checked column further left is as correlated"""
        c = kw['features_to_check']
        src = self.fm.names if c is None else c
        t = P.term(x)
        i, j = z3.Int('i!r%d' % P.tag()), z3.Int('j!r%d' % P.tag())
        n = P.length(src)
        at = lambda q: P.term(src.at(q))
        k = corr_of(P, t, at(j))
        left = z3.Exists([i, j], z3.And(0 <= j, j < i, i < n, at(i) == t, P.numeric(t), P.numeric(at(j)), z3.Not(k.null),
                                        z3.If(k.v < 0, -k.v, k.v) >= kw['pct_corr_threshold']))
        asked = kw['features_to_keep'] is not None and P.contains(kw['features_to_keep'], x)
        return Or(asked, z3.Not(left))


class Apply(Contract):
    target = APPLY

    def specs(self):
        return {fb.FeatureBase: {'__getitem__': Meth([INT], Ref(fb.FeatureOutputSlice))}}

    def setup(self, P):
        self.fm = the_matrix(P)
        # any collection of column names
        kept = P.fn('kept column', Obj, z3.BoolSort())
        x = z3.Const('name!k', Obj)
        self.keep = P.born(ListV([Piece((x,), kept(x), RefV(str, x))]))
        self.kept = lambda nm: kept(P.term(nm))
        P.assume(B(forall(P, self.keep, lambda x: P.contains(self.fm.names, x))))
        self.features = P.make(Opt(Lst(Ref(fb.FeatureBase))), 'features')
        return [self.keep, self.fm, self.features], {}, None

    def post(self, P, ctx, out):
        if out.kind == 'raise':
            return [('does-not-raise', False)]
        v = out.value
        if self.features is None:
            return [('the-columns-kept-and-nothing-else', z3.BoolVal(isinstance(v, Mx) and v.names is self.keep))]
        m, fs = v
        name = lambda f: P.call(P.getattr(f, 'get_name'), [], {})
        kept = lambda f: self.kept(P.quiet(lambda: name(f)))
        multi = lambda f: P.quiet(lambda: P.getattr(f, 'number_output_features'))
        part = lambda f, i: P.quiet(lambda: P.call(P.getattr(f, '__getitem__'), [i], {}))

        def parts(f, q):
            i = z3.Int('i!p%d' % P.tag())
            return q(i, z3.And(0 <= i, i < multi(f)), B(kept(part(f, i))))
        whole = lambda f: z3.If(multi(f) > 1, parts(f, lambda i, g, k: z3.ForAll([i], z3.Implies(g, k))), B(kept(f)))
        fe = self.features
        i, a = z3.Ints('i!g a!g')
        n = P.length(fe)
        inr = z3.And(0 <= a, a < n)
        F = fe.at(a)
        return [('the-columns-kept-and-nothing-else', z3.BoolVal(isinstance(m, Mx) and m.names is self.keep)),
                ('nothing-else', forall(P, fs, lambda x: z3.Exists([a], z3.And(inr, z3.Or(z3.And(P.term(x) == P.term(F), B(whole(F))),
                                                                                          z3.And(multi(F) > 1, z3.Not(B(whole(F))), z3.Exists([i], z3.And(0 <= i, i < multi(F), P.term(x) == P.term(part(F, i)), B(kept(part(F, i)))))))))))]

    def cover(self, P, ctx, out):
        return [('features' if self.features is not None else 'no features', True)]



class ApplyOne(Apply):
    """two arbitrary features: nothing kept is left out"""

    def name(self):
        return '_apply_feature_selection[two features]'

    def setup(self, P):
        super().setup(P)
        self.features = [P.make(Ref(fb.FeatureBase), 'F'), P.make(Ref(fb.FeatureBase), 'G')]
        return [self.keep, self.fm, self.features], {}, None

    def post(self, P, ctx, out):
        if out.kind == 'raise':
            return [('does-not-raise', False)]
        m, fs = out.value
        kept = lambda f: B(self.kept(P.quiet(lambda: P.call(P.getattr(f, 'get_name'), [], {}))))
        got = lambda x: B(P.contains(fs, x))
        i, j = z3.Ints('i!p j!p')
        claims = []
        for nm, F in zip(('first', 'second'), self.features):
            n = P.quiet(lambda: P.getattr(F, 'number_output_features'))
            part = lambda i: P.quiet(lambda: P.call(P.getattr(F, '__getitem__'), [i], {}))
            inr = z3.And(0 <= i, i < n)
            whole = z3.If(n > 1, z3.ForAll([i], z3.Implies(inr, kept(part(i)))), kept(F))
            claims += [('a-feature-whose-columns-are-all-kept-is-kept:' + nm, z3.Implies(whole, got(F))),
                       ('every-kept-output-of-any-other:' + nm, z3.ForAll([i], z3.Implies(z3.And(z3.Not(whole), n > 1, inr, kept(part(i))), got(part(i)))))]
        return claims

    def cover(self, P, ctx, out):
        return [('two', True)]


CONTRACTS = [LowInformation, HighlyNull, SingleValue, Correlated, Apply, ApplyOne]
