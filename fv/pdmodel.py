"""Assumed contracts of pandas/numpy: a frame is a set of rows with one cell per (column, row).

Series and frames carry their rows as a predicate; operations act row by row, so a
mask, a filter or an element-wise expression has its meaning for every row of a
frame of any size.  Values are numbers, booleans or cells (opaque values with a
numeric reading, used for times, and a missing flag)."""
from models import *      # noqa
import numpy as np
import pandas as pd


class Loc(Sym):
    def __init__(self, f, kind='loc'):
        self.f, self.kind = f, kind

    def getitem(self, I, k):
        if self.kind == 'loc' and isinstance(self.f, FrameV):
            if isinstance(k, tuple) and len(k) == 2:
                rows = self.f.filter(I, k[0])
                return rows.getitem(I, k[1])
            return self.f.filter(I, k)
        if isinstance(self.f, SerV) and isinstance(k, SerV):
            return self.f.filter(I, k)
        raise Unsupported('.%s[%r]' % (self.kind, k))

    def setitem(self, I, k, v):
        f = self.f
        if self.kind == 'loc' and isinstance(f, FrameV) and isinstance(k, tuple) and len(k) == 2:
            m, cols = k
            f.same_rows(I, m)
            val = scalar_cell(I, v)
            old = f.attrs['col']
            mv, mn = m.val, m.null
            if isinstance(cols, (ListV, SetV)):
                incol = lambda key: I.contains(cols, key)
            else:
                incol = lambda key: I.py_eq(cols, key)
            I.set_attr(f, 'col', lambda key, r: z3.If(z3.And(B(mv(r)), B(I.quiet(lambda: incol(key)))), val, old(key, r)))
            I.used_models.add('DataFrame.loc assignment')
            return
        raise Unsupported('.%s assignment' % self.kind)


def num_of(I, c):
    return I.fn('num_of', Obj, z3.RealSort())(c)


def null_of(I, c):
    return I.fn('is_missing', Obj, z3.BoolSort())(c)


def nan_cell(I):
    c = z3.Const('NaN_cell', Obj)
    I.axiom_once('NaN_cell', null_of(I, c))
    return c


def missing(x):
    return x is None or (isinstance(x, float) and x != x) or x is pd.NaT


def scalar_cell(I, x):
    if missing(x):
        return nan_cell(I)
    return I.term(x)


def as_num(I, x):
    """(value, missing) of a scalar"""
    if missing(x):
        return z3.RealVal(0), True
    if isinstance(x, bool) or z3.is_bool(x):
        return z3.If(B(x), z3.RealVal(1), z3.RealVal(0)), False
    if isinstance(x, (int, float)):
        return real(float(x)) if isinstance(x, float) else z3.RealVal(x), False
    if z3.is_int(x):
        return z3.ToReal(x), False
    if z3.is_real(x):
        return x, False
    if isinstance(x, RefV):
        return num_of(I, x.term), null_of(I, x.term)
    raise Unsupported('number of %r' % (x,))


class SerV(Sym):
    """rows: r -> Bool; val: r -> z3 value; null: r -> Bool; kind: num | bool | cell"""
    pycls = pd.Series
    ident = None        # names the series as a whole
    elemf = None        # what an element is (cells)
    order = None        # the series whose rows, in the same order, these are

    def __init__(self, rows, val, null=None, kind='num', label=None, idx=None):
        self.rows, self.val, self.kind = rows, val, kind
        self.null = null or (lambda r: False)
        self.label, self.idx = label, idx

    def like(self, val, null=None, kind=None):
        s = SerV(self.rows, val, null or (lambda r: False), kind or self.kind, self.label, self.idx)
        s.order, s.elemf = self.order, self.elemf
        return s

    def num(self, I, r):
        v = self.val(r)
        if self.kind == 'cell':
            return num_of(I, v)
        if z3.is_bool(v) or isinstance(v, bool):
            return z3.If(B(v), z3.RealVal(1), z3.RealVal(0))
        if isinstance(v, (int, float)):
            return as_num(I, v)[0]
        return z3.ToReal(v) if z3.is_int(v) else v

    def aligned(self, I, o):
        if o.rows is self.rows or (o.idx is not None and o.idx is self.idx):
            return
        r = z3.Const('row!%d' % I.tag(), Obj)
        if not I.entailed(ForAll([r], Iff(B(self.rows(r)), B(o.rows(r))))):
            raise Unsupported('series over different rows')

    def operand(self, I, y):
        """(r -> number, r -> missing) of the other operand"""
        if isinstance(y, SerV):
            self.aligned(I, y)
            return (lambda r: y.num(I, r)), y.null
        if isinstance(y, ArangeV):
            if self.order is None or not I.entailed(y.stop - y.start == self.length(I)):
                raise Unsupported('array of another length')
            return (lambda r: z3.ToReal(self.pos(I, r) + y.start)), (lambda r: False)
        v, n = as_num(I, y)
        return (lambda r: v), (lambda r: n)

    def compare(self, I, op, y, refl):
        if op not in ('Eq', 'NotEq', 'Lt', 'LtE', 'Gt', 'GtE'):
            return NotImplemented
        I.used_models.add('Series comparison')
        if refl:
            op = {'Lt': 'Gt', 'Gt': 'Lt', 'LtE': 'GtE', 'GtE': 'LtE'}.get(op, op)
        if op in ('Eq', 'NotEq') and (self.kind == 'cell') and (not isinstance(y, SerV) or y.kind == 'cell'):
            if isinstance(y, SerV):
                self.aligned(I, y)
                b, bn = y.val, y.null
            else:
                t = scalar_cell(I, y)
                b, bn = (lambda r: t), (lambda r: missing(y))
            eq = lambda r: And(Not(self.null(r)), Not(bn(r)), self.val(r) == b(r))
            return self.like((lambda r: B(eq(r))) if op == 'Eq' else (lambda r: z3.Not(B(eq(r)))), None, 'bool')
        b, bn = self.operand(I, y)
        f = {'Eq': lambda x, z: x == z, 'NotEq': lambda x, z: x == z, 'Lt': lambda x, z: x < z, 'LtE': lambda x, z: x <= z,
             'Gt': lambda x, z: x > z, 'GtE': lambda x, z: x >= z}[op]
        h = lambda r: B(And(Not(self.null(r)), Not(bn(r)), f(self.num(I, r), b(r))))
        return self.like((lambda r: z3.Not(h(r))) if op == 'NotEq' else h, None, 'bool')

    def py_eq(self, I, y):
        raise Unsupported('truth of a series comparison')

    def binop(self, I, op, y, refl):
        I.used_models.add('Series arithmetic')
        if op in ('BitAnd', 'BitOr'):
            if isinstance(y, SerV):
                self.aligned(I, y)
                if self.kind != 'bool' or y.kind != 'bool':
                    raise Unsupported('bit operation on numbers')
                f = And if op == 'BitAnd' else Or
                return self.like(lambda r: B(f(self.val(r), y.val(r))), None, 'bool')
            if is_bool(y):
                f = And if op == 'BitAnd' else Or
                return self.like(lambda r: B(f(self.val(r), y)), None, 'bool')
            return NotImplemented
        if self.kind == 'cell' or (isinstance(y, SerV) and y.kind == 'cell') or (isinstance(y, RefV) and y.cls == 'any'):
            if op not in ('Add', 'Sub'):
                return NotImplemented
            # differences and shifts of times: numbers
        b, bn = self.operand(I, y)
        a, an = (lambda r: self.num(I, r)), self.null
        if refl:
            (a, an), (b, bn) = (b, bn), (a, an)
        f = ARITH(I).get(op)
        if f is None:
            return NotImplemented
        extra = (lambda r: False)
        if op in ('Div', 'Mod'):
            # division by zero gives inf/NaN: kept as an uninterpreted number
            pass
        kind = 'dur' if op == 'Sub' and self.kind == 'cell' else 'num'      # a span between two times
        return self.like(lambda r: f(a(r), b(r)), lambda r: Or(an(r), bn(r)), kind)

    def unop(self, I, n):
        if n == 'Invert' and self.kind == 'bool':
            return self.like(lambda r: B(Not(self.val(r))), None, 'bool')
        if n == 'USub':
            return self.like(lambda r: -self.num(I, r), self.null, 'num')
        raise Unsupported('unary %s on series' % n)

    def filter(self, I, m):
        self.aligned(I, m)
        rows = self.rows
        return SerV(lambda r: B(And(rows(r), m.val(r))), self.val, self.null, self.kind, self.label)

    def getitem(self, I, k):
        if isinstance(k, SerV):
            return self.filter(I, k)
        raise Unsupported('series[%r]' % (k,))

    def length(self, I):
        if self.order is None:
            raise Unsupported('length of a computed series')
        n = I.fn('series.len', Obj, z3.IntSort())(self.order)
        I.assume(n >= 0)
        return n

    def pos(self, I, r):
        return I.fn('series.pos', Obj, Obj, z3.IntSort())(self.order, r)

    def truth(self, I):
        raise Unsupported('truth of a series')

    def subst(self, pairs):
        s = lambda v: v if isinstance(v, bool) else z3.substitute(v, *pairs)
        return SerV(lambda r: s(self.rows(r)), lambda r: s(self.val(r)), lambda r: s(self.null(r)), self.kind, self.label)

    def get(self, I, name):
        I.used_models.add('Series.' + name)
        if name in ('isnull', 'isna'):
            return lambda I, a, k: self.like(lambda r: B(self.null(r)), None, 'bool')
        if name in ('notnull', 'notna'):
            return lambda I, a, k: self.like(lambda r: B(Not(self.null(r))), None, 'bool')
        if name == 'isin':
            def isin(I, a, k):
                c = a[0]
                if isinstance(c, SerV):
                    x = z3.Const('row!%d' % I.tag(), Obj)
                    g = lambda r: z3.Exists([x], B(And(c.rows(x), Not(c.null(x)), c.val(x) == self.val(r))))
                    y = z3.Const('row!%d' % I.tag(), Obj)
                    anynull = z3.Exists([y], B(And(c.rows(y), c.null(y))))
                    return self.like(lambda r: B(z3.If(B(self.null(r)), anynull, g(r))), None, 'bool')
                if isinstance(c, (ListV, SetV, tuple, list)):
                    def has(r):
                        v = self.val(r)
                        v = RefV('any', v) if self.kind == 'cell' else v
                        return I.quiet(lambda: B(I.contains(c, v)))
                    return self.like(lambda r: B(And(Not(self.null(r)), has(r))), None, 'bool')
                raise Unsupported('isin')
            return isin
        if name in ('eq', 'ne', 'lt', 'le', 'gt', 'ge'):
            op = {'eq': 'Eq', 'ne': 'NotEq', 'lt': 'Lt', 'le': 'LtE', 'gt': 'Gt', 'ge': 'GtE'}[name]
            return lambda I, a, k: I.compare(op, self, a[0])
        if name in ('add', 'sub', 'mul', 'div', 'truediv', 'mod', 'radd', 'rsub', 'rmul', 'rdiv', 'rtruediv', 'rmod'):
            refl = name.startswith('r') and name != 'r'
            op = {'add': 'Add', 'sub': 'Sub', 'mul': 'Mult', 'div': 'Div', 'truediv': 'Div', 'mod': 'Mod'}[name[1:] if refl else name]
            return lambda I, a, k: I.binop(op, a[0], self) if refl else I.binop(op, self, a[0])
        if name == 'fillna':
            def fillna(I, a, k):
                v = scalar_cell(I, a[0]) if self.kind == 'cell' else as_num(I, a[0])[0]
                return self.like(lambda r: z3.If(B(self.null(r)), v, self.val(r)), lambda r: False)
            return fillna
        if name in ('copy', 'rename', 'infer_objects', 'convert_dtypes'):
            return lambda I, a, k: self.like(self.val, self.null)
        if name == 'abs':
            return lambda I, a, k: np_abs(I, [self], {})
        if name == 'dropna':
            return lambda I, a, k: SerV(lambda r: B(And(self.rows(r), Not(self.null(r)))), self.val, lambda r: False, self.kind, self.label)
        if name == 'drop_duplicates':
            return lambda I, a, k: Distinct(self)
        if name == 'astype':
            def astype(I, a, k):
                if isinstance(a[0], CatDtype) and len(a) == 1 and not k:
                    # values among the categories are kept, the others become missing
                    c = a[0].s
                    x = z3.Const('row!%d' % I.tag(), Obj)
                    among = lambda r: z3.Exists([x], B(And(c.rows(x), Not(c.null(x)), c.val(x) == self.val(r))))
                    return SerV(self.rows, lambda r: z3.If(among(r), self.val(r), nan_cell(I)),
                                lambda r: Or(self.null(r), z3.Not(among(r))), self.kind, self.label)
                raise Unsupported('Series.astype')
            return astype
        if name in ('map', 'apply'):
            def app(I, a, k):
                def at(r):
                    v = self.val(r)
                    return I.quiet(lambda: I.call(a[0], [self.elem(v)], {}))
                x = z3.Const('row!%d' % I.tag(), Obj)
                w = at(x)
                kind = 'bool' if is_bool(w) else 'num' if is_num(w) else 'cell'
                g = lambda r: at(r) if kind != 'cell' else I.term(at(r))
                null = self.null if self.kind in ('num', 'dur') else (lambda r: null_of(I, g(r))) if kind == 'cell' else None
                return self.like(g, null, kind)
            return app
        if name == 'any':
            def any_(I, a, k):
                x = z3.Const('row!%d' % I.tag(), Obj)
                return z3.Exists([x], z3.And(B(self.rows(x)), B(self.val(x))))
            return any_
        if name == 'all':
            def all_(I, a, k):
                x = z3.Const('row!%d' % I.tag(), Obj)
                return z3.ForAll([x], z3.Implies(B(self.rows(x)), B(self.val(x))))
            return all_
        if name == 'reindex':
            def reindex(I, a, k):
                ix = a[0]
                if not isinstance(ix, IndexV) or self.label is None:
                    raise Unsupported('reindex')
                # the value the label of the row has here, missing when it is absent (labels are unique here)
                has = I.freshfn('labelled', Obj, z3.BoolSort())
                at = I.freshfn('row_of', Obj, Obj)
                x, lab = z3.Consts('row!%d lab!%d' % (I.tag(), I.tag()), Obj)
                I.assume(z3.ForAll([lab], has(lab) == z3.Exists([x], z3.And(B(self.rows(x)), self.label(x) == lab))))
                I.assume(z3.ForAll([x], z3.Implies(B(self.rows(x)), at(self.label(x)) == x)))
                val, null = self.val, self.null
                return SerV(ix.f.rows, lambda r: val(at(ix.label(r))),
                            lambda r: Or(z3.Not(has(ix.label(r))), null(at(ix.label(r)))), self.kind, ix.label)
            return reindex
        if name in ('cumsum', 'cummin', 'cummax', 'diff', 'rank'):
            # documented functions of the whole series, named by it, their arguments and the row
            return lambda I, a, k: self.ordered(I, name, a, k)
        raise Unsupported('Series.%s' % name)

    def ordered(self, I, name, a, k):
        if self.ident is None:
            raise Unsupported('Series.%s of a computed series' % name)
        args = {'diff': {'periods': 1}, 'rank': {'method': 'average', 'na_option': 'keep', 'ascending': True, 'pct': False}}.get(name, {'skipna': True})
        if set(k) - set(args) or len(a) > 1 or (a and name != 'diff'):
            raise Unsupported('Series.%s arguments' % name)
        args.update(k)
        if a:
            args['periods'] = a[0]
        key = 'series.%s %s' % (name, sorted(args.items()))
        f, g = I.fn(key, Obj, Obj, z3.RealSort()), I.fn(key + '?', Obj, Obj, z3.BoolSort())
        t = self.ident
        return self.like(lambda r: f(t, r), lambda r: g(t, r), 'dur' if name == 'diff' and self.kind == 'cell' else 'num')

    def elem(self, v):
        if self.elemf is not None:
            return self.elemf(v)
        return RefV('any', v) if self.kind == 'cell' else DurV(v) if self.kind == 'dur' else v

    def attr(self, I, name):
        if name == 'hasnans':
            x = z3.Const('row!%d' % I.tag(), Obj)
            return z3.Exists([x], z3.And(B(self.rows(x)), B(self.null(x))))
        if name == 'empty':
            x = z3.Const('row!%d' % I.tag(), Obj)
            return z3.Not(z3.Exists([x], B(self.rows(x))))
        if name == 'index':
            return IndexV(self)
        if name in ('loc', 'iloc'):
            return Loc(self, name)
        if name in ('dt', 'str', 'cat'):
            return Accessor(self, name)
        if name == 'values':
            return self
        if name == 'dtype':
            return I.from_term(ANY, I.fn('dtype_of', z3.IntSort(), Obj)(z3.IntVal(id(self.rows) % 10 ** 9)))
        return ModelV('Series.' + name, self.get(I, name))


class DurV(Sym):
    """a span of time, measured in seconds"""
    pycls = pd.Timedelta

    def __init__(self, secs):
        self.secs = secs

    def attr(self, I, name):
        if name == 'total_seconds':
            return ModelV(name, lambda I, a, k: self.secs)
        if name == 'days':
            return z3.ToInt(self.secs / 86400)
        raise Unsupported('Timedelta.%s' % name)


class PairV(Sym):
    """a pair of numbers kept in a cell (missing places: a pair of missing numbers)"""
    pycls = tuple

    def __init__(self, cell):
        self.cell = cell

    def getitem(self, I, i):
        if i not in (0, 1):
            raise Unsupported('item of a pair')
        c = z3.Const('NaN_cell', Obj)
        f = I.fn('pair%d' % i, Obj, Obj)
        t = I.term((float('nan'), float('nan')))
        I.axiom_once('pair of nan %d' % i, f(t) == c)
        return RefV('any', f(self.cell))


class ArangeV(Sym):
    pycls = np.ndarray

    def __init__(self, start, stop):
        self.start, self.stop = start, stop

    def length(self, I):
        return self.stop - self.start

    def binop(self, I, op, y, refl):
        if is_num(y) and op in ('Add', 'Sub') and not (refl and op == 'Sub') and not isinstance(y, float) and not z3.is_real(y):
            d = y if op == 'Add' else -y
            return ArangeV(self.start + d, self.stop + d)
        return NotImplemented


def np_arange(I, a, k):
    if k or len(a) > 2:
        raise Unsupported('np.arange')
    lo, hi = (0, a[0]) if len(a) == 1 else a
    return ArangeV(lo, hi)


class Distinct(SerV):
    """drop_duplicates: the same values, each once"""
    def __init__(self, s):
        SerV.__init__(self, s.rows, s.val, s.null, s.kind, s.label)


class CatDtype(Sym):
    """categorical dtype whose categories are those of a given series"""
    pycls = pd.CategoricalDtype

    def __init__(self, s):
        self.s = s

    def iter_pieces(self, I):
        x = z3.Const('category!%d' % I.tag(), Obj)
        c = self.s
        r = z3.Const('row!%d' % I.tag(), Obj)
        return [Piece((x,), z3.Exists([r], B(And(c.rows(r), Not(c.null(r)), c.val(r) == x if c.kind == 'cell' else I.freshfn('is_category', Obj, z3.BoolSort())(x)))), RefV('any', x))]


class Accessor(Sym):
    def __init__(self, s, kind):
        self.s, self.kind = s, kind

    NUMERIC = ('year', 'month', 'day', 'hour', 'minute', 'second', 'weekday', 'dayofweek', 'week', 'weekofyear', 'days', 'total_seconds', 'len', 'count')

    def apply(self, I, name, args=()):
        I.used_models.add('Series.%s.%s' % (self.kind, name))
        if name not in self.NUMERIC:
            raise Unsupported('Series.%s.%s' % (self.kind, name))
        s = self.s
        if s.kind in ('num', 'dur') and self.kind == 'dt':        # durations are measured in seconds
            if name == 'total_seconds':
                return s.like(s.val, s.null, 'num')
            if name == 'days':
                return s.like(lambda r: z3.ToReal(z3.ToInt(s.num(I, r) / 86400)), s.null, 'num')
            raise Unsupported('Series.dt.%s of a span' % name)
        args = [I.term(x) for x in args]
        srt = Obj if s.kind == 'cell' else z3.RealSort()
        f = I.fn('%s.%s' % (self.kind, {'dayofweek': 'weekday', 'weekofyear': 'week'}.get(name, name)), srt, *([Obj] * len(args) + [z3.RealSort()]))
        return s.like(lambda r: f(s.val(r) if s.kind == 'cell' else s.num(I, r), *args), s.null, 'num')

    def attr(self, I, name):
        if self.kind == 'cat':
            if name == 'categories':
                return CatDtype(self.s)
            if name in ('add_categories', 'set_categories', 'remove_unused_categories'):
                if name == 'set_categories':
                    raise Unsupported('Series.cat.set_categories')
                return ModelV(name, lambda I, a, k: self.s.like(self.s.val, self.s.null))
            raise Unsupported('Series.cat.%s' % name)
        if name in ('total_seconds', 'len', 'count'):
            return ModelV(name, lambda I, a, k: self.apply(I, name, a))
        return self.apply(I, name)


class IndexV(Sym):
    def __init__(self, f):
        self.f = f
        self.label = f.label

    @property
    def rows(self):
        return self.f.rows

    def attr(self, I, name):
        raise Unsupported('index.%s' % name)

    def set_attr(self, I, name, v):
        if name != 'name':
            raise Unsupported('index.%s assignment' % name)


class FrameV(Sym):
    """attrs: rows (r -> Bool), col ((column, r) -> cell), cols (column -> Bool), label (r -> cell)"""
    pycls = pd.DataFrame

    def __init__(self, rows, col, cols=None, label=None, name=None):
        self.attrs = {'rows': rows, 'col': col, 'cols': cols or (lambda k: True), 'label': label}
        self.name, self.term_ = name, None
        self.born = 0

    rows = property(lambda self: self.attrs['rows'])
    label = property(lambda self: self.attrs['label'])

    def clone(self, I, **kw):
        a = dict(self.attrs)
        a.update(kw)
        return I.born(FrameV(a['rows'], a['col'], a['cols'], a['label']))

    def cell(self, I, key, r):
        return self.attrs['col'](key, r)

    def series(self, I, key):
        col = self.attrs['col']
        # the column as it is now: later writes to the frame do not change the series
        return SerV(self.rows, lambda r: col(key, r), lambda r: null_of(I, col(key, r)), 'cell', self.label)

    def same_rows(self, I, m):
        if not isinstance(m, SerV) or m.kind != 'bool':
            raise Unsupported('rows selected by %r' % (m,))
        if m.rows is self.rows:
            return
        r = z3.Const('row!%d' % I.tag(), Obj)
        if not I.entailed(ForAll([r], Iff(B(self.rows(r)), B(m.rows(r))))):
            raise Unsupported('mask over other rows')

    def filter(self, I, m):
        if isinstance(m, slice) and (m.start, m.stop, m.step) == (None, None, None):
            return self
        self.same_rows(I, m)
        I.used_models.add('DataFrame[mask]')
        rows, mv = self.rows, m.val
        return self.clone(I, rows=lambda r: B(And(rows(r), mv(r))))

    def getitem(self, I, k):
        if isinstance(k, SerV):
            return self.filter(I, k)
        if isinstance(k, (ListV, tuple)):
            I.used_models.add('DataFrame[columns]')
            return self.clone(I, cols=lambda key: I.contains(k, key))
        if isinstance(k, (str, StrV, RefV)):
            return self.series(I, k)
        raise Unsupported('frame[%r]' % (k,))

    def setitem(self, I, k, v):
        I.used_models.add('DataFrame column assignment')
        old, oc = self.attrs['col'], self.attrs['cols']
        if isinstance(v, SerV):
            self_ = SerV(self.rows, None)
            self_.aligned(I, v)
            if v.kind == 'cell':
                new = lambda r: v.val(r)
            else:
                raise Unsupported('assigning a computed column')
        else:
            c = scalar_cell(I, v)
            new = lambda r: c
        I.set_attr(self, 'col', lambda key, r: z3.If(B(I.quiet(lambda: I.py_eq(k, key))), new(r), old(key, r)))
        I.set_attr(self, 'cols', lambda key: Or(oc(key), I.py_eq(k, key)))

    def contains(self, I, k):
        return self.attrs['cols'](k)

    def truth(self, I):
        raise PyExc(ValueError, ('truth of a DataFrame',))

    def length(self, I):
        raise Unsupported('length of a frame')

    def py_eq(self, I, o):
        raise Unsupported('comparison of frames')

    def attr(self, I, name):
        if name == 'empty':
            x = z3.Const('row!%d' % I.tag(), Obj)
            return z3.Not(z3.Exists([x], B(self.rows(x))))
        if name in ('loc',):
            return Loc(self, name)
        if name == 'index':
            return IndexV(self)
        if name == 'columns':
            return Columns(self)
        if name == 'head':
            def head(I, a, k):
                if a != [0]:
                    raise Unsupported('head')
                return self.clone(I, rows=lambda r: False)
            return ModelV('head', head)
        if name == 'copy':
            return ModelV('copy', lambda I, a, k: self.clone(I))
        if name == 'set_index':
            def set_index(I, a, k):
                if k.get('drop') is not False or k.get('inplace') or isinstance(a[0], (ListV, list)):
                    raise Unsupported('set_index')
                col = self.attrs['col']
                I.used_models.add('DataFrame.set_index')
                return self.clone(I, label=lambda r: col(a[0], r))
            return ModelV('set_index', set_index)
        raise Unsupported('DataFrame.%s' % name)


class Columns(Sym):
    def __init__(self, f):
        self.f = f

    def contains(self, I, k):
        return self.f.attrs['cols'](k)


def _attr(I, v, name):
    return v.attr(I, name)


ATTR = {DurV: _attr, SerV: _attr, FrameV: _attr, IndexV: _attr, Accessor: _attr}


def fresh_frame(P, name):
    """an arbitrary frame"""
    t = P.fresh(name, Obj)
    rows = P.fn('frame_row', Obj, Obj, z3.BoolSort())
    cell = P.fn('frame_cell', Obj, Obj, Obj, Obj)
    lab = P.fn('frame_label', Obj, Obj, Obj)
    f = P.born(FrameV(lambda r: rows(t, r), lambda k, r: cell(t, P.term(k), r), None, lambda r: lab(t, r), name))
    f.term_ = t
    return f


def fresh_series(P, name, kind='num', rows=None):
    t = P.fresh(name, Obj)
    rw = P.fn('series_row', Obj, Obj, z3.BoolSort())
    v = P.fn('series_' + kind, Obj, Obj, {'num': z3.RealSort(), 'bool': z3.BoolSort(), 'cell': Obj}[kind])
    if kind == 'cell':
        null = lambda r: null_of(P, v(t, r))
    elif kind == 'num':
        nf = P.fn('series_null', Obj, Obj, z3.BoolSort())
        null = lambda r: nf(t, r)
    else:
        null = None
    lab = P.fn('series_label', Obj, Obj, Obj)
    s = SerV(rows or (lambda r: rw(t, r)), lambda r: v(t, r), null, kind, lambda r: lab(t, r))
    s.ident = s.order = t
    return s


def ARITH(I):
    R = z3.RealSort()
    mod = I.fn('np.mod', R, R, R)
    return {'Add': lambda a, b: a + b, 'Sub': lambda a, b: a - b, 'Mult': lambda a, b: a * b, 'Div': lambda a, b: a / b,
            'Mod': lambda a, b: mod(a, b)}


def is_categorical(I, a, k):
    if not isinstance(a[0], SerV):
        raise Unsupported('is_categorical_dtype')
    return I.make(BOOL, 'categorical')


def categorical_dtype(I, a, k):
    c = k.get('categories', a[0] if a else None)
    if not isinstance(c, CatDtype) or k.get('ordered'):
        raise Unsupported('CategoricalDtype')
    return c


def new_series(I, a, k):
    """pd.Series(list): one row per element"""
    c = a[0] if a else k.get('data')
    if isinstance(c, (tuple, list)):
        c = I.mklist(list(c))
    if isinstance(c, SerV):
        return c.like(c.val, c.null)
    if not isinstance(c, ListV) or set(k) - {'name', 'data'}:
        raise Unsupported('pd.Series(%r)' % (c,))
    n = I.length(c)
    t = I.fresh('series', Obj)
    rows, pos, row = (I.fn('row_of_list', Obj, Obj, z3.BoolSort()), I.fn('position_of_row', Obj, Obj, z3.IntSort()), I.fn('row_at', Obj, z3.IntSort(), Obj))
    val = I.fn('series_cell', Obj, Obj, Obj)
    r, i = z3.Const('row!l', Obj), z3.Int('i!l')
    at = c.at if c.at is not None else I.at_of(c)
    I.assume(z3.ForAll([r], z3.Implies(rows(t, r), z3.And(pos(t, r) >= 0, pos(t, r) < n, row(t, pos(t, r)) == r, val(t, r) == I.term(at(pos(t, r)))))))
    I.assume(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < n), z3.And(rows(t, row(t, i)), pos(t, row(t, i)) == i, val(t, row(t, i)) == I.term(at(i))))))
    lab = I.fn('series_label', Obj, Obj, Obj)
    I.used_models.add('pd.Series(list)')
    return SerV(lambda x: rows(t, x), lambda x: val(t, x), lambda x: null_of(I, val(t, x)), 'cell', lambda x: lab(t, x))


def np_bin(op):
    def f(I, a, k):
        if not any(isinstance(x, SerV) for x in a[:2]):
            raise Unsupported('numpy on scalars')
        return I.binop(op, a[0], a[1])
    return f


def np_cmp(op):
    return lambda I, a, k: I.compare(op, a[0], a[1])


def np_abs(I, a, k):
    s = a[0]
    return s.like(lambda r: z3.If(s.num(I, r) < 0, -s.num(I, r), s.num(I, r)), s.null, 'num')


def np_logic(f, n):
    def g(I, a, k):
        tr = [(lambda r, s=s: B(s.val(r)) if s.kind == 'bool' else s.num(I, r) != 0) for s in a[:n]]
        if n == 2:
            a[0].aligned(I, a[1])
        return a[0].like(lambda r: B(f(*[t(r) for t in tr])), None, 'bool')
    return g


M = {np.arange: np_arange, pd.api.types.is_categorical_dtype: is_categorical, pd.CategoricalDtype: categorical_dtype, pd.Series: new_series,
     np.add: np_bin('Add'), np.subtract: np_bin('Sub'), np.multiply: np_bin('Mult'), np.divide: np_bin('Div'), np.mod: np_bin('Mod'),
     np.greater: np_cmp('Gt'), np.greater_equal: np_cmp('GtE'), np.less: np_cmp('Lt'), np.less_equal: np_cmp('LtE'),
     np.equal: np_cmp('Eq'), np.not_equal: np_cmp('NotEq'), np.absolute: np_abs, np.bitwise_and: np_bin('BitAnd'), np.bitwise_or: np_bin('BitOr'),
     np.logical_and: np_logic(And, 2), np.logical_or: np_logic(Or, 2), np.logical_not: np_logic(Not, 1)}
