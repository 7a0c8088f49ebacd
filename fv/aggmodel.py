"""Assumed contracts of the pandas/numpy reductions.

The values handed to an aggregation primitive are a sequence t of cells; reductions
are the documented functions of t (sum, count of present values, ...), related by:
fillna/dropna/astype only change what a reduction sees in the documented way."""
from pdmodel import *      # noqa
from scipy import stats as _stats


class ValsV(Sym):
    """the values (or, raw, their numpy array); drop: missing ones removed; fill: missing ones replaced; cast: times as nanoseconds"""
    pycls = pd.Series

    def __init__(self, t, drop=False, fill=None, cast=False, raw=False, cell=True):
        self.t, self.drop, self.fill, self.cast, self.raw, self.cell = t, drop, fill, cast, raw, cell
        if raw:
            self.pycls = np.ndarray

    def but(self, **kw):
        d = dict(t=self.t, drop=self.drop, fill=self.fill, cast=self.cast, raw=self.raw, cell=self.cell)
        d.update(kw)
        return ValsV(**d)

    def r(self, I, name, sort=None, *args):
        return I.fn('agg.' + name, *([Obj] + [a.sort() for a in args] + [z3.RealSort() if sort is None else sort]))(self.t, *args)

    def nums(self, I):
        """(number of values, of present values) of t"""
        n, c = self.r(I, 'len', z3.IntSort()), self.r(I, 'count', z3.IntSort())
        I.assume(z3.And(0 <= c, c <= n))
        return n, c

    def length(self, I):
        n, c = self.nums(I)
        return c if self.drop else n

    def present(self, I):
        n, c = self.nums(I)
        return n if self.fill is not None else c

    def skips(self, I):
        """whether reductions may be taken to skip missing values"""
        if self.raw and not self.drop and self.fill is None:
            n, c = self.nums(I)
            return I.decide(n == c)
        return True

    def zero_fill(self, I):
        if self.fill is None:
            return
        v = self.fill
        if is_z3(v) or v not in (0, False):
            raise Unsupported('statistic after filling with %r' % (v,))

    def sum(self, I):
        self.zero_fill(I)
        if not self.skips(I):
            return float('nan')
        return self.r(I, 'sum')

    def mean(self, I):
        self.zero_fill(I)
        if not self.skips(I):
            return float('nan')
        n = self.present(I)
        if not I.decide(n > 0):
            return float('nan')
        return self.r(I, 'sum') / z3.ToReal(n)

    def extreme(self, I, name):
        if self.fill is not None:
            raise Unsupported('extreme after filling')
        if not self.skips(I):
            return float('nan')
        if not I.decide(self.present(I) > 0):
            return float('nan')
        v = self.r(I, name)
        return v * 1000000000 if self.cast else NumCell(v) if self.cell else v

    def plain(self, what):
        if self.drop or self.fill is not None or self.cast or self.raw:
            raise Unsupported('%s of changed values' % what)

    def binop(self, I, op, y, refl):
        return NotImplemented

    def getitem(self, I, k):
        if isinstance(k, slice) and (k.start, k.stop, k.step) == (None, None, None):
            return self
        raise Unsupported('values[%r]' % (k,))

    def attr(self, I, name):
        n = name
        if n in ('values', 'array'):
            return self.but(raw=True)
        if n == 'shape':
            return (self.length(I),)
        if n == 'size':
            return self.length(I)
        if n == 'iloc':
            return AtV(self)
        if n == 'empty':
            return self.length(I) == 0
        f = getattr(self, 'do_' + n, None)
        if f is None:
            raise Unsupported('Series.%s' % n)
        I.used_models.add('Series.' + n)
        return ModelV('Series.' + n, lambda I, a, k: f(I, *a, **k))

    def do_count(self, I):
        return self.present(I)

    def do_sum(self, I, axis=None):
        return self.sum(I)

    def do_mean(self, I, axis=None):
        return self.mean(I)

    def do_max(self, I):
        return self.extreme(I, 'max')

    def do_min(self, I):
        return self.extreme(I, 'min')

    def do_dropna(self, I):
        return self if self.fill is not None else self.but(drop=True)

    def do_notnull(self, I):
        raise Unsupported('notnull of values')

    def do_fillna(self, I, v):
        return self if self.drop else self.but(fill=v)

    def do_astype(self, I, t):
        if t in ('int64', 'i8', int, np.int64):
            if not self.drop:
                raise Unsupported('integer cast of missing values')
            return self.but(cast=True)
        raise Unsupported('astype')

    def do_copy(self, I):
        return self

    def _named(self, I, name, *args):
        self.zero_fill(I) if name not in ('median', 'skew', 'std') or self.fill is None else self.plain(name)
        if self.raw and not self.drop:
            raise Unsupported('%s of a raw array' % name)
        return self.r(I, name, None, *args)

    def do_median(self, I):
        return self._named(I, 'median')

    def do_skew(self, I):
        return self._named(I, 'skew')

    def do_std(self, I, ddof=1):
        return self._named(I, 'std', z3.IntVal(ddof))

    def do_nunique(self, I, dropna=True):
        if self.fill is not None:
            raise Unsupported('distinct values after filling')
        n = self.r(I, 'nunique', z3.IntSort())
        I.assume(n >= 0)
        if dropna or self.drop:
            return n
        return z3.If(self.nums(I)[0] == self.nums(I)[1], n, n + 1)

    def do_any(self, I):
        self.zero_fill(I)
        return self.r(I, 'any', z3.BoolSort())

    def do_all(self, I):
        if self.fill is not None:
            raise Unsupported('all after filling')
        return self.r(I, 'all', z3.BoolSort())

    def do_mode(self, I, dropna=True):
        if not dropna or self.fill is not None:
            raise Unsupported('mode')
        return ModeV(self)

    def do_value_counts(self, I, normalize=False, sort=True, ascending=False, bins=None, dropna=True):
        if bins is not None or self.fill is not None:
            raise Unsupported('value_counts')
        return CountsV(self, normalize, dropna if not self.drop else True, (sort, ascending))

    def do_unique(self, I):
        raise Unsupported('unique')


class NumCell(Sym):
    """a time read as a number of seconds"""
    pycls = pd.Timestamp

    def __init__(self, num, cell=None):
        self.num, self.cell = num, cell

    def binop(self, I, op, y, refl):
        if op != 'Sub':
            return NotImplemented
        o = y.num if isinstance(y, NumCell) else num_of(I, y.term) if isinstance(y, RefV) else None
        if o is None:
            return NotImplemented
        return DurV(o - self.num if refl else self.num - o)


class AtV(Sym):
    def __init__(self, s):
        self.s = s

    def getitem(self, I, i):
        s = self.s
        if s.fill is not None or s.raw or i not in (0, -1):
            raise Unsupported('values at %r' % (i,))
        if not I.decide(s.length(I) > 0):
            raise PyExc(IndexError, ('single positional indexer is out-of-bounds',))
        nm = ('first' if i == 0 else 'last') + (' present' if s.drop else '')
        if not s.cell:
            return s.r(I, nm)
        v = s.r(I, nm, Obj)
        if s.cast:
            return num_of(I, v) * 1000000000
        return NumCell(num_of(I, v), v)


class ModeV(Sym):
    """the most frequent values, smallest first"""
    def __init__(self, s):
        self.s = s

    def attr(self, I, name):
        if name == 'iloc':
            return self
        if name == 'get':
            return ModelV('get', lambda I, a, k: self.at(I, a[0], a[1] if len(a) > 1 else k.get('default'), True))
        if name == 'empty':
            return self.s.nums(I)[1] == 0
        raise Unsupported('mode().%s' % name)

    def length(self, I):
        n = self.s.r(I, 'modes', z3.IntSort())
        I.assume(z3.And(n >= 0, (n > 0) == (self.s.nums(I)[1] > 0)))
        return n

    def at(self, I, i, default, quiet):
        if i != 0:
            raise Unsupported('mode()[%r]' % (i,))
        if I.decide(self.s.nums(I)[1] > 0):
            return RefV('any', self.s.r(I, 'mode', Obj))
        if quiet:
            return default
        raise PyExc(IndexError, ())

    def getitem(self, I, i):
        return self.at(I, i, None, False)


class CountsV(Sym):
    """value_counts: the distinct values by falling frequency"""
    def __init__(self, s, normalize, dropna, order):
        self.s, self.normalize, self.dropna, self.order = s, normalize, dropna, order

    def index_(self, I):
        if self.order != (True, False) or not (self.dropna is True):
            raise Unsupported('order of value_counts')
        s = self.s
        n = s.do_nunique(I)
        f = I.fn('agg.by frequency', Obj, z3.IntSort(), Obj)
        return ArrV(n, lambda i: f(s.t, i))

    def attr(self, I, name):
        if name == 'index':
            return self.index_(I)
        raise Unsupported('value_counts().%s' % name)

    def length(self, I):
        return self.s.do_nunique(I, self.dropna)


class ArrV(Sym):
    """n cells"""
    pycls = np.ndarray

    def __init__(self, n, at):
        self.n, self.at = n, at

    def length(self, I):
        return self.n

    def getitem(self, I, k):
        if isinstance(k, slice) and k.start in (None, 0) and k.step is None:
            m = k.stop
            if m is None:
                return self
            if not I.entailed(m >= 0):
                raise Unsupported('slice to %r' % (m,))
            return ArrV(z3.If(self.n < m, self.n, m), self.at)
        raise Unsupported('array[%r]' % (k,))

    def attr(self, I, name):
        if name in ('values',):
            return self
        if name in ('tolist', 'to_list', 'to_numpy', 'copy'):
            return ModelV(name, lambda I, a, k: self)
        if name == 'shape':
            return (self.n,)
        if name in ('size',):
            return self.n
        raise Unsupported('array.%s' % name)


def arr(I, x):
    if isinstance(x, ArrV):
        return x
    if isinstance(x, (tuple, list)):
        x = I.mklist(list(x))
    if isinstance(x, ListV):
        at = x.at if x.at is not None else I.at_of(x)
        return ArrV(I.length(x), lambda i: I.term(at(i)))
    raise Unsupported('array of %r' % (x,))


def np_array(I, a, k):
    return arr(I, a[0])


def np_full(I, a, k):
    v = I.term(a[1])
    n = a[0]
    if isinstance(n, tuple):
        n, = n
    if not I.entailed(n >= 0):
        if not I.decide(n >= 0):
            raise PyExc(ValueError, ('negative dimensions are not allowed',))
    return ArrV(n, lambda i: v)


def np_append(I, a, k):
    x, y = arr(I, a[0]), arr(I, a[1])
    return ArrV(x.n + y.n, lambda i: z3.If(i < x.n, x.at(i), y.at(i - x.n)))


def method(name, **over):
    def f(I, a, k):
        if not isinstance(a[0], ValsV):
            raise Unsupported('%s of %r' % (name, a[0]))
        kw = dict(k)
        for n, d in (('axis', None),):
            kw.pop(n, None)
        I.used_models.add('Series.' + name)
        for n, d in over.items():
            kw.setdefault(n, d)
        return getattr(a[0], 'do_' + name)(I, *a[1:], **kw)
    return f


def entropy(I, a, k):
    c = a[0]
    if not isinstance(c, CountsV):
        raise Unsupported('entropy of %r' % (c,))
    base = k.get('base', a[2] if len(a) > 2 else None)
    I.used_models.add('scipy.stats.entropy')
    return c.s.r(I, 'entropy', None, B(I.truth(c.dropna)) if not isinstance(c.dropna, bool) else z3.BoolVal(c.dropna), I.term(base))


MODELS = {np.sum: method('sum'), np.mean: method('mean'), np.max: method('max'), np.min: method('min'), np.std: method('std', ddof=0),
          np.any: method('any'), np.all: method('all'), np.median: None, np.array: np_array, np.full: np_full, np.append: np_append,
          np.concatenate: lambda I, a, k: np_append(I, list(a[0]) if isinstance(a[0], tuple) else [x.value for x in a[0].pieces], {}),
          _stats.entropy: entropy}
for _n in ('count', 'sum', 'mean', 'max', 'min', 'median', 'skew', 'std', 'nunique', 'any', 'all', 'dropna', 'fillna', 'mode', 'value_counts'):
    MODELS[getattr(pd.Series, _n)] = method(_n)
del MODELS[np.median]
for _c in (ValsV, ModeV, CountsV, ArrV):
    ATTR[_c] = lambda I, v, name: v.attr(I, name)
