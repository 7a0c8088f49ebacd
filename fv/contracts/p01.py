"""Transform primitives: the value at every row of the result, for series of any length and content."""
from chelp import *
from pdmodel import *
from contracts.l01 import ROW

T = 'featuretools.primitives.standard.transform_primitive:'
Bn = 'featuretools.primitives.standard.binary_transform:'
C = 'featuretools.primitives.standard.cum_transform_feature:'
DIV = {'years': 31540000, 'months': 2628000, 'days': 86400, 'hours': 3600, 'minutes': 60, 'seconds': 1, 'milliseconds': real(0.001),
       'nanoseconds': real(1e-9)}


class In(object):
    """the inputs of one call: series, constructor arguments, the cutoff time, and what the answer must be per row"""


class Prim(Contract):
    """primitive(args).get_function()(series...) at an arbitrary row"""
    kinds = ('num',)
    init = ()           # constructor argument names and kinds
    uses_time = False
    timeout = 6000
    variant = ''

    def name(self):
        return type(self).__name__ + self.variant

    def setup(self, P):
        c = In()
        c.s = [fresh_series(P, 'x', self.kinds[0])]
        for i, k in enumerate(self.kinds[1:]):
            x = fresh_series(P, 'y%d' % i, k, rows=c.s[0].rows)
            x.order = c.s[0].order
            c.s.append(x)
        c.args = self.arguments(P, c)
        c.time = P.make(ANY, 'time')
        c.tn = num_of(P, c.time.term)
        P.assume(z3.Not(null_of(P, c.time.term)))
        P.assume(B(c.s[0].rows(ROW)))
        return [], {}, c

    def arguments(self, P, c):
        return {n: P.make(t, n) for n, t in self.init}

    def body(self, P, fn, args, kw, c):
        cls = getattr(importlib.import_module(self.target.split(':')[0]), self.target.split(':')[1].split('.')[0])
        inst = P.call(cls, [], dict(c.args))
        f = P.call(P.getattr(inst, 'get_function'), [], {})
        # the calculator passes the cutoff time to primitives that ask for it
        self.check_flag(P, inst)
        return P.call(f, list(c.s), {'time': c.time} if self.uses_time else {})

    def check_flag(self, P, inst):
        P.oblige('asks-for-the-cutoff-time-exactly-when-needed', Iff(B(P.truth(P.getattr(inst, 'uses_calc_time'))), z3.BoolVal(self.uses_time)))

    def post(self, P, c, out):
        if out.kind == 'raise':
            return [('does-not-raise', False)]
        v = out.value
        miss, val = self.want(P, c, [(s.null(ROW), s.val(ROW) if s.kind == 'cell' else s.num(P, ROW) if s.kind != 'bool' else B(s.val(ROW))) for s in c.s])
        if isinstance(v, ArangeV):
            n = P.length(c.s[0])
            return [('one-value-per-input-row', v.stop - v.start == n), ('documented-value', val == z3.ToReal(v.start + c.s[0].pos(P, ROW)))]
        got = v.val(ROW)
        if is_bool(got):
            eq = Iff(B(got), val) if is_bool(val) else False
        elif v.kind == 'cell':
            eq = got == val
        else:
            eq = (v.num(P, ROW) == val) if not is_bool(val) else Iff(v.num(P, ROW) != 0, val)
        return [('one-value-per-input-row', z3.BoolVal(v.rows is c.s[0].rows)),
                ('missing-exactly-when-documented', Iff(B(v.null(ROW)), miss)),
                ('documented-value', Implies(Not(miss), eq))]


def prim(where, cls, kinds, want, init=(), variant='', **kw):
    d = {'target': where + cls + '.get_function', 'kinds': kinds, 'want': lambda self, P, c, x: want(P, c, *x), 'init': init, 'variant': variant}
    d.update(kw)
    CONTRACTS.append(type(cls, (Prim,), d))


CONTRACTS = []
Orr = lambda *a: Or(*a)


# comparisons: false when an operand is missing (different: true), operands in order
def cmp2(f, missing_gives=False):
    return lambda P, c, x, y: (False, Or(And(Or(x[0], y[0]), missing_gives), And(Not(x[0]), Not(y[0]), f(x[1], y[1]))))


def cmp1(f, missing_gives=False):
    return lambda P, c, x: (False, Or(And(x[0], missing_gives), And(Not(x[0]), f(x[1], c.args['value']))))


CMP = {'GreaterThan': lambda a, b: a > b, 'GreaterThanEqualTo': lambda a, b: a >= b, 'LessThan': lambda a, b: a < b, 'LessThanEqualTo': lambda a, b: a <= b,
       'Equal': lambda a, b: a == b, 'NotEqual': lambda a, b: a != b}
VALUE = (('value', REAL),)
for n, f in CMP.items():
    miss = n == 'NotEqual'
    prim(Bn, n, ('num', 'num'), cmp2(f, miss))
    prim(Bn, n + 'Scalar', ('num',), cmp1(f, miss), VALUE)
# any kind of value can be compared for equality
eqc = lambda neg: lambda P, c, x, y: (False, Iff(z3.BoolVal(not neg), And(Not(x[0]), Not(y[0]), x[1] == y[1])))
prim(Bn, 'Equal', ('cell', 'cell'), eqc(False), variant='/values')
prim(Bn, 'NotEqual', ('cell', 'cell'), eqc(True), variant='/values')


# arithmetic: missing when an operand is
def ari2(f):
    return lambda P, c, x, y: (Or(x[0], y[0]), f(P, x[1], y[1]))


def ari1(f):
    return lambda P, c, x: (x[0], f(P, x[1], c.args['value']))


def op(name):
    return lambda P, a, b: ARITH(P)[name](a, b)


for n, o in (('Add', 'Add'), ('Subtract', 'Sub'), ('Multiply', 'Mult'), ('Divide', 'Div'), ('Modulo', 'Mod')):
    prim(Bn, n + 'Numeric', ('num', 'num'), ari2(op(o)))
    prim(Bn, n + 'NumericScalar', ('num',), ari1(op(o)), VALUE)
swap = lambda f: lambda P, a, b: f(P, b, a)
prim(Bn, 'ScalarSubtractNumericFeature', ('num',), ari1(swap(op('Sub'))), VALUE)
prim(Bn, 'DivideByFeature', ('num',), ari1(swap(op('Div'))), VALUE)
prim(Bn, 'ModuloByFeature', ('num',), ari1(swap(op('Mod'))), VALUE)
prim(Bn, 'MultiplyBoolean', ('bool', 'bool'), lambda P, c, x, y: (False, And(x[1], y[1])))
prim(Bn, 'And', ('bool', 'bool'), lambda P, c, x, y: (False, And(x[1], y[1])))
prim(Bn, 'Or', ('bool', 'bool'), lambda P, c, x, y: (False, Or(x[1], y[1])))
prim(T, 'Not', ('bool',), lambda P, c, x: (False, Not(x[1])))
prim(T, 'Negate', ('num',), lambda P, c, x: (x[0], -x[1]))
prim(T, 'Absolute', ('num',), lambda P, c, x: (x[0], z3.If(x[1] < 0, -x[1], x[1])))
for k in ('num', 'cell'):
    prim(T, 'IsNull', (k,), lambda P, c, x: (False, x[0]), variant='/' + k)


# calendar parts
def part(name):
    return lambda P, c, x: (x[0], P.fn('dt.' + name, Obj, z3.RealSort())(x[1]))


for n in ('day', 'hour', 'second', 'minute', 'week', 'month', 'year', 'weekday'):
    prim(T, n.title(), ('cell',), part(n))
prim(T, 'IsWeekend', ('cell',), lambda P, c, x: (False, And(Not(x[0]), P.fn('dt.weekday', Obj, z3.RealSort())(x[1]) > 4)))


# texts: a missing text is an empty one
def text(P, x):
    return z3.If(B(x[0]), P.term(''), x[1])


prim(T, 'NumCharacters', ('cell',), lambda P, c, x: (False, P.fn('str.len', Obj, z3.RealSort())(text(P, x))))
prim(T, 'NumWords', ('cell',), lambda P, c, x: (False, 1 + P.fn('str.count', Obj, Obj, z3.RealSort())(text(P, x), P.term(' '))))


# membership
def among(P, c, x):
    l = c.args['list_of_outputs']
    return False, And(Not(x[0]), P.quiet(lambda: P.contains(l, RefV('any', x[1]))) if l is not None else False)


class IsInArgs(Prim):
    def arguments(self, P, c):
        l = P.make(Lst(ANY), 'list_of_outputs')
        return {'list_of_outputs': l}


CONTRACTS.append(type('IsIn', (IsInArgs,), {'target': T + 'IsIn.get_function', 'kinds': ('cell',), 'want': lambda self, P, c, x: among(P, c, x[0])}))
prim(T, 'IsIn', ('cell',), lambda P, c, x: (False, False), variant='/nothing')


# coordinates: both unknown when the place is missing
def coord(i):
    class Coord(Prim):
        target = T + ('Latitude', 'Longitude')[i] + '.get_function'
        kinds = ('cell',)

        def name(self):
            return ('Latitude', 'Longitude')[i]

        def setup(self, P):
            r = Prim.setup(self, P)
            s = r[2].s[0]
            s.elemf = PairV
            r[2].pair = P.term((float('nan'), float('nan')))
            return r

        def contracts(self):
            def nowhere(P, a, k):
                s = a[0]
                pair = P.term((float('nan'), float('nan')))
                return s.like(lambda r: z3.If(B(s.null(r)), pair, s.val(r)), None, 'cell')
            f = fnref('featuretools.utils.entity_utils:replace_latlong_nan')
            return {f: nowhere} if f else {}

        def want(self, P, c, x):
            x, = x
            got = P.term(PairV(x[1]).getitem(P, i))
            return Or(x[0], null_of(P, got)), got
    Coord.__name__ = ('Latitude', 'Longitude')[i]
    return Coord


CONTRACTS += [coord(0), coord(1)]


# time differences, in the stated unit
class Since(Prim):
    target = T + 'TimeSince.get_function'
    kinds = ('cell',)
    uses_time = True
    unit = None

    def name(self):
        return 'TimeSince/' + str(self.unit)

    def arguments(self, P, c):
        return {} if self.unit is None else {'unit': self.unit}

    def want(self, P, c, x):
        return x[0][0], (c.tn - num_of(P, x[0][1])) / DIV[(self.unit or 'seconds').lower()]


class Previous(Since):
    target = T + 'TimeSincePrevious.get_function'
    uses_time = False

    def name(self):
        return 'TimeSincePrevious/' + str(self.unit)

    def want(self, P, c, x):
        key = "series.diff [('periods', 1)]"
        s = c.s[0]
        return P.fn(key + '?', Obj, Obj, z3.BoolSort())(s.ident, ROW), P.fn(key, Obj, Obj, z3.RealSort())(s.ident, ROW) / DIV[(self.unit or 'seconds').lower()]


for u in [None, 'Days'] + list(DIV):
    CONTRACTS += [type('TimeSince', (Since,), {'unit': u}), type('TimeSincePrevious', (Previous,), {'unit': u})]
prim(T, 'Age', ('cell',), lambda P, c, x: (x[0], z3.ToReal(z3.ToInt((c.tn - num_of(P, x[1])) / 86400)) / 365), uses_time=True)


class BadUnit(Contract):
    target = 'featuretools.utils.time_utils:convert_time_units'

    def setup(self, P):
        unit = P.make(STR, 'unit')
        return [P.make(REAL, 'secs'), unit], {}, unit

    def post(self, P, unit, out):
        known = Or(*[P.py_eq(unit, u) for u in DIV])
        if out.kind == 'raise':
            return [('only-unknown-units-refused', And(Not(known), z3.BoolVal(out.value.cls is ValueError)))]
        return [('unknown-units-refused', known)]

    def cover(self, P, unit, out):
        return [('refused', out.kind == 'raise'), ('accepted', out.kind != 'raise')]


CONTRACTS.append(BadUnit)


# functions of the preceding values
def running(cls, name, args, where=C, kinds=('num',)):
    key = 'series.%s %s' % (name, args)

    def want(P, c, x):
        t = c.s[0].ident
        return P.fn(key + '?', Obj, Obj, z3.BoolSort())(t, ROW), P.fn(key, Obj, Obj, z3.RealSort())(t, ROW)
    prim(where, cls, kinds, want)


SKIP = [('skipna', True)]
running('CumSum', 'cumsum', SKIP)
running('CumMin', 'cummin', SKIP)
running('CumMax', 'cummax', SKIP)
running('Diff', 'diff', [('periods', 1)], T)
running('Percentile', 'rank', [('ascending', True), ('method', 'average'), ('na_option', 'keep'), ('pct', True)], T)


def mean_so_far(P, c, x):
    t = c.s[0].ident
    key = 'series.cumsum %s' % SKIP
    return P.fn(key + '?', Obj, Obj, z3.BoolSort())(t, ROW), P.fn(key, Obj, Obj, z3.RealSort())(t, ROW) / z3.ToReal(1 + c.s[0].pos(P, ROW))


prim(C, 'CumMean', ('num',), mean_so_far)
prim(C, 'CumCount', ('num',), lambda P, c, x: (False, z3.ToReal(1 + c.s[0].pos(P, ROW))))
