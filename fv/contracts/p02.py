"""Aggregation primitives: the documented statistic of the values given, whatever they are and however many."""
from chelp import *
from aggmodel import *
from contracts.p01 import DIV

A = 'featuretools.primitives.standard.aggregation_primitives:'


class Agg(Contract):
    cls = None
    cells = False       # times rather than numbers
    uses_time = False
    variant = ''
    args = ()

    @property
    def target(self):
        return A + self.cls + '.get_function'

    def name(self):
        return self.cls + self.variant

    def models(self):
        return MODELS

    def setup(self, P):
        c = lambda: None
        c.x = ValsV(P.fresh('values', Obj), cell=self.cells)
        c.n, c.count = c.x.nums(P)
        c.args = {n: P.make(t, n) if not callable(t) else t(P) for n, t in dict(self.args).items()}
        c.time = P.make(ANY, 'time')
        c.tn = num_of(P, c.time.term)
        P.assume(z3.Not(null_of(P, c.time.term)))
        self.given(P, c)
        return [], {}, c

    def given(self, P, c):
        pass

    def body(self, P, fn, args, kw, c):
        inst = P.call(getattr(importlib.import_module(A[:-1]), self.cls), [], dict(c.args))
        P.oblige('asks-for-the-cutoff-time-exactly-when-needed', Iff(B(P.truth(P.getattr(inst, 'uses_calc_time'))), z3.BoolVal(self.uses_time)))
        f = P.call(P.getattr(inst, 'get_function'), [], {})
        return P.call(f, [c.x], {'time': c.time} if self.uses_time else {})

    def post(self, P, c, out):
        if out.kind == 'raise':
            return [('does-not-raise', False)]
        v = out.value
        nan = isinstance(v, float) and v != v
        missing, want = self.want(P, c)
        fs = [('missing-exactly-when-documented', Iff(B(z3.BoolVal(nan)), missing))]
        if not nan:
            if isinstance(v, RefV):
                v = v.term
            elif isinstance(v, NumCell):
                v = v.num if z3.is_real(want) else v.cell
            if is_bool(v) or is_bool(want):
                eq = Iff(B(P.truth(v)), want) if is_bool(v) else False
            else:
                if isinstance(v, (int, float)):
                    v = as_num(P, v)[0]
                if z3.is_int(v) and z3.is_real(want):
                    v = z3.ToReal(v)
                eq = v == want
            fs.append(('documented-value', Implies(Not(missing), eq)))
        return fs


def agg(cls_, want, variant='', **kw):
    d = {'cls': cls_, 'want': lambda self, P, c: want(P, c), 'variant': variant}
    d.update(kw)
    CONTRACTS.append(type(cls_, (Agg,), d))


CONTRACTS = []
some = lambda c: c.count > 0
agg('Count', lambda P, c: (False, c.count))
agg('Sum', lambda P, c: (False, c.x.r(P, 'sum')))
agg('Mean', lambda P, c: (Not(some(c)), c.x.r(P, 'sum') / z3.ToReal(c.count)))
agg('Mean', lambda P, c: (Or(c.count < c.n, c.n == 0), c.x.r(P, 'sum') / z3.ToReal(c.n)), '/keeping missing', args={'skipna': lambda P: False})
agg('Mode', lambda P, c: (Not(some(c)), c.x.r(P, 'mode', Obj)))
for k in (False, True):
    for n, f in (('Min', 'min'), ('Max', 'max')):
        agg(n, (lambda f: lambda P, c: (Not(some(c)), c.x.r(P, f)))(f), '/times' if k else '', cells=k)
agg('NumUnique', lambda P, c: (False, c.x.do_nunique(P)))
agg('NumTrue', lambda P, c: (False, c.x.r(P, 'sum')))
# missing values count as false: true values out of all values
agg('PercentTrue', lambda P, c: (c.n == 0, c.x.r(P, 'sum') / z3.ToReal(c.n)))
agg('Median', lambda P, c: (False, c.x.r(P, 'median')))
agg('Skew', lambda P, c: (False, c.x.r(P, 'skew')))
agg('Std', lambda P, c: (False, c.x.r(P, 'std', None, z3.IntVal(0))))
agg('Any', lambda P, c: (False, c.x.r(P, 'any', z3.BoolSort())))
agg('All', lambda P, c: (False, c.x.r(P, 'all', z3.BoolSort())))
nonempty = lambda self, P, c: P.assume(c.n > 0)      # the calculator never aggregates an empty group
agg('First', lambda P, c: (False, c.x.r(P, 'first', Obj)), given=nonempty, cells=True)
agg('Last', lambda P, c: (False, c.x.r(P, 'last', Obj)), given=nonempty, cells=True)
agg('Entropy', lambda P, c: (False, c.x.r(P, 'entropy', None, B(c.args['dropna']), P.term(c.args['base']))), args={'dropna': BOOL, 'base': Opt(REAL)})
agg('Entropy', lambda P, c: (False, c.x.r(P, 'entropy', None, z3.BoolVal(False), P.term(None))), '/default')


class Common(Agg):
    cls = 'NMostCommon'
    args = {'n': INT}

    def given(self, P, c):
        P.assume(c.args['n'] > 0)

    def post(self, P, c, out):
        if out.kind == 'raise':
            return [('does-not-raise', False)]
        n, v = c.args['n'], out.value
        i = z3.Int('i!any')
        u = c.x.do_nunique(P)
        f = P.fn('agg.by frequency', Obj, z3.IntSort(), Obj)
        inside = z3.And(0 <= i, i < n)
        return [('as-many-values-as-asked-for', P.length(v) == n),
                ('the-most-common-values-first', z3.Implies(z3.And(inside, i < u), v.at(i) == f(c.x.t, i))),
                ('then-missing-values', z3.Implies(z3.And(inside, i >= u), null_of(P, v.at(i))))]


CONTRACTS.append(Common)


class Since(Agg):
    cells = uses_time = True
    unit = None
    given = nonempty

    @property
    def args(self):
        return {} if self.unit is None else {'unit': lambda P: self.unit}

    def name(self):
        return self.cls + '/' + str(self.unit)

    def want(self, P, c):
        d = DIV[(self.unit or 'seconds').lower()]
        return False, (c.tn - num_of(P, c.x.r(P, {'TimeSinceLast': 'last', 'TimeSinceFirst': 'first'}[self.cls], Obj))) / d


class Between(Since):
    """mean of the gaps between consecutive times = spread over their number"""
    uses_time = False

    def given(self, P, c):
        pass

    def want(self, P, c):
        d = DIV[(self.unit or 'seconds').lower()]
        return c.count < 2, ((c.x.r(P, 'max') - c.x.r(P, 'min')) * 1000000000 / z3.ToReal(c.count - 1)) * real(1e-09) / d


for u in [None, 'Days'] + list(DIV):
    for n, b in (('TimeSinceLast', Since), ('TimeSinceFirst', Since), ('AvgTimeBetween', Between)):
        CONTRACTS.append(type(n, (b,), {'cls': n, 'unit': u}))
