"""Timedelta as a value type.  The units are the nine documented ones; which of them are present and their values are symbolic."""
from chelp import *
from featuretools.entityset.timedelta import Timedelta
MOD = 'featuretools.entityset.timedelta:'
UNITS = ['ms', 's', 'h', 'm', 'd', 'w', 'mo', 'Y', 'o']
ABSOLUTE = UNITS[:6]


def times(P, nm='td', units=UNITS):
    """an arbitrary mapping of units to numbers: (dictionary, presence, value)"""
    has = {u: P.make(BOOL, '%s_has_%s' % (nm, u)) for u in units}
    val = {u: P.make(REAL, '%s_%s' % (nm, u)) for u in units}
    return P.born(DictV([Piece((), has[u], (u, val[u])) for u in units])), has, val


def td(P, nm='td', delta=None):
    t, has, val = times(P, nm)
    P.assume(Or(*has.values()))
    return P.born(ObjV(Timedelta, {'times': t, 'delta_obj': P.make(ANY, nm + '_obj') if delta is None else delta})), has, val


def same_times(P, t, has, val):
    """dictionary t is exactly the given mapping"""
    return P.py_eq(t, DictV([Piece((), has[u], (u, val[u])) for u in UNITS]))


class Flag(Contract):
    """a predicate on the units present"""
    def name(self):
        return self.target.split(':')[1]

    def setup(self, P):
        t, has, val = td(P)
        return [t], {}, (t, has, val)

    def post(self, P, ctx, out):
        t, has, val = ctx
        if out.kind == 'raise':
            return [('does-not-raise', False)]
        return [(self.label, Iff(B(P.truth(out.value)), self.want(has))),
                ('leaves-the-timedelta-alone', same_times(P, P.getattr(t, 'times'), has, val))]

    def cover(self, P, ctx, out):
        return [('true', P.truth(out.value)), ('false', Not(P.truth(out.value)))]


class IsAbsolute(Flag):
    target = MOD + 'Timedelta.is_absolute'
    label = 'absolute-exactly-when-no-month-year-or-observation'

    def want(self, has):
        return Not(Or(has['mo'], has['Y'], has['o']))


class HasNoObservations(Flag):
    target = MOD + 'Timedelta.has_no_observations'
    label = 'exactly-when-not-measured-in-observations'

    def want(self, has):
        return Not(has['o'])


class HasMultipleUnits(Flag):
    target = MOD + 'Timedelta.has_multiple_units'
    label = 'exactly-when-two-units-are-present'

    def want(self, has):
        return Or(*[And(has[a], has[b]) for i, a in enumerate(UNITS) for b in UNITS[:i]])


class Eq(Contract):
    target = MOD + 'Timedelta.__eq__'

    def setup(self, P):
        a, ha, va = td(P, 'a')
        b, hb, vb = td(P, 'b')
        return [a, b], {}, (ha, va, hb, vb)

    def post(self, P, ctx, out):
        ha, va, hb, vb = ctx
        if out.kind == 'raise':
            return [('does-not-raise', False)]
        same = And(*[And(Iff(ha[u], hb[u]), Implies(ha[u], va[u] == vb[u])) for u in UNITS])
        return [('equal-exactly-when-same-amount-of-every-unit', Iff(B(P.truth(out.value)), same))]

    def cover(self, P, ctx, out):
        return [('equal', P.truth(out.value)), ('different', Not(P.truth(out.value)))]


class EqOther(Contract):
    target = MOD + 'Timedelta.__eq__'

    def name(self):
        return 'Timedelta.__eq__/other'

    def setup(self, P):
        a, ha, va = td(P, 'a')
        return [a, P.make(STR, 'other')], {}, ()

    def post(self, P, ctx, out):
        return [('no-timedelta-equals-another-kind-of-value', out.kind != 'raise' and Not(P.truth(out.value)))]


UNIT_TYPE = lambda: {fnref(MOD + 'Timedelta.get_unit_type'): lambda P, a, k: P.make(ANY, 'delta_obj')}


class Neg(Contract):
    target = MOD + 'Timedelta.__neg__'

    def contracts(self):
        return UNIT_TYPE()

    def setup(self, P):
        t, has, val = td(P)
        return [t], {}, (t, has, val)

    def post(self, P, ctx, out):
        t, has, val = ctx
        if out.kind == 'raise':
            return [('does-not-raise', False)]
        neg = {u: -v for u, v in val.items()}
        return [('every-amount-negated', same_times(P, P.getattr(out.value, 'times'), has, neg)),
                ('leaves-the-timedelta-alone', same_times(P, P.getattr(t, 'times'), has, val))]


class RoundTrip(Contract):
    """Timedelta.from_dictionary(td.get_arguments()) == td"""
    target = MOD + 'Timedelta.get_arguments'

    def name(self):
        return 'Timedelta.get_arguments/from_dictionary'

    def contracts(self):
        return UNIT_TYPE()

    def setup(self, P):
        t, has, val = td(P)
        return [t], {}, (t, has, val)

    def body(self, P, fn, args, kw, ctx):
        d = P.call(fn, args, kw)
        return P.call(P.getattr(Timedelta, 'from_dictionary'), [d], {})

    def post(self, P, ctx, out):
        t, has, val = ctx
        if out.kind == 'raise':
            return [('does-not-raise', False)]
        return [('round-trip-gives-an-equal-timedelta', same_times(P, P.getattr(out.value, 'times'), has, val))]


class Shift(Contract):
    """time + td and time - td apply the whole span, and refuse observations"""
    op = 'Add'
    target = MOD + 'Timedelta.__radd__'

    def setup(self, P):
        t, has, val = td(P)
        time = P.make(ANY, 'time')
        return [t, time], {}, (t, has, time)

    def post(self, P, ctx, out):
        t, has, time = ctx
        if out.kind == 'raise':
            return [('refused-only-for-observations', has['o'])]
        want = P.call_uf('op:' + self.op, [time, P.getattr(t, 'delta_obj')], ANY)
        return [('observations-refused', Not(has['o'])), ('shifts-by-the-whole-span', P.term(out.value) == want.term)]

    def cover(self, P, ctx, out):
        return [('observations', ctx[1]['o']), ('time', Not(ctx[1]['o']))]


class ShiftBack(Shift):
    op = 'Sub'
    target = MOD + 'Timedelta.__rsub__'


LONG = {'ms': 'milliseconds', 's': 'seconds', 'h': 'hours', 'm': 'minutes', 'd': 'days', 'w': 'weeks', 'mo': 'months', 'Y': 'years', 'o': 'observations'}


def spellings(u):
    l = LONG[u]
    return sorted({u, l, l[:-1], l.upper(), l[:-1].upper(), l.title(), l[:-1].title()} | ({u.upper()} if u != 'Y' else set()))


class Spelling(Contract):
    """every documented spelling of a unit (short, singular, plural, in any of the usual capitalisations) means that unit"""
    target = MOD + 'Timedelta.__init__'

    def name(self):
        return 'Timedelta.__init__/spelling'

    def contracts(self):
        return UNIT_TYPE()

    def setup(self, P):
        return [], {}, {(u, s): (P.make(REAL, 'amount_%s_%s' % (u, s))) for u in UNITS for s in spellings(u)}

    def body(self, P, fn, args, kw, ctx):
        return {k: (P.call(Timedelta, [v, k[1]], {}), P.call(Timedelta, [P.born(DictV([Piece((), True, (k[1], v))]))], {})) for k, v in ctx.items()}

    def post(self, P, ctx, out):
        if out.kind == 'raise':
            return [('does-not-raise', False)]
        one = lambda t, u, v: P.py_eq(P.getattr(t, 'times'), DictV([Piece((), True, (u, v))]))
        return [('denotes-that-many-%s' % LONG[u], And(*[one(t, u, ctx[k, s]) for (k, s), ts in out.value.items() if k == u for t in ts])) for u in UNITS]


class AgainstColumn(Contract):
    """which spans and times can be compared with which columns"""
    target = 'featuretools.utils.wrangle:_check_time_against_column'
    kind = 'td'

    def name(self):
        return '_check_time_against_column/' + self.kind

    def setup(self, P):
        from featuretools.variable_types import Variable
        col = P.make(Ref(Variable), 'column')
        t, has = None, {}
        if self.kind == 'td':
            t, has, val = td(P)
        elif self.kind == 'number':
            t = P.make(REAL, 'time')
        elif self.kind == 'text':
            t = P.make(STR, 'time')
        return [t, col], {}, (col, has)

    def post(self, P, ctx, out):
        from featuretools import variable_types as vt
        col, has = ctx
        if out.kind == 'raise':
            return [('does-not-raise', False)]
        got = B(P.truth(out.value))
        if self.kind == 'none':
            return [('no-time-suits-every-column', got)]
        if self.kind == 'text':
            return [('text-suits-no-column', Not(got))]
        if self.kind == 'number':
            return [('numbers-suit-numeric-columns', Iff(got, is_a(P, col, vt.Numeric)))]
        time = is_a(P, col, vt.Datetime, vt.DatetimeTimeIndex)
        num = is_a(P, col, vt.Numeric, vt.Ordinal, vt.TimeIndex)
        return [('spans-of-time-suit-datetime-columns-observations-also-numeric-ones', Iff(got, Or(time, And(num, has['o']))))]


AgainstNumber = type('AgainstNumber', (AgainstColumn,), {'kind': 'number'})
AgainstText = type('AgainstText', (AgainstColumn,), {'kind': 'text'})
AgainstNone = type('AgainstNone', (AgainstColumn,), {'kind': 'none'})

CONTRACTS = [IsAbsolute, HasNoObservations, HasMultipleUnits, Eq, EqOther, Neg, RoundTrip, Shift, ShiftBack, Spelling, AgainstColumn,
             AgainstNumber, AgainstText, AgainstNone]
