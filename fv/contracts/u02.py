"""Cutoff times: which tables and values are accepted, and the tables made for several windows."""
from chelp import *
import datetime
import dask.dataframe as dd
import numpy as np
import pandas as pd
from featuretools.entityset.entity import Entity
from featuretools.variable_types import DatetimeTimeIndex, NumericTimeIndex, PandasTypes
MOD = 'featuretools.computational_backends.utils:'


class Table(pd.DataFrame):
    """what the functions may do to a table of cutoff times: a set of column names, the rest is left to the columns"""
    def reset_index(self, drop=False):
        if not drop:
            raise NotImplementedError
        return table(set(self.columns), self.own)

    def rename(self, columns, inplace=False):
        names = set(self.columns)
        for old, new in columns.items():
            if old in self.columns:
                names.discard(old)
                names.add(new)
        if not inplace:
            return table(names, self.own)
        if not self.own:
            caller_table_changed()
        self.columns = names

    def __getitem__(self, names):
        for n in names:
            if n not in self.columns:
                raise KeyError(n)
        return Rows(list(names))


def table(names, own):
    raise NotImplementedError


def caller_table_changed():
    raise NotImplementedError


class Rows(Sym):
    """some columns of the table, row by row"""
    def __init__(self, names):
        self.names = names


class Validate(Contract):
    target = MOD + '_validate_cutoff_time'

    def name(self):
        return '_validate_cutoff_time/table'

    def models(self):
        def new(P, a, k):
            return P.born(ObjV(Table, {'columns': a[0], 'own': True}))

        def rows(P, a, k):
            l = a[0]
            both = And(P.contains(l, 'instance_id'), P.contains(l, 'time')) if l.concrete and len(l.pieces) == 2 else False
            return P.born(ObjV('rows', {'of': both}))

        def changed(P, a, k):
            P.oblige('leaves-the-callers-table-alone', False)
        return {table: new, Rows: self.rows, caller_table_changed: changed}

    def rows(self, P, a, k):
        l = a[0]
        ok = And(P.contains(l, 'instance_id'), P.contains(l, 'time'))
        if ok is not True or len(l.pieces) != 2:
            raise Unsupported('other columns')
        dup = ModelV('duplicated', lambda I, a, k: self.dups(I, a, k))
        return P.born(ObjV(RowsOf, {'duplicated': dup}))

    def dups(self, P, a, k):
        if a or k:
            raise Unsupported('duplicated of other kinds')
        n = P.fn('number of repeated (instance, time) pairs', z3.IntSort())()
        P.assume(n >= 0)
        return P.born(ObjV(RowsOf, {'sum': ModelV('sum', lambda I, a, k: n), 'any': ModelV('any', lambda I, a, k: n > 0)}))

    def setup(self, P):
        e = P.make(Ref(Entity), 'target')
        cols = P.make(St(STR), 'columns')
        t = P.born(ObjV(Table, {'columns': cols, 'own': False}))
        has = lambda x: P.contains(cols, x)
        idx, ti = P.getattr(e, 'index'), P.getattr(e, 'time_index')
        c = {'id': has('instance_id'), 'time': has('time'), 'index': has(idx), 'ti?': P.is_none(ti), 'index is id': P.py_eq(idx, 'instance_id'),
             'e': e, 't': t}
        c['ti'] = And(Not(c['ti?']), has(ti))
        c['ti is time'] = And(Not(c['ti?']), P.py_eq(ti, 'time'))
        # the index and the time index are different columns; their names are not the two reserved ones the other way round
        P.assume(B(Not(Or(P.py_eq(idx, 'time'), And(Not(c['ti?']), Or(P.py_eq(ti, 'instance_id'), P.py_eq(ti, idx)))))))
        return [t, e], {}, c

    def post(self, P, c, out):
        n = P.fn('number of repeated (instance, time) pairs', z3.IntSort())()
        unnamed = Or(And(Not(c['id']), Not(c['index'])), And(Not(c['time']), Not(c['ti'])))
        twice = Or(And(c['id'], c['index'], Not(c['index is id'])), And(c['time'], c['ti'], Not(c['ti is time'])))
        if out.kind == 'raise':
            k = out.value.cls
            if k is AssertionError:
                return [('an-assertion-only-for-repeated-rows', And(n != 0, Not(unnamed), Not(twice)))]
            return [('refused-only-for-missing-or-ambiguous-columns', And(k in (AttributeError, KeyError), Or(unnamed, twice)))]
        v = out.value
        cols = v.attrs['columns']
        return [('accepted-only-with-both-columns', Not(unnamed)), ('accepted-only-without-ambiguity', Not(twice)), ('accepted-only-without-repetition', n == 0),
                ('has-an-instance-column', P.contains(cols, 'instance_id')), ('has-a-time-column', P.contains(cols, 'time'))]

    def cover(self, P, c, out):
        return [('accepted' if out.kind != 'raise' else 'refused: ' + out.value.cls.__name__, True)]


class RowsOf(object):
    pass


class ValidateOther(Contract):
    """anything but a table or a list is handed back as it is; a list is refused"""
    target = MOD + '_validate_cutoff_time'
    kind = 'value'

    def name(self):
        return '_validate_cutoff_time/' + self.kind

    def setup(self, P):
        x = P.fresh_list(ANY, 'times') if self.kind == 'list' else P.make(Ref(datetime.datetime), 'time') if self.kind == 'value' else P.make(INT, 'time')
        return [x, P.make(Ref(Entity), 'target')], {}, x

    def post(self, P, x, out):
        if self.kind == 'list':
            return [('lists-are-refused', out.kind == 'raise' and out.value.cls is TypeError)]
        if out.kind == 'raise':
            return [('does-not-raise', False)]
        return [('the-value-itself', P.py_eq(out.value, x) if is_z3(x) else P.term(out.value) == P.term(x))]


class CheckTable(Contract):
    """the type of the times has to be the entityset's"""
    target = MOD + '_check_cutoff_time_type'
    es_type = None

    def name(self):
        return '_check_cutoff_time_type/table/' + str(getattr(self.es_type, '__name__', None))

    def setup(self, P):
        name = P.make(STR, 'dtype')
        col = P.born(ObjV(RowsOf, {'dtype': P.born(ObjV(RowsOf, {'name': name}))}))
        return [P.born(DictV([Piece((), True, ('time', col))])), self.es_type], {}, name

    def post(self, P, name, out):
        ok = True
        if self.es_type is NumericTimeIndex:
            ok = Or(*[P.py_eq(name, d) for d in ('int16', 'int32', 'int64', 'float16', 'float32', 'float64')])
        elif self.es_type is DatetimeTimeIndex:
            ok = Or(*[P.py_eq(name, d) for d in ('datetime64[ns]', 'datetime64[ns, tz]')])
        if out.kind == 'raise':
            return [('refused-only-when-of-another-type', And(out.value.cls is TypeError, Not(ok)))]
        return [('accepted-only-when-of-the-type', ok)]

    def cover(self, P, c, out):
        return [(out.kind, True)]


class CheckTuple(Contract):
    target = MOD + '_check_cutoff_time_type'
    es_type = None

    def name(self):
        return '_check_cutoff_time_type/single time/' + str(getattr(self.es_type, '__name__', None))

    def contracts(self):
        def typ(P, a, k):
            P.oblige('looks-at-the-time', P.term(a[0]) == P.term(self.t))
            return self.typ
        return {fnref('featuretools.utils.wrangle:_check_time_type'): typ}

    def setup(self, P):
        self.t, ids = P.make(ANY, 'time'), P.make(ANY, 'ids')
        self.typ = [None, NumericTimeIndex, DatetimeTimeIndex][0 if P.decide(P.fresh('no type', z3.BoolSort())) else 1 if P.decide(P.fresh('number', z3.BoolSort())) else 2]
        return [(self.t, ids), self.es_type], {}, self.typ

    def post(self, P, typ, out):
        ok = self.es_type is None or typ is self.es_type
        if out.kind == 'raise':
            return [('refused-only-when-of-another-type', out.value.cls is TypeError and not ok)]
        return [('accepted-only-when-of-the-type', ok)]


class TimeType(Contract):
    """numbers are numeric times, dates are dates"""
    target = 'featuretools.utils.wrangle:_check_time_type'
    kind = None

    def name(self):
        return '_check_time_type/' + self.kind

    def models(self):
        def sub(P, a, k):
            if self.kind == 'other':
                return False
            raise Unsupported('issubdtype')
        return {np.issubdtype: sub}

    def setup(self, P):
        t = {'int': INT, 'float': REAL, 'datetime': Ref(datetime.datetime), 'datetime64': Ref(np.datetime64), 'other': Ref(RowsOf)}[self.kind]
        return [P.make(t, 'time')], {}, None

    def post(self, P, c, out):
        want = NumericTimeIndex if self.kind in ('int', 'float') else None if self.kind == 'other' else DatetimeTimeIndex
        return [('the-type-of-the-time', out.kind != 'raise' and out.value is want)]


# ------------------------------------------------------------ several windows
class Made(object):
    """a table being put together"""
    def __setitem__(self, k, v):
        self.cols[k] = v

    def __getitem__(self, k):
        return self.cols[k]


class Dates(object):
    def __len__(self):
        raise NotImplementedError


def how_many(P, d):
    n = P.fn('number of dates', Obj, z3.IntSort())(P.term(d))
    return z3.If(n >= 0, n, 0)


class Windows(Contract):
    """one table per instance: its windows end at its own cutoff time and carry its own id"""
    target = 'featuretools.utils.time_utils:make_temporal_cutoffs'
    given = ('window_size', 'num_windows')

    def name(self):
        return 'make_temporal_cutoffs/' + ' and '.join(self.given)

    def specs(self):
        return {Dates: {'__len__': ('model', lambda P, v: how_many(P, v))}}

    def models(self):
        def frame(P, cls, a, k):
            if a or k:
                raise Unsupported('table with data')
            return P.born(ObjV(Made, {'cols': P.born(DictV([]))}))

        def dates(P, a, k):
            if a or sorted(k) != ['end', 'freq', 'periods', 'start']:
                raise Unsupported('date_range of other kinds')
            return P.call_uf('date_range', [RefV('any', P.term(k[x])) for x in ('end', 'freq', 'periods', 'start')], Ref(Dates))

        def concat(P, a, k):
            if k or len(a) != 1:
                raise Unsupported('concat of other kinds')
            o = P.born(ObjV(RowsOf, {'parts': a[0], 'reset': False}))

            def reset(I, b, kk):
                if b or kk != {'drop': True}:
                    raise Unsupported('reset_index of other kinds')
                return I.born(ObjV(RowsOf, {'parts': a[0], 'reset': True}))
            o.attrs['reset_index'] = ModelV('reset_index', reset)
            return o
        return {pd.DataFrame: lambda P, a, k: frame(P, None, a, k), pd.date_range: dates, pd.concat: concat}

    def setup(self, P):
        ids, cut = P.fresh_list(ANY, 'ids'), P.fresh_list(REAL, 'cutoffs')
        P.assume(P.length(ids) == P.length(cut))
        k = {}
        if 'window_size' in self.given:
            k['window_size'] = P.make(REAL, 'window_size')
        if 'num_windows' in self.given:
            k['num_windows'] = P.make(INT, 'num_windows')
            P.assume(k['num_windows'] >= 2)
        if 'start' in self.given:
            k['start'] = P.fresh_list(REAL, 'start')
            P.assume(P.length(k['start']) == P.length(ids))
        return [ids, cut], k, (ids, cut, k)

    def post(self, P, ctx, out):
        ids, cut, k = ctx
        if len(self.given) == 3:
            return [('three-are-too-many', out.kind == 'raise' and out.value.cls is ValueError)]
        if out.kind == 'raise':
            return [('does-not-raise', False)]
        parts = out.value.attrs['parts']
        i = z3.Int('i!w')
        dom = z3.And(i >= 0, i < P.length(ids))
        ws, n = k.get('window_size'), k.get('num_windows')
        start = None
        if 'start' in k:
            if ws is None:
                ws = (cut.at(i) - k['start'].at(i)) / z3.ToReal(n - 1)
            else:
                start = k['start'].at(i)
        dates = P.call_uf('date_range', [RefV('any', P.term(x)) for x in (cut.at(i), ws, n, start)], Ref(Dates))
        cols = P.quiet(lambda: P.at_of(parts)(i)).attrs['cols']
        get = lambda c: P.quiet(lambda: P.getitem(cols, c))
        t, d = get('time'), get('instance_id')
        j = z3.Int('j!w')
        return [('one-table-per-instance', P.length(parts) == P.length(ids)), ('numbered-afresh', out.value.attrs['reset']),
                ('windows-of-its-own-cutoff', ForAll([i], Implies(dom, P.term(t) == P.term(dates)))),
                ('one-id-per-window', ForAll([i], Implies(dom, P.length(d) == how_many(P, dates)))),
                ('its-own-id', ForAll([i], Implies(dom, forall(P, d, lambda x: P.term(x) == P.term(ids.at(i))))))]


from contracts.f02 import variant
CONTRACTS = [Validate] + [variant(ValidateOther, 'Validate_' + k, kind=k) for k in ('value', 'number', 'list')] + \
    [variant(c, '%s_%s' % (c.__name__, getattr(t, '__name__', 'none')), es_type=t) for c in (CheckTable, CheckTuple) for t in (None, NumericTimeIndex, DatetimeTimeIndex)] + \
    [variant(TimeType, 'TimeType_' + k, kind=k) for k in ('int', 'float', 'datetime', 'datetime64', 'other')] + \
    [variant(Windows, 'Windows_%d' % i, given=g) for i, g in enumerate([('window_size', 'num_windows'), ('window_size', 'start'), ('num_windows', 'start'), ('window_size', 'num_windows', 'start')])]
