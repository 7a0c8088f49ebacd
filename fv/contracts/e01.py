"""An entity's table and its declared columns: what creating, updating and indexing it does to each."""
from flow import *
from values import LibV, ModelV
import pandas as pd
from dask import dataframe as dd
from featuretools.entityset.entity import Entity
from featuretools.entityset.entityset import EntitySet
from featuretools.variable_types import Variable
from featuretools import variable_types as vtypes
MOD = 'featuretools.entityset.entity:'
EN = MOD + 'Entity.'


class Ghost(object):
    """what has been done to the table"""


def frame_class(P):
    return pd.DataFrame if P.decide(P.make(BOOL, 'pandas')) else dd.DataFrame


class CreateIndex(Flow):
    """the index is the column named, the first one, or a new column of distinct integers; nothing else is written"""
    target = MOD + '_create_index'

    def start(self, P):
        cls = frame_class(P)
        cols = P.fresh_list(STR, 'columns')
        g = P.born(ObjV(Ghost, {'made': 0, 'counted': 0, 'ones': 0, 'name': None}))
        n = P.make(INT, 'rows')
        P.assume(And(n >= 0, P.length(cols) > 0))
        idx = P.make(Opt(STR), 'index')
        add = lambda k: P.set_attr(g, k, g.attrs[k] + 1)

        def insert(I, a, k):
            I.oblige('the-new-column-is-the-first', I.py_eq(a[0], 0))
            I.oblige('the-new-column-is-the-index', I.py_eq(a[1], idx))
            v = a[2]
            ok = getattr(v, 'rng', None)
            if ok is None and isinstance(v, ListV) and len(v.pieces) == 1 and len(v.pieces[0].vars) == 1:
                p = v.pieces[0]
                ok = And(ForAll(p.vars, Iff(B(p.guard), z3.And(p.vars[0] >= 0, p.vars[0] < n))), ForAll(p.vars, Implies(p.guard, I.py_eq(p.value, p.vars[0]))))
            if ok is None:
                raise Unsupported('values of the new column not followed')
            I.oblige('rows-are-numbered-from-zero', ok)
            add('made')

        def write(I, a, k):
            I.oblige('the-new-column-is-the-index', I.py_eq(a[0], idx))
            v = getattr(a[1], 'why', a[1])
            if cls is pd.DataFrame:
                raise Unsupported('column written another way')
            if v == 1:
                add('ones')
            elif v == 'running count':
                I.oblige('numbers-count-ones', g.attrs['ones'] >= 1)
                add('made')
            else:
                raise Unsupported('column written another way')
        ones = LibV('column', None, {'cumsum': ModelV('cumsum', lambda I, a, k: LibV('running count'))})
        df = LibV('data', cls, {'columns': cols, 'insert': ModelV('insert', insert), '__setitem__': ModelV('write', write), '__len__': ModelV('len', lambda I, a, k: n),
                                '__getitem__': ModelV('column', lambda I, a, k: ones)})
        make = P.make(BOOL, 'make_index')
        return [idx, make, df], {}, dict(cls=cls, cols=cols, idx=idx, make=make, df=df, g=g)

    def post(self, P, c, out):
        none, made = P.is_none(c['idx']), c['g'].attrs['made']
        there = P.contains(c['cols'], c['idx'])
        if out.kind == 'raise':
            return [('refused-only-with-a-reason', And(c['make'], Or(none, there)))]
        created, index, df = out.value
        first = P.quiet(lambda: P.getitem(c['cols'], 0))
        return [('accepted-only-without-a-reason-to-refuse', Not(And(c['make'], Or(none, there)))),
                ('index-is-the-column-named-or-the-first', Or(And(none, P.py_eq(index, first)), And(Not(none), P.py_eq(index, c['idx'])))),
                ('a-column-is-made-exactly-when-there-is-none', Iff(made == 1, And(Not(none), Not(there)))),
                ('at-most-one-column-is-made', made <= 1),
                ('what-was-made-is-reported', Iff(Not(P.is_none(created)), made == 1)),
                ('made-column-is-the-index', Implies(Not(P.is_none(created)), P.py_eq(created, index))),
                ('the-table-is-the-one-given', df is c['df'])]

    def cover(self, P, c, out):
        return [('refused', out.kind == 'raise'), ('made', c['g'].attrs['made'] == 1), ('there', out.kind != 'raise' and c['g'].attrs['made'] == 0)]


class Validate(Flow):
    """a table is accepted only when its id and column names are strings, no two the same, and the time index is one of them"""
    target = MOD + '_validate_entity_params'

    def start(self, P):
        cols = P.fresh_list(ANY, 'columns')
        t = P.make(Opt(STR), 'time_index')
        i = P.make(ANY, 'id')
        return [i, LibV('data', None, {'columns': cols}), t], {}, dict(cols=cols, t=t, id=i)

    def post(self, P, c, out):
        cols, t = c['cols'], c['t']
        isstr = lambda x: P.isinstance_(x, str)
        there = Or(P.is_none(t), P.contains(cols, t))
        ok = And(isstr(c['id']), P.length(cols) == P.length(P.quiet(lambda: P.call(P.lift(set), [cols], {}))), forall(P, cols, isstr), there)
        return [('refused-exactly-with-a-reason', Iff(out.kind != 'raise', ok))]

    def cover(self, P, c, out):
        return [('refused', out.kind == 'raise'), ('accepted', out.kind != 'raise')]


class OfEntity(Flow):
    """an entity whose table is `data`; what is done to it by the methods of the entity is recorded"""

    def entity(self, P, cols=None, **kw):
        self.g = P.born(ObjV(Ghost, {'indexed': 0, 'timed': 0, 'second': 0, 'reset': 0, 'last': 0}))
        vs = P.fresh_list(Ref(Variable), 'variables')
        a = {'id': P.make(STR, 'id'), 'variables': vs, 'index': P.make(STR, 'index'), 'time_index': P.make(Opt(STR), 'time_index'),
             'secondary_time_index': LibV('secondary'), 'data': P.born(DictV([Piece((), True, ('df', LibV('old data'))), Piece((), True, ('last_time_index', P.make(ANY, 'last times')))]))}
        a.update(kw)
        return P.born(ObjV(Entity, a))

    def did(self, P, k):
        P.set_attr(self.g, k, self.g.attrs[k] + 1)


class Update(OfEntity):
    """new data are refused, or become the table with its columns in the order of the variables, indexed, sorted unless declared sorted"""
    target = EN + 'update_data'

    def calls(self):
        def index(P, a):
            P.oblige('the-new-table-is-indexed', self.stored(P, a['self']))
            P.oblige('its-index-is-kept', P.py_eq(a['variable_id'], P.flow['index']))
            self.did(P, 'indexed')
        def time(P, a):
            P.oblige('the-new-table-is-sorted', self.stored(P, a['self']))
            P.oblige('its-time-index-is-kept', P.py_eq(a['variable_id'], P.flow['time']))
            P.oblige('sorted-unless-declared-sorted', Iff(P.truth(a['already_sorted']), P.flow['sorted']))
            self.did(P, 'timed')
        def second(P, a):
            P.oblige('its-secondary-time-index-is-kept', getattr(a['secondary_time_index'], 'why', '') == 'secondary')
            self.did(P, 'second')
        def last(P, a):
            self.did(P, 'last')
        return {EN + 'set_index': (index, {}), EN + 'set_time_index': (time, {}), EN + 'set_secondary_time_index': (second, {}),
                'featuretools.entityset.entityset:EntitySet.add_last_time_indexes': (last, {}),
                'featuretools.entityset.entityset:EntitySet.reset_data_description': (lambda P, a: self.did(P, 'reset'), {})}

    def stored(self, P, e):
        return getattr(P.getattr(e, 'df'), 'why', None) == 'new data'

    def start(self, P):
        cols = P.fresh_list(STR, 'columns')

        def pick(I, a, k):
            x = a[0]
            if not isinstance(x, ListV):
                return LibV('column')
            r = LibV('new data', pd.DataFrame)
            r.cols = x
            return r
        e = self.entity(P, entityset=P.born(ObjV(EntitySet, {'id': 'es'})))
        df = LibV('given data', pd.DataFrame, {'columns': cols, '__getitem__': ModelV('pick', pick)})
        s, r = P.make(BOOL, 'already_sorted'), P.make(BOOL, 'recalculate')
        return [e, df], dict(already_sorted=s, recalculate_last_time_indexes=r), \
            dict(e=e, cols=cols, vs=e.attrs['variables'], index=e.attrs['index'], time=e.attrs['time_index'], sorted=s, recalc=r, lti=P.getattr(e, 'last_time_index'), g=self.g)

    def post(self, P, c, out):
        vs, cols, g = c['vs'], c['cols'], c['g'].attrs
        same_ = And(P.length(cols) == P.length(vs), forall(P, vs, lambda v: P.contains(cols, P.getattr(v, 'id'))))
        if out.kind == 'raise':
            return [('refused-only-with-a-reason', Not(same_)), ('refused-without-changing-the-table', getattr(P.getattr(c['e'], 'df'), 'why', None) == 'old data')]
        d = P.getattr(c['e'], 'df')
        now = getattr(d, 'cols', None)
        if now is None or len(now.pieces) != 1 or len(now.pieces[0].vars) != 1:
            raise Unsupported('the stored table was not followed')
        i = z3.Int('column~%d' % P.tag())
        nth = lambda l: subst(Piece((), l.pieces[0].guard, l.pieces[0].value), [(l.pieces[0].vars[0], i)])
        return [('accepted-only-when-the-columns-agree', same_),
                ('one-column-per-variable-in-order', And(ForAll([i], Iff(B(nth(now).guard), z3.And(i >= 0, i < P.length(vs)))),
                                                         ForAll([i], Implies(nth(now).guard, P.py_eq(nth(now).value, P.getattr(nth(vs).value, 'id')))))),
                ('the-variables-are-kept', c['e'].attrs['variables'] is vs),
                ('indexed-again', g['indexed'] == 1), ('sorted-again', Iff(g['timed'] == 1, Not(P.is_none(c['time'])))), ('secondary-time-index-set-again', g['second'] == 1),
                ('last-times-follow', Iff(g['last'] == 1, And(c['recalc'], Not(P.is_none(c['lti']))))), ('description-is-reset', g['reset'] >= 1)]

    def cover(self, P, c, out):
        return [('refused', out.kind == 'raise'), ('accepted', out.kind != 'raise')]


class SetIndex(OfEntity):
    """the index labels the rows, is unique unless that is waived, and is a variable of type Index"""
    target = EN + 'set_index'

    def calls(self):
        def convert(P, a):
            P.oblige('the-column-is-declared-an-index', And(P.py_eq(a['variable_id'], P.flow['var']), a['new_type'] is vtypes.Index))
            P.oblige('data-are-not-converted', Not(P.truth(a['convert_data'])))
            self.did(P, 'indexed')
        return {EN + 'convert_variable_type': (convert, {})}

    def start(self, P):
        var, unique, ok = P.make(STR, 'variable_id'), P.make(BOOL, 'unique'), P.make(BOOL, 'labels are unique')
        self.by = {}

        def frame(state):
            def set_index(I, a, k):
                x = a[0] if a else k['keys']
                by = getattr(x, 'by', x)
                I.oblige('rows-are-labelled-with-the-column', False if isinstance(by, LibV) else I.py_eq(by, var))
                I.oblige('the-column-stays', k.get('drop', True) is False)
                if k.get('inplace'):
                    raise Unsupported('set in place')
                return frame('labelled')

            def column(I, a, k):
                r = LibV('column')
                r.by = a[0]
                return r
            labels = LibV('labels', None, {'is_unique': ok, 'name': None})
            return LibV(state, pd.DataFrame, {'set_index': ModelV('set_index', set_index), '__getitem__': ModelV('column', column), 'index': labels})
        e = self.entity(P)
        cls = P.decide(P.make(BOOL, 'pandas'))
        df = frame('old') if cls else LibV('old', dd.DataFrame)
        e.attrs['data'].pieces[0] = Piece((), True, ('df', df))
        return [e, var], {'unique': unique}, dict(e=e, var=var, unique=unique, ok=ok, pandas=cls, g=self.g)

    def post(self, P, c, out):
        e = c['e']
        if out.kind == 'raise':
            return [('refused-only-when-not-unique', And(c['pandas'], c['unique'], Not(c['ok'])))]
        return [('accepted-only-when-unique', Or(not c['pandas'], Not(c['unique']), c['ok'])), ('rows-are-labelled', Or(not c['pandas'], getattr(P.getattr(e, 'df'), 'why', '') == 'labelled')),
                ('declared-an-index', c['g'].attrs['indexed'] == 1), ('it-is-the-index', P.py_eq(e.attrs['index'], c['var']))]

    def cover(self, P, c, out):
        return [('refused', out.kind == 'raise'), ('accepted', out.kind != 'raise')]


class SetTimeIndex(OfEntity):
    """a time index has the kind of time of the entityset; rows are sorted by it and then by index unless declared sorted"""
    target = EN + 'set_time_index'

    def calls(self):
        def convert(P, a):
            t = a['new_type']
            P.oblige('the-column-is-declared-a-time-index', And(P.py_eq(a['variable_id'], P.flow['var']), self.is_type(P, t)))
            P.oblige('data-are-not-converted', Not(P.truth(a['convert_data'])))
            self.did(P, 'indexed')
        def kind(P, a):
            return P.flow['kind']
        return {EN + 'convert_variable_type': (convert, {}), MOD + '_check_time_type': (kind, {}),
                MOD + 'col_is_datetime': (lambda P, a: P.flow['dates'], {})}

    def is_type(self, P, t):
        f = P.flow
        if not f['pandas']:
            return P.py_eq(t, f['kind'])
        return Or(And(f['dates'], P.py_eq(t, vtypes.DatetimeTimeIndex)), And(Not(f['dates']), P.py_eq(t, vtypes.NumericTimeIndex)))

    def start(self, P):
        var, srt = P.make(STR, 'variable_id'), P.make(BOOL, 'already_sorted')
        none, old = P.decide(P.make(BOOL, 'kind of time is not known')), P.decide(P.make(BOOL, 'the entityset has a kind of time'))
        kind = None if none else (vtypes.DatetimeTimeIndex if P.decide(P.make(BOOL, 'dates')) else vtypes.NumericTimeIndex)
        had = (vtypes.DatetimeTimeIndex if P.decide(P.make(BOOL, 'dates before')) else vtypes.NumericTimeIndex) if old else None
        es = P.born(ObjV(EntitySet, {'id': 'es', 'time_type': had}))
        e = self.entity(P, entityset=es)

        def sort_values(I, a, k):
            by = a[0] if a else k['by']
            if set(k) - {'by'} or len(a) > 1 or not isinstance(by, (ListV, list)):
                raise Unsupported('sorted another way')
            vals = [p.value for p in by.pieces] if isinstance(by, ListV) else by
            I.oblige('sorted-by-time-and-then-index', And(I.py_eq(vals[0], var), I.py_eq(vals[1], e.attrs['index'])) if len(vals) == 2 else False)
            return LibV('sorted', pd.DataFrame)
        pandas = P.decide(P.make(BOOL, 'pandas'))
        df = LibV('old', pd.DataFrame, {'sort_values': ModelV('sort_values', sort_values), 'empty': P.make(BOOL, 'empty'), '__getitem__': ModelV('column', lambda I, a, k: LibV('column'))}) if pandas else LibV('old', dd.DataFrame)
        e.attrs['data'].pieces[0] = Piece((), True, ('df', df))
        e.attrs['__getitem__'] = ModelV('variable', lambda I, a, k: LibV('variable', None, {'_default_pandas_dtype': object}))
        return [e, var], {'already_sorted': srt}, dict(e=e, es=es, var=var, sorted=srt, kind=kind, had=had, dates=P.make(BOOL, 'column has dates'), pandas=pandas, g=self.g)

    def post(self, P, c, out):
        e, why = c['e'], getattr(P.getattr(c['e'], 'df'), 'why', '')
        bad = c['kind'] is None or (c['had'] is not None and c['had'] is not c['kind'])
        if out.kind == 'raise':
            return [('refused-only-for-another-kind-of-time', bad), ('refused-without-touching-the-table', why == 'old')]
        if why not in ('old', 'sorted'):
            raise Unsupported('the stored table was not followed')
        return [('accepted-only-with-the-kind-of-time-of-the-entityset', not bad), ('the-entityset-has-that-kind-of-time', c['es'].attrs['time_type'] is c['kind']),
                ('sorted-unless-declared-sorted', Or(why == 'sorted', c['sorted'], not c['pandas'])), ('not-sorted-when-declared-sorted', Or(why == 'old', Not(c['sorted']))),
                ('declared-a-time-index', c['g'].attrs['indexed'] == 1), ('it-is-the-time-index', P.py_eq(e.attrs['time_index'], c['var']))]

    def cover(self, P, c, out):
        return [('refused', out.kind == 'raise'), ('accepted', out.kind != 'raise')]


class Convert(OfEntity):
    """declaring a column anew replaces its variable, in place, by one of the new type made from it; the others stay"""
    target = EN + 'convert_variable_type'

    def calls(self):
        def data(P, a):
            P.oblige('only-that-column-is-converted', P.py_eq(a['column_id'], P.flow['var']))
            P.oblige('converted-to-the-new-type', a['new_type'] is P.flow['new_type'])
            P.oblige('the-table-is-the-one-converted', getattr(a['df'], 'why', '') == 'old data')
            return LibV('converted')
        return {MOD + 'convert_variable_data': (data, {})}

    def specs(self):
        return {Variable: {'__eq__': ('model', lambda P, a, b, deep=False: P.term(a) == P.term(b))}}

    def start(self, P):
        before, vs = three(P)
        e = self.entity(P, variables=vs)
        var, conv = P.make(STR, 'variable_id'), P.make(BOOL, 'convert_data')
        made = P.make(Ref(Variable), 'new variable')

        def create(I, a, k):
            I.oblige('made-from-the-variable-it-replaces', I.py_eq(I.getattr(a[0], 'id'), var))
            return made
        T = LibV('new type', None, {'create_from': ModelV('create_from', create)})
        return [e, var, T], {'convert_data': conv}, dict(e=e, var=var, conv=conv, new_type=T, before=before, made=made, vs=vs)

    def post(self, P, c, out):
        is_it = [B(P.py_eq(P.getattr(v, 'id'), c['var'])) for v in c['before']]
        if out.kind == 'raise':
            return [('refused-only-when-there-is-no-such-column', Not(Or(*is_it)))]
        now = c['e'].attrs['variables']
        if not now.concrete:
            raise Unsupported('the list of variables was not followed')
        now = [p.value for p in now.pieces]
        df = getattr(P.getattr(c['e'], 'df'), 'why', '')
        return [('accepted-only-when-there-is-such-a-column', Or(*is_it)), ('as-many-columns-as-before', len(now) == 3)] + \
            [('its-variable-is-replaced-in-place-and-the-others-stay', And(*[same(P, n, c['made']) if P.decide(t) else same(P, n, b) for n, b, t in zip(now, c['before'], is_it)]))] + \
            [('data-are-converted-when-asked', Iff(df == 'converted', c['conv']))]

    def name(self):
        return 'convert_variable_type [entities of three columns]'

    def cover(self, P, c, out):
        return [('refused', out.kind == 'raise'), ('accepted', out.kind != 'raise')]


def three(P):
    """three columns of an entity, of different names"""
    vs = [P.make(Ref(Variable), 'column %d' % i) for i in range(3)]
    for i in range(3):
        for j in range(i):
            P.assume(Not(P.py_eq(P.getattr(vs[i], 'id'), P.getattr(vs[j], 'id'))))
    return vs, P.born(ListV([Piece((), True, v) for v in vs]))


class Delete(OfEntity):
    """deleting columns takes exactly their variables from the entity and exactly those columns from its table"""
    target = EN + 'delete_variables'

    def name(self):
        return 'delete_variables [up to two of three columns]'

    def specs(self):
        return {Variable: {'__eq__': ('model', lambda P, a, b, deep=False: P.term(a) == P.term(b))}}

    def start(self, P):
        before, vs = three(P)
        e = self.entity(P, variables=vs)
        k = 2 if P.decide(P.make(BOOL, 'two')) else 1 if P.decide(P.make(BOOL, 'one')) else 0
        ids = [P.make(STR, 'deleted %d' % i) for i in range(k)]
        for d in ids:
            P.assume(Or(*[P.py_eq(P.getattr(v, 'id'), d) for v in before]))
        if k == 2:
            P.assume(Not(P.py_eq(ids[0], ids[1])))

        def drop(I, a, k):
            x = a[0] if a else k.get('columns', k.get('labels'))
            if not isinstance(x, ListV) or not x.concrete or set(k) - {'axis', 'columns', 'labels'}:
                raise Unsupported('dropped another way')
            got = [p.value for p in x.pieces]
            I.oblige('drops-columns', 'columns' in k or k.get('axis', a[1] if len(a) > 1 else 0) in (1, 'columns'))
            I.oblige('drops-those-columns', And(len(got) == len(ids), *[I.py_eq(g, d) for g, d in zip(got, ids)]))
            return LibV('dropped')
        df = LibV('old data', None, {'drop': ModelV('drop', drop)})
        e.attrs['data'].pieces[0] = Piece((), True, ('df', df))
        return [e, P.born(ListV([Piece((), True, d) for d in ids]))], {}, dict(e=e, before=before, ids=ids)

    def post(self, P, c, out):
        if out.kind == 'raise':
            return [('does-not-raise', False)]
        now = c['e'].attrs['variables']
        if not now.concrete:
            raise Unsupported('the list of variables was not followed')
        now = [p.value for p in now.pieces]
        stay = [v for v in c['before'] if not P.decide(Or(*[P.py_eq(P.getattr(v, 'id'), d) for d in c['ids']]) if c['ids'] else False)]
        return [('exactly-the-others-stay-in-order', len(now) == len(stay) and And(*[same(P, a, b) for a, b in zip(now, stay)])),
                ('the-table-loses-the-columns', (getattr(P.getattr(c['e'], 'df'), 'why', '') == 'dropped') == bool(c['ids']))]

    def cover(self, P, c, out):
        return [('some are deleted', bool(c['ids'])), ('none are deleted', not c['ids'])]



class CreateVariables(OfEntity):
    """each column gets one variable, of the type asked for or else inferred, and the index comes first, as an Index unless another type was asked for"""
    target = EN + '_create_variables'

    def name(self):
        return '_create_variables [three columns]'

    def models(self):
        return {pd.Series: lambda P, a, k: LibV('no values')}

    def calls(self):
        def infer(P, a):
            P.oblige('types-are-inferred-from-the-table', getattr(a['df'], 'why', '') == 'old data')
            # columns whose type is given are left out or not: both are allowed
            return P.born(DictV([Piece((), True, (n, vtypes.Categorical)) for n in P.flow['names'] if n is not P.flow['typed'] or P.flow['also']]))
        def conv(P, a):
            got = a['variable_types']
            P.oblige('data-are-converted-to-those-types', And(*[P.contains(got, n) for n in P.flow['names']]))
            return LibV('converted')
        return {MOD + 'infer_variable_types': (infer, {}), MOD + 'get_linked_vars': (None, {}), MOD + 'convert_all_variable_data': (conv, {}),
                MOD + 'find_variable_types': (lambda P, a: P.born(DictV([Piece((), True, ('numeric', vtypes.Numeric)), Piece((), True, ('unknown', vtypes.Unknown)), Piece((), True, ('categorical', vtypes.Categorical))])), {})}

    def start(self, P):
        names = ['first', 'second', 'third']
        index = names[0] if P.decide(P.make(BOOL, 'index is first')) else names[1] if P.decide(P.make(BOOL, 'index is second')) else names[2]
        typed, given, want = None, None, None
        if P.decide(P.make(BOOL, 'a type is asked for')):
            typed = names[1]
            given, want = ('numeric', vtypes.Numeric) if P.decide(P.make(BOOL, 'by name')) else (vtypes.Numeric, vtypes.Numeric) if P.decide(P.make(BOOL, 'by class')) else \
                ('unheard of', vtypes.Unknown) if P.decide(P.make(BOOL, 'by a wrong name')) else ((vtypes.Numeric, P.born(DictV([Piece((), True, ('name', 'other'))]))), vtypes.Numeric)
        types = P.born(DictV([Piece((), True, (typed, given))] if typed is not None else []))
        e = self.entity(P)
        del e.attrs['variables']
        e.attrs['entityset'], e.attrs['time_index'] = P.born(ObjV(EntitySet, {'id': 'es'})), None
        e.attrs['data'].pieces[0] = Piece((), True, ('df', LibV('old data', None, {'__contains__': ModelV('in', lambda I, a, k: True), '__getitem__': ModelV('column', lambda I, a, k: LibV('column', None, {'dtype': 'float64'}))})))
        return [e, types, index, LibV('time_index'), LibV('secondary')], {}, dict(e=e, names=names, index=index, typed=typed, want=want, also=P.decide(P.make(BOOL, 'all inferred')))

    def post(self, P, c, out):
        if out.kind == 'raise':
            return [('does-not-raise', False)]
        now = c['e'].attrs['variables']
        if not now.concrete or any(not isinstance(p.value, ObjV) for p in now.pieces):
            raise Unsupported('the list of variables was not followed')
        now = [p.value for p in now.pieces]
        ids = [v.attrs['id'] for v in now]
        posts = [('as-many-variables-as-columns', len(now) == 3), ('the-index-comes-first', P.py_eq(ids[0], c['index']) if ids else False),
                 ('a-variable-for-every-column', And(*[Or(*[P.py_eq(i, n) for i in ids]) for n in c['names']]))]
        for n in c['names']:
            want = c['want'] if n is c['typed'] else vtypes.Index if n is c['index'] else vtypes.Categorical
            posts.append(('of-the-type-asked-for-or-inferred', And(*[Implies(P.py_eq(v.attrs['id'], n), v.cls is want) for v in now])))
        return posts + [('variables-belong-to-the-entity', all(v.attrs.get('entity') is c['e'] for v in now))]

    def cover(self, P, c, out):
        return [('a type asked for', c['typed'] is not None), ('all inferred', c['typed'] is None)]


CONTRACTS = [CreateIndex, Validate, Update, SetIndex, SetTimeIndex, Convert, Delete, CreateVariables]
