"""Which rows a query may use."""
from chelp import *
from flowsettings import for_settings
import pandas as pd
from pdmodel import FrameV, SerV, fresh_frame, fresh_series, num_of, null_of, nan_cell
from featuretools.entityset.entityset import EntitySet
from featuretools.entityset.entity import Entity
from featuretools.entityset.timedelta import Timedelta
from featuretools.entityset.relationship import Relationship
from featuretools.computational_backends.feature_set_calculator import FeatureSetCalculator
MOD = 'featuretools.entityset.entityset:'
ROW = z3.Const('row!any', Obj)


def span(P, nm):
    return P.born(ObjV(Timedelta, {'times': DictV([Piece((), True, ('d', P.make(REAL, nm + '_days')))]), 'delta_obj': P.make(ANY, nm + '_span')}))


class World(object):
    """an entity with an arbitrary frame, time index (or none), last time index (or none) and secondary time indexes"""
    def __init__(self, P, window=True):
        self.P = P
        self.df = fresh_frame(P, 'df')
        self.df0 = self.df.clone(P)
        ti = P.make(Opt(STR), 'time_index')
        self.ti = ti
        if ti is not None:
            P.assume(z3.Not(B(P.py_eq(ti, ''))))
        lti = None
        if P.decide(P.make(BOOL, 'has_last_time_index')):
            lti = fresh_series(P, 'last_time_index', 'cell')
            # one value per label of the entity
            x, y = z3.Consts('row!x row!y', Obj)
            P.assume(z3.ForAll([x, y], z3.Implies(z3.And(lti.rows(x), lti.rows(y), lti.label(x) == lti.label(y)), x == y)))
        self.lti = lti
        # secondary time indexes: name(i) -> columns(i), none of them governed by another one
        self.names = P.fresh_list(STR, 'secondary')
        self.cols = P.fresh_list(Lst(STR), 'governed')
        n = P.length(self.names)
        i, j = z3.Ints('i!s j!s')
        P.assume(P.length(self.cols) == n)
        nm, cs = self.names.at, self.cols.at
        P.assume(z3.ForAll([i, j], z3.Implies(z3.And(i >= 0, i < n, j >= 0, j < n, i != j),
                                              z3.And(P.term(nm(i)) != P.term(nm(j)), z3.Not(B(P.quiet(lambda: P.contains(cs(j), nm(i)))))))))
        k = z3.Int('i!d')
        d = DictV([Piece((k,), z3.And(k >= 0, k < n), (nm(k), cs(k)))])
        self.dt = P.born(ObjV(Entity, {'id': P.make(STR, 'entity_id'), 'time_index': ti, 'last_time_index': lti,
                                       'secondary_time_index': P.born(d), '_index_name': None}))
        self.es = P.born(ObjV(EntitySet, {'id': 'es'}))
        self.time = P.make(ANY, 'time_last') if P.decide(P.make(BOOL, 'has_cutoff')) else None
        if self.time is not None:
            P.assume(P.term(self.time) != P.NONE)
            P.assume(z3.Not(null_of(P, self.time.term)))
        self.inc = P.make(BOOL, 'include_cutoff_time')
        self.w = span(P, 'window') if window and P.decide(P.make(BOOL, 'has_window')) else None
        if self.w is not None and self.time is not None:
            # the window starts at a time
            P.assume(z3.Not(null_of(P, P.call_uf('op:Sub', [self.time, P.getattr(self.w, 'delta_obj')], ANY).term)))

    def t(self):
        return num_of(self.P, self.time.term)

    def start(self):
        P = self.P
        return num_of(P, P.call_uf('op:Sub', [self.time, P.getattr(self.w, 'delta_obj')], ANY).term)

    def before(self, c):
        """cell c is a time the cutoff allows"""
        P = self.P
        return z3.And(z3.Not(null_of(P, c)), z3.If(self.inc, num_of(P, c) <= self.t(), num_of(P, c) < self.t()))

    def recent(self, c):
        P = self.P
        return z3.And(z3.Not(null_of(P, c)), z3.If(self.inc, num_of(P, c) > self.start(), num_of(P, c) >= self.start()))

    def lti_recent(self, r):
        """the last time index of the row lies in the window"""
        if self.lti is None:
            return False
        x = z3.Const('row!lti', Obj)
        return z3.Exists([x], z3.And(self.lti.rows(x), self.lti.label(x) == self.df0.label(r), self.recent(self.lti.val(x))))

    def hidden(self, k, r, upto):
        """some secondary time index governing column k has not passed for row r"""
        P = self.P
        if self.time is None:
            return False
        i = z3.Int('i!h')
        c = self.df0.cell(P, self.names.at(i), r)
        gov = B(P.quiet(lambda: P.contains(self.cols.at(i), k)))
        return z3.Exists([i], z3.And(i >= 0, i < upto, gov, z3.Not(null_of(P, c)), num_of(P, c) >= self.t()))


def secondary_loop(I, s, env, it):
    """loop over the secondary time indexes.  Invariant: the same rows, and exactly the columns of the ones passed so far are hidden"""
    W = I.world
    df = env.vars['df']
    rows, n = df.rows, I.length(W.names)
    key = I.make(STR, 'column!any')
    base = df.attrs['col']

    def inv(frame, j):
        c = frame.cell(I, key, ROW)
        return z3.ForAll([ROW], z3.Implies(B(rows(ROW)), z3.And(
            B(frame.rows(ROW)), c == z3.If(B(W.hidden(key, ROW, j)), nan_cell(I), base(key, ROW))))), \
            z3.ForAll([ROW], z3.Implies(B(frame.rows(ROW)), B(rows(ROW))))
    for f in inv(df, z3.IntVal(0)):
        I.oblige('secondary-loop-invariant-holds-at-entry', f)
    # an arbitrary iteration
    j = I.fresh('iteration', z3.IntSort())
    I.assume(z3.And(j >= 0, j < n))
    fcell = I.fn('loop_cell!%d' % I.tag(), Obj, Obj, Obj)
    k2 = z3.Const('column!q', Obj)
    cur = I.born(FrameV(rows, lambda k, r: fcell(I.term(k), r), df.attrs['cols'], df.label))
    hid = lambda k, r, u: B(W.hidden(k, r, u))
    I.assume(z3.ForAll([ROW, k2], z3.Implies(B(rows(ROW)), fcell(k2, ROW) == z3.If(hid(RefV(str, k2), ROW, j), nan_cell(I), base(RefV(str, k2), ROW)))))

    def body():
        I.set_env(env, 'df', cur)
        I.assign(s.target, (W.names.at(j), W.cols.at(j)), env)
        try:
            I.block(s.body, env)
        except Exception as e:
            if type(e).__name__ in ('BreakSig', 'ReturnSig'):
                raise Unsupported('exit from the secondary loop')
            if type(e).__name__ != 'ContinueSig':
                raise
        after = I.lookup('df', env)
        for f in inv(after, j + 1):
            I.oblige('secondary-loop-invariant-is-kept', f)
        I.oblige('secondary-loop-leaves-the-frame-it-was-given', cur.attrs['col'] is cur0[0] and cur.attrs['rows'] is rows)
    cur0 = [cur.attrs['col']]
    hook, I.on_path = I.on_path, None
    try:
        I.explore(body)
    finally:
        I.on_path = hook
    # after the loop
    gcell = I.fn('after_cell!%d' % I.tag(), Obj, Obj, Obj)
    fin = I.born(FrameV(rows, lambda k, r: gcell(I.term(k), r), df.attrs['cols'], df.label))
    I.assume(z3.ForAll([ROW, k2], z3.Implies(B(rows(ROW)), gcell(k2, ROW) == z3.If(hid(RefV(str, k2), ROW, n), nan_cell(I), base(RefV(str, k2), ROW)))))
    I.set_env(env, 'df', fin)


class HandleTime(Contract):
    target = MOD + 'EntitySet._handle_time'

    def specs(self):
        return {EntitySet: {'__getitem__': ('model', lambda I, v, k: I.world.dt)}}

    def loop_specs(self):
        return {('EntitySet._handle_time', 0): secondary_loop}

    def setup(self, P):
        W = P.world = World(P)
        return [W.es, W.dt.attrs['id'], W.df], {'time_last': W.time, 'training_window': W.w, 'include_cutoff_time': W.inc}, W

    def common(self, P, W, out):
        if out.kind == 'raise':
            return None, [('does-not-raise', False)]
        f = out.value
        kept = B(f.rows(ROW))
        there = B(W.df0.rows(ROW))
        return (f, kept, there), []

    def cell(self, W):
        return W.df0.cell(W.P, W.ti, ROW)

    def post(self, P, W, out):
        x, fs = self.common(P, W, out)
        return fs if x is None else self.claims(P, W, fs, *x)

    def claims(self, P, W, fs, f, kept, there):
        fs = [('only-rows-of-the-frame', z3.Implies(kept, there))]
        if W.ti is not None and W.time is not None:
            c = self.cell(W)
            fs.append(('no-row-after-the-cutoff', z3.Implies(kept, W.before(c))))
            if W.w is None:
                fs.append(('every-row-up-to-the-cutoff', z3.Implies(z3.And(there, W.before(c)), kept)))
        elif W.time is None or W.ti is None:
            fs.append(('every-row-without-a-cutoff-or-time-index', z3.Implies(there, kept)))
        return fs

    def cover(self, P, W, out):
        if out.kind == 'raise':
            return []
        k = B(out.value.rows(ROW))
        fs = [('row kept', k)]
        if W.ti is not None and W.time is not None:
            fs.append(('row dropped', z3.And(B(W.df0.rows(ROW)), z3.Not(k))))
        return fs


HT = 'EntitySet._handle_time'


def handled(P, r, time, window, inc):
    """what the contract of _handle_time says about keeping row r (proved by HandleTime and HandleTimeWindow)"""
    f = P.fn('rows_kept_by_handle_time', Obj, Obj, Obj, z3.BoolSort(), z3.BoolSort())
    return f(r, P.term(time), P.term(window), B(inc))


class QueryByValues(Contract):
    target = MOD + 'EntitySet.query_by_values'

    def specs(self):
        return {EntitySet: {'__getitem__': ('model', lambda I, v, k: I.dt)}}

    def contracts(self):
        spec = fnref(MOD + HT)

        def m(P, args, kwargs):
            ba = inspect.signature(spec).bind(*args, **kwargs)
            ba.apply_defaults()
            a = ba.arguments
            df = a['df']
            # precondition: the rows are labelled by the index of the entity, as its last time index is
            P.oblige('rows-handed-on-carry-their-index', z3.Implies(B(df.rows(ROW)), df.label(ROW) == P.df0.cell(P, P.dt.attrs['index'], ROW)))
            P.oblige('time-is-handled-for-the-entity-asked', P.py_eq(a['entity_id'], P.dt.attrs['id']))
            rows = df.rows
            hrow = lambda r: handled(P, r, a['time_last'], a['training_window'], P.truth(a['include_cutoff_time']))
            cell = P.fn('cell_after_handle_time', Obj, Obj, Obj, Obj)
            P.hidden = lambda k, r: cell(P.term(k), r, df.cell(P, k, r))
            return df.clone(P, rows=lambda r: B(And(rows(r), hrow(r))), col=P.hidden)
        return {spec: m}

    def setup(self, P):
        df = fresh_frame(P, 'df')
        P.df0 = df.clone(P)
        P.dt = P.born(ObjV(Entity, {'id': P.make(STR, 'entity_id'), 'df': df, '_index_name': None, 'index': P.make(STR, 'index')}))
        r = z3.Const('row!q', Obj)
        P.assume(z3.ForAll([r], df.label(r) == df.cell(P, P.dt.attrs['index'], r)))
        self.es = P.born(ObjV(EntitySet, {'id': 'es'}))
        kind = 'none' if P.decide(P.make(BOOL, 'all_instances')) else 'series' if P.decide(P.make(BOOL, 'series')) else 'list'
        vals = {'none': lambda: None, 'series': lambda: fresh_series(P, 'vals', 'cell'), 'list': lambda: P.fresh_list(ANY, 'vals')}[kind]()
        var = P.make(Opt(STR), 'variable')
        if var is not None:
            P.assume(z3.Not(B(P.py_eq(var, ''))))
        cols = P.make(Opt(Lst(STR)), 'columns')
        time = P.make(ANY, 'time_last')
        win = span(P, 'window') if P.decide(P.make(BOOL, 'has_window')) else None
        inc = P.make(BOOL, 'include_cutoff_time')
        return [self.es, P.dt.attrs['id'], vals], dict(variable_id=var, columns=cols, time_last=time, training_window=win, include_cutoff_time=inc), \
            (kind, vals, var, cols, time, win, inc, dict(df.attrs), df)

    def post(self, P, ctx, out):
        kind, vals, var, cols, time, win, inc, attrs, df = ctx
        if out.kind == 'raise':
            return [('does-not-raise', False)]
        f = out.value
        c = P.df0.cell(P, P.dt.attrs['index'] if var is None else var, ROW)
        if kind == 'none':
            sel = z3.BoolVal(True)
        elif kind == 'series':
            x = z3.Const('row!v', Obj)
            sel = z3.Exists([x], z3.And(B(vals.rows(x)), z3.Not(B(vals.null(x))), vals.val(x) == c))
        else:
            i = z3.Int('i!v')
            sel = z3.And(z3.Not(null_of(P, c)), z3.Exists([i], z3.And(i >= 0, i < P.length(vals), P.term(vals.at(i)) == c)))
        want = z3.And(B(P.df0.rows(ROW)), sel, handled(P, ROW, time, win, inc))
        k = P.make(STR, 'column!any')
        return [('rows-asked-for-and-allowed-by-the-cutoff', B(f.rows(ROW)) == want),
                ('rows-carry-their-index', z3.Implies(B(f.rows(ROW)), f.label(ROW) == P.df0.cell(P, P.dt.attrs['index'], ROW))),
                ('columns-asked-for', True if cols is None else Iff(B(f.attrs['cols'](k)), B(P.contains(cols, k)))),
                ('the-entity-is-not-modified', z3.And(*[z3.BoolVal(df.attrs[a] is attrs[a]) for a in ('rows', 'col', 'label')]))]

    def cover(self, P, ctx, out):
        if out.kind == 'raise':
            return []
        k = B(out.value.rows(ROW))
        return [('row returned from ' + ctx[0], k), ('row left out from ' + ctx[0], z3.And(B(P.df0.rows(ROW)), z3.Not(k)))]


CONTRACTS = [HandleTime, QueryByValues] + for_settings('L01', 'time', 'inc', 'calc', 'es', 'one_time')
