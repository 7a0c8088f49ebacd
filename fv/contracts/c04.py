"""Shape of the matrix: the columns of a run, and the rows of instances without data."""
from chelp import *
from flow import same
from flowsettings import Run, calculator
from dask import dataframe as dd
from values import LibV, ModelV, StrV
from featuretools.feature_base import feature_base as fb
from featuretools.computational_backends.feature_set_calculator import FeatureSetCalculator
from featuretools.computational_backends.feature_set import FeatureSet
from featuretools.entityset.entityset import EntitySet
import pandas as pd
FSC = 'featuretools.computational_backends.feature_set_calculator:FeatureSetCalculator.'


class DefaultRows(Contract):
    """an instance without data gets, in the column of every output of every feature, that feature's default"""
    target = FSC + 'generate_default_df'
    library = True

    def name(self):
        return 'generate_default_df'

    def specs(self):
        return {fb.FeatureBase: {'get_feature_names': Meth([], Lst(STR))}}

    def models(self):
        def frame(P, a, k):
            P.event('frame', (a[0], k.get('columns'), k.get('index')))
            return LibV('matrix', pd.DataFrame)
        frame.forced = True
        return {pd.DataFrame: frame}

    def setup(self, P):
        fs = P.fresh_list(Ref(fb.FeatureBase), 'features')
        n = P.make(INT, 'instances')
        P.assume(n >= 0)
        ids = LibV('ids', None, {'__len__': ModelV('len', lambda I, a, k: n)})
        c = P.born(ObjV(FeatureSetCalculator, {'feature_set': P.born(ObjV(FeatureSet, {'target_features': fs, 'target_eid': P.make(STR, 'target')})), 'entityset': LibV('es')}))
        return [c, ids], {}, (fs, ids, n)

    def post(self, P, ctx, out):
        if out.kind == 'raise':
            return [('does-not-raise', False)]
        fs, ids, n = ctx
        made = [e.value[1:] for e in P.events if e.value[0] == 'frame']
        if len(made) != 1:
            raise Unsupported('the rows are not made in one place')
        rows, cols, index = made[0]
        one = lambda l, n: l.pieces[0] if isinstance(l, ListV) and len(l.pieces) == 1 and len(l.pieces[0].vars) == n else None
        outer, c = one(rows, 1), one(cols, 2)
        r = one(outer.value, 2) if outer is not None else None
        if r is None or c is None:
            raise Unsupported('rows or columns of another shape')
        i, j = z3.Int('feature~%d' % P.tag()), z3.Int('output~%d' % P.tag())
        nth = lambda l, v: subst(Piece((), True, l.pieces[0].value), [(l.pieces[0].vars[0], v)]).value
        at = lambda p: subst(Piece((), p.guard, p.value), list(zip(p.vars, (i, j))))
        r, c = at(r), at(c)
        f = nth(fs, i)
        names = P.quiet(lambda: P.call(P.getattr(f, 'get_feature_names'), [], {}))
        dom = And(i >= 0, i < P.length(fs), j >= 0, j < P.length(names))
        k = outer.vars[0]
        return [('one-row-per-instance', ForAll([k], Iff(B(outer.guard), z3.And(k >= 0, k < n)))),
                ('one-value-per-output', ForAll([i, j], And(Iff(B(r.guard), dom), Iff(B(c.guard), dom)))),
                ('columns-are-the-names-in-order', ForAll([i, j], Implies(dom, P.py_eq(c.value, nth(names, j))))),
                ('values-are-the-default-of-the-feature', ForAll([i, j], Implies(dom, same(P, r.value, P.getattr(f, 'default_value'))))),
                ('rows-are-labelled-with-the-instances', index is ids)]

    def cover(self, P, ctx, out):
        return [('some path', True)]


class Of(dict):
    """operations on a table: each is answered by `frame`"""
    def __init__(self, frame):
        self.frame = frame

    def __contains__(self, name):
        return name in ('__getitem__', '__setattr__', '__setitem__', '__slice__') or not name.startswith('__')

    def __bool__(self):
        return True

    def __getitem__(self, name):
        f = self.frame
        if name == '__getitem__':
            return ModelV(name, lambda I, a, k: f.picked(I, a[0]))
        if name in ('__setattr__', '__setitem__'):
            return ModelV(name, lambda I, a, k: LibV('') if name == '__setattr__' else f.lost(I, name))
        if name in ('index', 'columns', 'dtypes', 'empty', 'shape', 'loc', 'iloc', '__slice__'):
            return LibV('index') if name != 'loc' else Rows(f)
        return LibV(name, hooks={'__call__': ModelV(name, lambda I, a, k: f.method(I, name, a, k))})


class FrameV(LibV):
    """the table of the target entity: in the order it was stored, or in the order of the instances"""
    def __init__(self, pycls, rows):
        LibV.__init__(self, 'table', pycls, None)
        self.rows = rows
        self.hooks = Of(self)

    def derived(self, why):
        return FrameV(self.pycls, None)

    def picked(self, I, cols):
        if isinstance(cols, ListV):
            r = FrameV(self.pycls, self.rows)
            r.cols = cols
            return r
        return LibV('column')

    def method(self, I, name, a, k):
        if name == 'reindex':
            x = a[0] if a else k.get('index')
            return FrameV(self.pycls, 'instances' if getattr(x, 'why', None) == 'instances' and not set(k) - {'index'} else None)
        return FrameV(self.pycls, None)

    def lost(self, I, name):
        self.rows = None
        return LibV('')


class Rows(LibV):
    """table.loc"""
    def __init__(self, frame):
        LibV.__init__(self, 'loc', None, {'__getitem__': ModelV('loc', self.at), '__setitem__': ModelV('loc', lambda I, a, k: frame.lost(I, ''))})
        self.frame = frame

    def at(self, I, a, k):
        x = a[0]
        r = x[0] if isinstance(x, tuple) else x
        f = FrameV(self.frame.pycls, 'instances' if getattr(r, 'why', None) == 'instances' else None)
        return f.picked(I, x[1]) if isinstance(x, tuple) and len(x) == 2 and isinstance(x[1], ListV) else f


class RunColumns(Run):
    """what a run returns has the outputs of the requested features as columns, in the order requested, and a row for each instance in order"""
    timeout = 10000

    def name(self):
        return 'FeatureSetCalculator.run (columns and rows)'

    def models(self):
        u = lambda P, a, k: self.distinct(a[0])
        u.forced = True
        return {pd.unique: u}

    def distinct(self, x):
        if getattr(x, 'why', None) != 'ids':
            return LibV('')
        r = LibV('instances', None, {'astype': ModelV('astype', lambda I, a, k: r)})
        return r

    def specs(self):
        return {fb.FeatureBase: {'get_feature_names': Meth([], Lst(STR))}}

    def calls(self):
        def done(P, a):
            P.setattr(a['df_trie'], 'value', FrameV(P.flow['cls'], 'stored'))
        def defaults(P, a):
            x = a['instance_ids']
            return FrameV(pd.DataFrame, 'default' if getattr(x, 'why', None) == 'instances' else 'some')
        return {FSC + '_calculate_features_for_entity': (done, {}), FSC + 'generate_default_df': (defaults, {})}

    def start(self, P):
        fs = P.fresh_list(Ref(fb.FeatureBase), 'features')
        cls = pd.DataFrame if P.decide(P.make(BOOL, 'pandas')) else dd.DataFrame
        ti = P.make(STR, 'index')
        es = LibV('es', None, {'__getitem__': ModelV('entity', lambda I, a, k: LibV('target', None, {'index': ti}))})
        calc = calculator(P, entityset=es, feature_set=P.born(ObjV(FeatureSet, {'target_features': fs, 'target_eid': P.make(STR, 'target'), 'feature_trie': LibV('trie')})))
        ids = LibV('ids', None, {'__len__': ModelV('len', lambda I, a, k: z3.IntVal(1)), 'dtype': LibV('dtype')})
        return [calc, ids], dict(progress_callback=LibV('callback'), include_cutoff_time=P.make(BOOL, 'inc')), dict(fs=fs, cls=cls, index=ti)

    def post(self, P, ctx, out):
        if out.kind == 'raise':
            return [('does-not-raise', False)]
        v, pandas = out.value, ctx['cls'] is pd.DataFrame
        if not isinstance(v, FrameV):
            raise Unsupported('result not followed')
        fs, cols = ctx['fs'], getattr(v, 'cols', None)
        posts = []
        if pandas:
            if v.rows is None:
                raise Unsupported('rows of the result not followed')
            posts.append(('a-row-for-each-instance-in-order', v.rows in ('instances', 'default')))
        if cols is None:
            if v.rows == 'default':
                return posts        # its columns: contract of generate_default_df
            return posts + [('columns-are-the-outputs-requested', False)]
        ps = list(cols.pieces)
        if not ps or len(ps[0].vars) != 2 or any(not p.single for p in ps[1:]):
            raise Unsupported('columns of another shape')
        i, j = z3.Int('feature~%d' % P.tag()), z3.Int('output~%d' % P.tag())
        c = subst(Piece((), ps[0].guard, ps[0].value), list(zip(ps[0].vars, (i, j))))
        nth = lambda l, v: subst(Piece((), True, l.pieces[0].value), [(l.pieces[0].vars[0], v)]).value
        names = P.quiet(lambda: P.call(P.getattr(nth(fs, i), 'get_feature_names'), [], {}))
        dom = And(i >= 0, i < P.length(fs), j >= 0, j < P.length(names))
        rest = [p.value for p in ps[1:]]
        more = not rest if pandas else And(*[P.py_eq(r, ctx['index']) for r in rest]) if len(rest) == 1 else False
        return posts + [('every-output-has-its-column', ForAll([i, j], Iff(B(c.guard), dom))),
                        ('columns-are-the-names-in-order', ForAll([i, j], Implies(dom, P.py_eq(c.value, nth(names, j))))),
                        ('no-other-columns-than-the-index-of-dask', more)]

    def cover(self, P, ctx, out):
        return [('pandas', ctx['cls'] is pd.DataFrame), ('dask', ctx['cls'] is not pd.DataFrame)]


CONTRACTS = [DefaultRows, RunColumns]
