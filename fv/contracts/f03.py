"""One-hot encoding: which columns the matrix gets, from which values, and the features that define them."""
from flow import *
from values import LibV, ModelV
import pandas as pd
from featuretools import variable_types as vtypes
from featuretools.synthesis.encode_features import DEFAULT_TOP_N
MOD = 'featuretools.synthesis.encode_features:'


def strings(l):
    if isinstance(l, ListV) and l.concrete:
        l = [p.value for p in l.pieces]
    return list(l) if isinstance(l, (list, tuple)) and all(isinstance(x, str) for x in l) else None


class Ghost(object):
    """columns of a table, in order"""


class Feat(LibV):
    """a feature: its name and what it says of a row"""
    def __init__(self, name, says, vtype=None, outputs=1):
        LibV.__init__(self, name, None, None)
        self.fname, self.says = name, says
        m = lambda f: ModelV('feature', f)
        names = [name] if outputs == 1 else ['%s[%d]' % (name, i) for i in range(outputs)]
        lst = lambda x: ListV([Piece((), True, v) for v in x])
        self.names = names
        self.hooks = {'get_name': m(lambda I, a, k: name), 'get_feature_names': m(lambda I, a, k: I.born(lst(names))), 'number_output_features': outputs, 'variable_type': vtype,
                      'isin': m(self.isin), 'NOT': m(lambda I, a, k: Feat('NOT(%s)' % name, ('not', says))), 'rename': m(lambda I, a, k: Feat(a[0], says)),
                      '__call__': None}
        del self.hooks['__call__']

    def derived(self, why):
        return LibV('another feature')

    def isin(self, I, a, k):
        ls = strings(a[0] if a else k.get('list_of_outputs'))
        if ls is None:
            raise Unsupported('values of isin not followed')
        return Feat('%s.isin(%s)' % (self.fname, ls), ('isin', self.fname, tuple(ls)))

    def compare(self, I, op, y, refl):
        if op in ('Eq', 'NotEq') and isinstance(y, str):
            s = ('is', self.fname, y)
            return Feat('%s = %s' % (self.fname, y) if op == 'Eq' else '%s != %s' % (self.fname, y), s if op == 'Eq' else ('not', s))
        return NotImplemented


class Col(LibV):
    """a column of the matrix: what it says of a row"""
    def __init__(self, table, says):
        LibV.__init__(self, 'column', pd.Series, None)
        self.table, self.says = table, says
        m = lambda f: ModelV('column', f)
        self.hooks = {'value_counts': m(self.counts), 'isin': m(self.isin), 'astype': m(lambda I, a, k: Col(table, says)), '__setitem__': m(lambda I, a, k: self.lost()),
                      'eq': m(lambda I, a, k: self.compare(I, 'Eq', a[0], False)), 'copy': m(lambda I, a, k: Col(table, says))}

    def derived(self, why):
        return LibV('another column')

    def lost(self):
        raise Unsupported('a column is written to')

    def isin(self, I, a, k):
        ls = strings(a[0])
        if ls is None or not isinstance(self.says, tuple) or self.says[0] != 'values':
            raise Unsupported('values of isin not followed')
        return Col(self.table, ('isin', self.says[1], tuple(ls)))

    def compare(self, I, op, y, refl):
        if op in ('Eq', 'NotEq') and isinstance(y, str) and self.says[0] == 'values':
            s = ('is', self.says[1], y)
            return Col(self.table, s if op == 'Eq' else ('not', s))
        return NotImplemented

    def unop(self, I, n):
        if n == 'Invert':
            return Col(self.table, ('not', self.says))
        raise Unsupported('operator on a column')

    def counts(self, I, a, k):
        if a or k or self.says[0] != 'values':
            raise Unsupported('values counted another way')
        return Counts(self.table, self.says[1])


class Counts(LibV):
    """how often each value of a column occurs, the most frequent first"""
    def __init__(self, table, name, top=None):
        LibV.__init__(self, 'counts', None, None)
        m = lambda f: ModelV('counts', f)
        me = lambda: Counts(table, name, top)

        def again(I, a, k):
            return None if k.get('inplace') is True else me()

        def sort(I, a, k):
            by, asc = a[0] if a else k.get('by'), k.get('ascending', True)
            by = [by] if isinstance(by, str) else [p.value for p in by.pieces] if isinstance(by, ListV) and by.concrete else None
            if isinstance(asc, ListV):
                asc = asc.pieces[0].value
            if not by or not isinstance(by[0], str) or set(k) - {'by', 'ascending', 'inplace'} or len(a) > 1:
                raise Unsupported('sorted another way')
            I.oblige('most-frequent-values-come-first', by[0] == name and asc is False)
            return again(I, a, k)

        def head(I, a, k):
            n = a[0] if a else k.get('n', 5)
            I.event('picked', (name, n))
            return Counts(table, name, n)
        rows = table.info['distinct'][name]

        def labels(I, a, k):
            if top is None:
                raise Unsupported('values chosen another way')
            return I.born(ListV([Piece((), True, v) for v in table.info['labels'][name]]))
        index = LibV('values', None, {'name': LibV('name'), 'tolist': m(labels)})
        self.hooks = {'to_frame': m(lambda I, a, k: me()), 'reset_index': m(again), 'set_index': m(again), 'sort_values': m(sort), 'head': m(head), 'index': index, '__len__': m(lambda I, a, k: rows),
                      'columns': LibV('columns')}

    def derived(self, why):
        return LibV('other counts')


class Matrix(LibV):
    def __init__(self, P, cols, info):
        LibV.__init__(self, 'matrix', pd.DataFrame, None)
        self.g, self.info = P.born(ObjV(Ghost, {'cols': tuple(cols)})), info
        m = lambda f: ModelV('matrix', f)
        hooks = {'copy': m(lambda I, a, k: Matrix(I, self.cols, info)), '__getitem__': m(self.pick), '__setitem__': m(self.put), 'drop': m(self.drop)}
        outer = self

        class Live(dict):
            def __contains__(s, n):
                return n == 'columns' or dict.__contains__(s, n)

            def __getitem__(s, n):
                if n == 'columns':
                    return ListV([Piece((), True, c) for c, _ in outer.cols])
                return dict.__getitem__(s, n)
        self.hooks = Live(hooks)

    @property
    def cols(self):
        return self.g.attrs['cols']

    def derived(self, why):
        return LibV('another matrix')

    def pick(self, I, a, k):
        d = dict(self.cols)
        if isinstance(a[0], str):
            I.oblige('the-columns-it-needs-are-there', a[0] in d)
            return Col(self, d.get(a[0], ('none',)))
        names = strings(a[0])
        if names is None:
            raise Unsupported('columns picked another way')
        I.oblige('the-columns-it-needs-are-there', all(n in d for n in names))
        return Matrix(I, [(n, d.get(n)) for n in names], self.info)

    def put(self, I, a, k):
        n, v = a
        if not isinstance(n, str) or not isinstance(v, Col):
            raise Unsupported('column written another way')
        new = tuple((c, v.says if c == n else s) for c, s in self.cols)
        if n not in dict(self.cols):
            new += ((n, v.says),)
        I.set_attr(self.g, 'cols', new)

    def drop(self, I, a, k):
        names = a[0] if a else k.get('columns')
        names = [names] if isinstance(names, str) else strings(names)
        if names is None or not ('columns' in k or k.get('axis', a[1] if len(a) > 1 else 0) in (1, 'columns')) or set(k) - {'columns', 'axis', 'inplace'}:
            raise Unsupported('dropped another way')
        left = tuple((c, s) for c, s in self.cols if c not in names)
        if k.get('inplace') is True:
            I.set_attr(self.g, 'cols', left)
            return None
        return Matrix(I, left, self.info)


class Encode(Flow):
    """each encoded column gives way to an indicator per value chosen and one for all others; every other column keeps its values; the features returned say what the columns do"""
    target = MOD + 'encode_features'

    def name(self):
        return 'encode_features [two categorical columns, one number, one of two outputs]'

    def models(self):
        def number(P, a, k):
            if not isinstance(a[0], Col):
                raise Unsupported('made numeric another way')
            return a[0]
        number.forced = True
        return {pd.to_numeric: number}

    def start(self, P):
        fs = [Feat('num', ('values', 'num'), vtypes.Numeric), Feat('color', ('values', 'color'), vtypes.Categorical), Feat('two', ('values', 'two'), vtypes.Categorical, 2), Feat('size', ('values', 'size'), vtypes.Categorical)]
        labels = ['a', 'b'] if P.decide(P.make(BOOL, 'two values are chosen')) else ['a'] if P.decide(P.make(BOOL, 'one value is chosen')) else []
        distinct = {n: P.make(INT, 'values of ' + n) for n in ('color', 'size')}
        for d in distinct.values():
            P.assume(d >= 0)
        info = {'labels': {'color': labels, 'size': ['c']}, 'distinct': distinct}
        cols = [n for f in fs for n in f.names] + ['extra']
        X = Matrix(P, [(n, ('values', n)) for n in cols], info)
        top = P.make(INT, 'top_n')
        P.assume(top > 0)
        by_name = P.decide(P.make(BOOL, 'top_n is given by column'))
        wanted = {'color': top, 'size': z3.IntVal(DEFAULT_TOP_N) if by_name else top}
        arg = P.born(DictV([Piece((), True, ('color', top))])) if by_name else top
        only = P.decide(P.make(BOOL, 'only the first is to be encoded'))
        unknown, first, inplace = P.make(BOOL, 'include_unknown'), P.make(BOOL, 'drop_first'), P.decide(P.make(BOOL, 'inplace'))
        unknown = P.decide(unknown)
        L = lambda x: P.born(ListV([Piece((), True, v) for v in x]))
        return [X, L(fs)], dict(top_n=arg, include_unknown=unknown, to_encode=L(['color']) if only else None, inplace=inplace, drop_first=first, verbose=False), \
            dict(X=X, fs=fs, info=info, wanted=wanted, only=only, unknown=unknown, first=first, cols=cols)

    def post(self, P, c, out):
        if out.kind == 'raise':
            return [('does-not-raise', False)]
        M, fl = out.value
        if not isinstance(M, Matrix) or not isinstance(fl, ListV) or not fl.concrete or any(not isinstance(p.value, Feat) for p in fl.pieces):
            raise Unsupported('the result was not followed')
        enc = ['color'] if c['only'] else ['color', 'size']
        want = {}
        for n in c['cols']:
            if n in enc:
                ls = c['info']['labels'][n]
                for l in ls:
                    want['%s = %s' % (n, l)] = ('is', n, l)
                if c['unknown']:
                    want[n + ' is unknown'] = ('not', ('isin', n, tuple(ls)))
            else:
                want[n] = ('values', n)
        got = dict(M.cols)
        feats = [p.value for p in fl.pieces]
        defs = {}
        for f in feats:
            for n in f.names:
                defs[n] = ('values', n) if f.says[0] == 'values' else f.says
        picked = [e.value[1:] for e in P.events if e.value[0] == 'picked']
        posts = [('columns-are-those-described', set(got) == set(want) and len(M.cols) == len(want)), ('columns-hold-what-they-should', all(got.get(n) == s for n, s in want.items())),
                 ('features-say-what-the-columns-hold', all(got.get(n) == s for n, s in defs.items())), ('a-feature-for-every-column-but-those-passed-through', set(defs) == set(want) - {'extra'} and len(feats) == len({f.fname for f in feats})),
                 ('columns-are-in-the-order-of-the-features', [n for n, _ in M.cols if n != 'extra'] == [n for f in feats for n in f.names]),
                 ('values-are-chosen-for-the-encoded-columns-only', sorted(p[0] for p in picked) == enc)]
        mn = lambda a, b: z3.If(a < b, a, b)
        for n, k in picked:
            d, top = c['info']['distinct'][n], c['wanted'].get(n)
            if top is None or isinstance(k, LibV):
                raise Unsupported('number of values not followed')
            less = mn(d, top) - 1
            at_most = z3.If(B(c['first']), z3.If(less < 1, 1, less), top)
            k = k if z3.is_expr(k) else z3.IntVal(k)
            posts.append(('as-many-values-as-asked-for-one-fewer-with-drop_first', mn(k, d) == mn(at_most, d)))
        return posts

    def cover(self, P, c, out):
        return [('all encoded', not c['only']), ('one encoded', c['only']), ('unknown', c['unknown'])]


CONTRACTS = [Encode]
