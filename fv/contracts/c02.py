"""Direct features: which column of the parent each one takes, by which key, and what stands for a missing parent."""
from flow import *
from values import LibV, ModelV
from flowsettings import FSC
import pandas as pd
from featuretools.computational_backends.feature_set_calculator import FeatureSetCalculator
from featuretools.entityset.relationship import Relationship


def strings(l):
    if isinstance(l, ListV) and l.concrete:
        l = [p.value for p in l.pieces]
    return list(l) if isinstance(l, (list, tuple)) and all(isinstance(x, str) for x in l) else None


def mapping(d):
    """a dictionary of known keys"""
    if not isinstance(d, DictV) or d.sym is not None or any(not p.single or p.guard is not True or not isinstance(p.value[0], str) for p in d.pieces):
        raise Unsupported('a dictionary that is not followed')
    return {p.value[0]: p.value[1] for p in d.pieces}


class Ghost(object):
    """columns of a table"""


class Col(LibV):
    def __init__(self, says):
        LibV.__init__(self, 'column', pd.Series, None)
        self.says = says
        m = lambda f: ModelV('column', f)

        def fill(I, a, k):
            if len(a) != 1 or k:
                raise Unsupported('filled another way')
            return Col(('fill', says, a[0]))
        self.hooks = {'fillna': m(fill), 'copy': m(lambda I, a, k: Col(says))}

    def derived(self, why):
        return LibV('another column')


class Table(LibV):
    """columns in order, each with what it says of a row; the column whose values label the rows"""
    present = True

    def __init__(self, I, cols, label=None, rows='child'):
        LibV.__init__(self, 'table', pd.DataFrame, None)
        self.g, self.rows = I.born(ObjV(Ghost, {'cols': tuple(cols), 'label': label})), rows
        m = lambda f: ModelV('table', f)
        outer = self
        hooks = {'copy': m(lambda I, a, k: self.new(I, self.cols)), '__getitem__': m(self.pick), '__setitem__': m(self.put), 'rename': m(self.rename), 'set_index': m(self.index_by),
                 'merge': m(self.merge), 'join': m(self.join), 'assign': m(self.assign), 'fillna': m(self.fill), 'drop': m(self.lost), '__setattr__': m(self.lost)}

        class Live(dict):
            def __contains__(s, n):
                return n == 'columns' or dict.__contains__(s, n)

            def __getitem__(s, n):
                if n == 'columns':
                    return ListV([Piece((), True, c) for c, _ in outer.cols])
                return dict.__getitem__(s, n)
        self.hooks = Live(hooks)

    @property
    def cols(self):
        return self.g.attrs['cols']

    @property
    def label(self):
        return self.g.attrs['label']

    def derived(self, why):
        return LibV('another table')

    def lost(self, I, a, k):
        raise Unsupported('a table is changed another way')

    def new(self, I, cols, label=0):
        return Table(I, cols, self.label if label == 0 else label, self.rows)

    def done(self, I, k, cols, label=0):
        """the result, in place or not"""
        if k.pop('inplace', False) is True:
            I.oblige('the-table-of-the-parent-is-not-written', self.rows != 'parent')
            I.set_attr(self.g, 'cols', tuple(cols))
            if label != 0:
                I.set_attr(self.g, 'label', label)
            return None
        return self.new(I, cols, label)

    def pick(self, I, a, k):
        d = dict(self.cols)
        if isinstance(a[0], str):
            I.oblige('the-columns-it-needs-are-there', a[0] in d)
            return Col(d.get(a[0], ('none',)))
        names = strings(a[0])
        if names is None:
            raise Unsupported('columns picked another way')
        I.oblige('the-columns-it-needs-are-there', all(n in d for n in names))
        return Table(I, [(n, d.get(n)) for n in names], self.label, 'picked' if self.rows == 'parent' else self.rows)

    def put(self, I, a, k):
        n, v = a
        if not isinstance(n, str) or not isinstance(v, Col):
            raise Unsupported('column written another way')
        I.oblige('the-table-of-the-parent-is-not-written', self.rows != 'parent')
        new = tuple((c, v.says if c == n else s) for c, s in self.cols)
        I.set_attr(self.g, 'cols', new if n in dict(self.cols) else new + ((n, v.says),))

    def rename(self, I, a, k):
        k = dict(k)
        d = mapping(k.pop('columns', None))
        r = self.done(I, k, [(d.get(n, n), s) for n, s in self.cols])
        if a or k:
            raise Unsupported('renamed another way')
        return r

    def index_by(self, I, a, k):
        k = dict(k)
        n = a[0] if a else k.pop('keys')
        drop = k.pop('drop', True)
        if not isinstance(n, str) or not isinstance(drop, bool):
            raise Unsupported('labelled another way')
        d = [s for c, s in self.cols if c == n]
        I.oblige('the-columns-it-needs-are-there', len(d) == 1)
        r = self.done(I, k, [(c, s) for c, s in self.cols if not drop or c != n], (n, d[0] if d else ('none',)))
        if k or len(a) > 1:
            raise Unsupported('labelled another way')
        return r

    def looked_up(self, I, o, on, key):
        if not isinstance(o, Table) or self.rows != 'child':
            raise Unsupported('merged another way')
        mine = dict(self.cols)
        I.oblige('the-columns-it-needs-are-there', on in mine)
        over = {n for n, _ in self.cols} & {n for n, _ in o.cols}
        # a column of both tables gets another name in each
        I.oblige('no-column-of-both-tables', not over)
        return Table(I, list(self.cols) + [(n, ('of', s, mine.get(on), key)) for n, s in o.cols], self.label, 'child')

    def merge(self, I, a, k):
        k = dict(k)
        o = a[0] if a else k.pop('right')
        left, how, ri = k.pop('left_on', None), k.pop('how', 'inner'), k.pop('right_index', False)
        if k or len(a) > 1 or not isinstance(left, str) or ri is not True:
            raise Unsupported('merged another way')
        I.oblige('every-row-of-the-child-is-kept', how == 'left')
        return self.looked_up(I, o, left, o.label[1] if isinstance(o, Table) and o.label else ('rows',))

    def join(self, I, a, k):
        k = dict(k)
        o = a[0] if a else k.pop('other')
        on, how = k.pop('on', None), k.pop('how', 'left')
        if k or len(a) > 1 or not isinstance(on, str):
            raise Unsupported('joined another way')
        I.oblige('every-row-of-the-child-is-kept', how == 'left')
        return self.looked_up(I, o, on, o.label[1] if isinstance(o, Table) and o.label else ('rows',))

    def assign(self, I, a, k):
        cols = list(self.cols)
        for n, v in k.items():
            if not isinstance(v, Col):
                raise Unsupported('assigned another way')
            cols = [(c, v.says if c == n else s) for c, s in cols] if n in dict(cols) else cols + [(n, v.says)]
        return self.new(I, cols)

    def fill(self, I, a, k):
        k = dict(k)
        v = a[0] if a else k.pop('value')
        d = mapping(v)
        r = self.done(I, k, [(n, ('fill', s, d[n]) if n in d else s) for n, s in self.cols])
        if k or len(a) > 1:
            raise Unsupported('filled another way')
        return r


class Feature(LibV):
    present = True
    def __init__(self, P, names, base, default, path=None):
        LibV.__init__(self, names[0], None, None)
        m = lambda f: ModelV('feature', f)
        L = lambda x: ListV([Piece((), True, v) for v in x])
        self.names, self.base, self.default = names, base, default
        self.hooks = {'get_name': m(lambda I, a, k: names[0].split('[')[0]), 'get_feature_names': m(lambda I, a, k: I.born(L(names))), 'number_output_features': len(names), 'default_value': default}
        if base is not None:
            self.hooks['base_features'] = L([base])
        if path is not None:
            self.hooks['relationship_path'] = path

    def derived(self, why):
        return LibV('another feature')


class Direct(Flow):
    """every direct feature is the column of its base feature in the row of the parent its link names, its default where there is none; the other columns, and the rows, stay as they are"""
    target = FSC + '_calculate_direct_features'

    def name(self):
        return '_calculate_direct_features [two features; of the index, of one or two outputs, of the same column, under the name of the link]'

    def models(self):
        def missing(P, a, k):
            return a[0] is self.nan
        missing.forced = True
        return {pd.isna: missing, pd.isnull: missing}

    def contracts(self):
        out = Flow.contracts(self)
        f = fnref('featuretools.utils.gen_utils:is_instance')
        out[f] = lambda P, a, k: False
        return out

    def start(self, P):
        yes = lambda w: P.decide(P.make(BOOL, w))
        self.nan = LibV('nan')
        rel = P.born(ObjV(Relationship, {'child_variable': LibV('link', None, {'id': 'link'}), 'parent_variable': LibV('index', None, {'id': 'id'})}))
        step = (True, rel)
        path = ListV([Piece((), True, step)])
        bases = {n: Feature(P, [n], None, 0) for n in ('id', 'x')}
        bases['two'] = Feature(P, ['two[0]', 'two[1]'], None, 0)
        parent = Table(P, [(c, ('parent', c)) for c in ('two[1]', 'id', 'link', 'x', 'two[0]')], ('id', ('parent', 'id')), 'parent')
        fs = []
        for i, opts in enumerate((('id', 'x', 'two'), ('x', 'two', 'id'))):
            b = opts[0] if yes('feature %d, first kind' % i) else opts[1] if yes('feature %d, second kind' % i) else opts[2]
            nm = 'f%d' % i
            d = LibV('default of ' + nm) if yes('%s has a default' % nm) else self.nan
            fs.append(Feature(P, ['%s[%d]' % (nm, j) for j in range(2)] if b == 'two' else [nm], bases[b], d, path))
        child = [('cid', ('child', 'cid')), ('link', ('child', 'link')), ('x', ('child', 'x'))]
        # one not of the index may be there already
        there = fs[1].base.names != ['id'] and yes('the second is there already')
        if there:
            child += [(n, ('there', n)) for n in fs[1].names]
        table = Table(P, child)
        P.made = {'child': child, 'fs': fs, 'parent': parent}

        def node(I, a, k):
            l = a[0]
            one = isinstance(l, ListV) and l.concrete and len(l.pieces) == 1 and l.pieces[0].value
            I.oblige('the-data-of-the-parent', isinstance(one, tuple) and len(one) == 2 and one[1] is rel)
            return LibV('node', None, {'value': parent})
        trie = LibV('trie', None, {'get_node': ModelV('get_node', node)})
        num = P.make(INT, 'number of features')
        P.assume(num >= 2)
        c = P.born(ObjV(FeatureSetCalculator, {'num_features': num}))
        cb = ModelV('progress', lambda I, a, k: None)
        return [c, P.born(ListV([Piece((), True, f) for f in fs])), table, trie, cb], {}, {}

    def post(self, P, c, out):
        if out.kind == 'raise':
            return [('does-not-raise', False)]
        t = out.value
        if not isinstance(t, Table):
            raise Unsupported('the result was not followed')
        child, fs = P.made['child'], P.made['fs']
        got = dict(t.cols)
        had = dict(child)
        # filling a column twice fills it once
        def plain(s):
            fills = []
            while isinstance(s, tuple) and s[0] == 'fill':
                # filling with nothing fills nothing
                fills += [s[2]] if s[2] is not self.nan else []
                s = s[1]
            return s, (fills[-1] if fills else None)
        feats = {}
        for f in fs:
            for n, b in zip(f.names, f.base.names):
                d = f.default if f.default is not self.nan else None
                feats[n] = (('there', n) if n in had else ('of', ('parent', b), ('child', 'link'), ('parent', 'id')), d)
        found = {n: plain(got.get(n)) for n in feats}
        return [('every-value-once', len(t.cols) == len(got)),
                ('the-value-of-the-parent-the-link-names', all(found[n][0] == feats[n][0] for n in feats)),
                ('its-default-where-there-is-none', all(found[n][1] is feats[n][1] for n in feats)),
                ('the-other-columns-stay', all(got.get(n) == s for n, s in child if n not in feats)),
                ('no-columns-but-those', set(got) == set(had) | set(feats)),
                ('the-rows-of-the-child', t.rows == 'child' and t.label is None),
                ("the-parent's-data-stays", P.made['parent'].cols == tuple((c, ('parent', c)) for c in ('two[1]', 'id', 'link', 'x', 'two[0]')))]

    def cover(self, P, c, out):
        return [(out.kind, True)]


CONTRACTS = [Direct]
