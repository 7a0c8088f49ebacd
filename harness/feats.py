"""Random features of all kinds over a random entityset."""
import featuretools as ft
from featuretools import primitives as pr
from featuretools.feature_base.feature_base import (IdentityFeature, DirectFeature, AggregationFeature, TransformFeature,
                                                    GroupByTransformFeature)
from featuretools import Timedelta
import custom as cu

NUM_AGG = [pr.Sum, pr.Mean, pr.Min, pr.Max, pr.Median, pr.Std, pr.Last, pr.First, cu.Folded, pr.Skew, pr.Sum]
CAT_AGG = [pr.NumUnique, pr.Mode, pr.Last, pr.First]
BOOL_AGG = [pr.NumTrue, pr.PercentTrue, pr.Any, pr.All, pr.Last]
FULL = ['CumSum', 'CumMax', 'CumMin', 'CumMean', 'Diff']


class Builder(object):
    def __init__(self, rng, m, es, full_p=0.25, agg_p=0.35, where_p=0.25, up_p=0.15, time_prims=True, multi_p=0.12, kinds=None, chain_p=0.25):
        self.chain_p = chain_p
        self.multi_p, self.kinds, self.approx_order, self.maxdepth = multi_p, kinds, False, 2
        self.rng, self.m, self.es = rng, m, es
        self.full_p, self.where_p, self.up_p = full_p, where_p, up_p
        self.time_prims = time_prims and not m.numeric_time
        self.kind = {}

    def ident(self, nm, kinds):
        e = self.m.ents[nm]
        cs = [c for c, k in e.cols.items() if k in kinds]
        if not cs:
            return None
        c = self.rng.choice(cs)
        f = IdentityFeature(self.es[nm][c])
        return self.reg(f, {'num': 'num', 'cat': 'cat', 'bool': 'bool', 'time': 'time', 'stime': 'time', 'dt': 'cal'}.get(e.cols[c], 'key'))

    def reg(self, f, k):
        f._kind = k
        return f

    def feature(self, nm, want=None, depth=2):
        """random feature of entity nm of kind num/cat/bool"""
        rng = self.rng
        want = want or rng.choice(['num', 'num', 'num', 'cat', 'bool'])
        for _ in range(12):
            f = self._try(nm, want, depth)
            if f is not None:
                return f
        return self.ident(nm, ['num'])

    def top(self, nm, depth=2):
        """a feature to request: sometimes one with several outputs"""
        rng = self.rng
        self.maxdepth = depth
        if rng.random() < self.chain_p and not self.approx_order:
            for _ in range(8):
                f = self.chain(nm, [rng.choice(self.kinds or ['agg', 'direct', 'full', 'group', 'trans']) for _ in range(rng.randint(2, 4))])
                if f is not None:
                    return f
        if rng.random() < self.multi_p:
            f = self.multi(nm, depth)
            if f is not None:
                return f
        return self.feature(nm, depth=depth)

    def chain(self, nm, ops):
        """a numeric feature of nm that stacks the given steps"""
        rng = self.rng
        if not ops:
            return self.ident(nm, ['num'])
        op, rest = ops[0], ops[1:]
        if op == 'direct':
            rels = [r for r in self.es.relationships if r.child_entity.id == nm]
            if not rels:
                return None
            r = rng.choice(rels)
            b = self.chain(r.parent_entity.id, rest)
            return None if b is None else self.reg(DirectFeature(b, self.es[nm], relationship=r), 'num')
        if op == 'agg':
            path, ch = self.bpath(nm)
            if not path:
                return None
            if not rest and rng.random() < 0.4:
                return self.mkagg(IdentityFeature(self.es[ch][self.m.ents[ch].index]), nm, ch, pr.Count, path, 'num')
            b = self.chain(ch, rest)
            return None if b is None else self.mkagg(b, nm, ch, rng.choice(NUM_AGG), path, 'num')
        b = self.chain(nm, rest)
        if b is None:
            return None
        if op == 'full':
            return self.reg(TransformFeature(b, getattr(pr, rng.choice(FULL))), 'num')
        if op == 'group':
            return self.grouped(nm, b)
        return self.reg(TransformFeature(b, rng.choice([pr.AddNumericScalar(value=2), pr.Negate()])), 'num')

    def grouped(self, nm, a):
        rng = self.rng
        g = self.ident(nm, ['cat', 'fk'])
        if rng.random() < 0.3:
            d = self._direct(nm, 'cat', 1) if self.m.parents(nm) else None
            g = d if d is not None and d._kind == 'cat' else g
        if g is None:
            return None
        p = rng.choice(FULL + ['CumCount', 'RunList', 'RunArray'])
        if p == 'CumCount':
            c = self.ident(nm, ['cat'])
            a, p = (a, 'RunList') if c is None else (c, p)
        return self.reg(GroupByTransformFeature(a, getattr(pr, p) if hasattr(pr, p) else getattr(cu, p), groupby=g), 'num')

    def multi(self, nm, depth):
        rng = self.rng
        if depth <= 0:
            return None
        o = rng.choice(['agg', 'agg', 'trans', 'full', 'group', 'direct'])
        if o == 'agg':
            path, ch = self.bpath(nm)
            if not path:
                return None
            if rng.random() < 0.2:
                b = self.feature(ch, 'cat', 0)
                if getattr(b, '_kind', None) != 'cat' or self.approx_order:
                    return None
                pm = pr.NMostCommon(n=2)
                return None
            b = self.feature(ch, 'num', depth - 1)
            return self.mkagg(b, nm, ch, cu.Spread, path, 'multi')
        if o in ('trans', 'full', 'group'):
            a = self.feature(nm, 'num', depth - 1)
            if getattr(a, '_kind', None) != 'num':
                return None
            if o == 'group':
                g = self.ident(nm, ['cat', 'fk'])
                if g is None:
                    return None
                return self.reg(GroupByTransformFeature(a, rng.choice([cu.RunBoth, cu.PlusMinus]), groupby=g), 'multi')
            return self.reg(TransformFeature(a, cu.PlusMinus if o == 'trans' else cu.RunBoth), 'multi')
        rels = [r for r in self.es.relationships if r.child_entity.id == nm]
        if not rels:
            return None
        r = rng.choice(rels)
        b = self.multi(r.parent_entity.id, depth - 1)
        return None if b is None else self.reg(DirectFeature(b, self.es[nm], relationship=r), 'multi')

    def _try(self, nm, want, depth):
        rng = self.rng
        if want == 'num' and 0 < depth < self.maxdepth and rng.random() < self.multi_p:
            f = self.multi(nm, depth)
            if f is not None:
                return self.reg(f[rng.choice([0, 1])], 'num')
        opts = ['ident']
        ks = self.kinds
        if depth > 0:
            opts += ['trans', 'trans']
            if self.m.children(nm):
                opts += ['agg'] * 3
            if self.m.parents(nm):
                opts += ['direct'] * 2
            if rng.random() < self.full_p and want == 'num':
                opts += ['full', 'group'] * 2
        if ks and depth > 0:
            o2 = [q for q in opts if q in ks]
            if o2 and rng.random() < 0.75:
                opts = o2
        o = rng.choice(opts)
        return getattr(self, '_' + o)(nm, want, depth)

    def _ident(self, nm, want, depth):
        return self.ident(nm, [want])

    def _trans(self, nm, want, depth):
        rng = self.rng
        if want == 'num':
            p = rng.choice(['neg', 'abs', 'adds', 'rsub', 'add', 'sub', 'mul', 'since', 'hour', 'hto'])
            if p == 'hto':
                b = self.ident(nm, ['time']) if self.time_prims else None
                return None if b is None else self.reg(TransformFeature([b], cu.HoursTo), 'num')
            if p in ('since', 'hour'):
                if self.m.numeric_time or not self.time_prims:
                    return None
                if p == 'hour' and depth < max(2, self.maxdepth):
                    return None
                b = self.ident(nm, ['time', 'dt'] if p == 'since' else ['dt', 'time'])
                if b is None:
                    return None
                return self.reg(TransformFeature([b], rng.choice([pr.TimeSince]) if p == 'since' else rng.choice([pr.Hour, pr.Day, pr.Weekday])), 'num')
            a = self.feature(nm, 'num', depth - 1)
            if p == 'neg':
                return self.reg(TransformFeature(a, pr.Negate), 'num')
            if p == 'abs':
                return self.reg(TransformFeature(a, pr.Absolute), 'num')
            if p == 'adds':
                return self.reg(TransformFeature(a, pr.AddNumericScalar(value=rng.choice([1, 2.5]))), 'num')
            if p == 'rsub':
                return self.reg(TransformFeature(a, pr.ScalarSubtractNumericFeature(value=rng.choice([1, 4]))), 'num')
            b = self.feature(nm, 'num', depth - 1)
            return self.reg(TransformFeature([a, b], {'add': pr.AddNumeric, 'sub': pr.SubtractNumeric, 'mul': pr.MultiplyNumeric}[p]), 'num')
        if want == 'bool':
            p = rng.choice(['gts', 'lts', 'gt', 'isnull', 'eqc', 'isin'])
            if p in ('eqc', 'isin'):
                a = self.feature(nm, 'cat', depth - 1)
                if getattr(a, '_kind', None) != 'cat':
                    return None
                if p == 'eqc':
                    return self.reg(TransformFeature(a, pr.EqualScalar(value='u')), 'bool')
                return self.reg(TransformFeature(a, pr.IsIn(list_of_outputs=['u', 'w'])), 'bool')
            a = self.feature(nm, 'num', depth - 1)
            if p == 'isnull':
                return self.reg(TransformFeature(a, pr.IsNull), 'bool')
            if p == 'gts':
                return self.reg(TransformFeature(a, pr.GreaterThanScalar(value=1)), 'bool')
            if p == 'lts':
                return self.reg(TransformFeature(a, pr.LessThanScalar(value=2)), 'bool')
            b = self.feature(nm, 'num', depth - 1)
            return self.reg(TransformFeature([a, b], pr.GreaterThan), 'bool')
        return None

    def _full(self, nm, want, depth):
        a = self.feature(nm, 'num', depth - 1)
        return self.reg(TransformFeature(a, getattr(pr, self.rng.choice(FULL))), 'num')

    def _group(self, nm, want, depth):
        a = self.feature(nm, 'num', depth - 1)
        return self.grouped(nm, a) if getattr(a, '_kind', None) == 'num' else None

    def _direct(self, nm, want, depth):
        if want == 'bool':
            return None
        rels = [r for r in self.es.relationships if r.child_entity.id == nm]
        r = self.rng.choice(rels)
        b = self.feature(r.parent_entity.id, want, depth - 1)
        if b is None or getattr(b, '_kind', None) != want:
            return None
        return self.reg(DirectFeature(b, self.es[nm], relationship=r), want)

    def bpath(self, nm, maxlen=3):
        path = []
        cur = nm
        while len(path) < maxlen:
            rels = [r for r in self.es.relationships if r.parent_entity.id == cur]
            if not rels or (path and self.rng.random() < 0.5):
                break
            r = self.rng.choice(rels)
            path.append((False, r))
            cur = r.child_entity.id
        return path, cur

    def _agg(self, nm, want, depth):
        from featuretools.entityset.relationship import RelationshipPath
        rng = self.rng
        path, ch = self.bpath(nm)
        if not path:
            return None
        if want == 'num':
            k = rng.choice(['num', 'num', 'num', 'num', 'count', 'cat', 'bool', 'time', 'two'])
        elif want == 'cat':
            k = 'catv'
        else:
            return None
        if k == 'count':
            b = IdentityFeature(self.es[ch][self.m.ents[ch].index])
            prim = pr.Count
        elif k == 'time':
            if not self.time_prims:
                return None
            b = self.ident(ch, ['time'])
            prim = rng.choice([pr.TimeSinceLast, pr.TimeSinceFirst, cu.SpanToCut, pr.AvgTimeBetween])
            if b is None:
                return None
        elif k == 'two':
            b = [self.feature(ch, 'num', depth - 1), self.feature(ch, 'num', depth - 1)]
            if any(getattr(q, '_kind', None) != 'num' for q in b):
                return None
            prim = cu.Weighted
        else:
            b = self.feature(ch, {'num': 'num', 'cat': 'cat', 'bool': 'bool', 'catv': 'cat'}[k], depth - 1)
            if b is None:
                return None
            kk = getattr(b, '_kind', None)
            if k == 'num' and kk == 'num':
                prim = rng.choice(NUM_AGG)
            elif k == 'cat' and kk == 'cat':
                prim = pr.NumUnique
            elif k == 'catv' and kk == 'cat':
                prim = rng.choice([pr.Mode, pr.Last, pr.First])
            elif k == 'bool' and kk == 'bool':
                prim = rng.choice([pr.NumTrue, pr.PercentTrue])
            else:
                return None
        if b is None:
            return None
        return self.mkagg(b, nm, ch, prim, path, 'cat' if k == 'catv' else 'num')

    def mkagg(self, b, nm, ch, prim, path, kind):
        from featuretools.entityset.relationship import RelationshipPath
        rng = self.rng
        where = None
        if rng.random() < self.where_p:
            where = self.feature(ch, 'bool', rng.choice([0, 1, 1]))
            if where is None or getattr(where, '_kind', None) != 'bool':
                where = None
        up = None
        span = None
        if rng.random() < self.up_p and self.m.ents[ch].ti:
            if rng.random() < 0.6 and not self.m.numeric_time:
                span = rng.randint(0, 4)
                if rng.random() < 0.4 and span:
                    h = rng.randint(0, span)
                    up = Timedelta({'h': h, 'm': (span - h) * 60})
                else:
                    up = rng.choice([Timedelta(span, 'h'), '%d hours' % span, Timedelta(span * 60, 'Minutes')])
            else:
                up = Timedelta(rng.randint(1, 3), 'observations')
        f = AggregationFeature(b, self.es[nm], prim, relationship_path=RelationshipPath(path), where=where, use_previous=up)
        f._model_span = span
        return self.reg(f, kind)
