"""Progress: every calculated feature is reported once, and the reports handed to the caller are exact."""
from flow import *
import pandas as pd
from featuretools.computational_backends.feature_set_calculator import FeatureSetCalculator
from featuretools.entityset.entityset import EntitySet
from featuretools.entityset.relationship import Relationship
from featuretools.feature_base import feature_base as fb
from contracts.f02 import variant
from flowsettings import CB, CFM, FSC, ES, InEntity, Run, Chunk, Parallel, Matrix, calculator
U = CB + 'utils:'


class Bar(object):
    """a progress bar (tqdm): update advances it"""
    def update(self, k):
        self.n = self.n + k

class BarV(ObjV):
    def enter(self, I):
        return self


def real(v):
    v = z3.RealVal(v) if isinstance(v, (int, float)) else v
    return z3.ToReal(v) if z3.is_int(v) else v


def bar(P, total=None):
    n, t = P.make(REAL, 'n'), P.make(REAL, 'total') if total is None else total
    return P.born(BarV(Bar, {'n': n, 'total': t, 'format_dict': P.born(DictV([Piece((), True, ('elapsed', P.make(REAL, 'elapsed')))])),
                             'disable': False, 'refresh': LibV('refresh'), 'write': LibV('write'), 'reset': LibV('reset')}))


class Parameters(Contract):
    """the update is the change in percent since the last call, the progress the percentage done"""
    target = CFM + 'update_progress_callback_parameters'

    def name(self):
        return 'update_progress_callback_parameters'

    def setup(self, P):
        b, prev = bar(P), P.make(REAL, 'previous')
        n, t = b.attrs['n'], b.attrs['total']
        P.assume(z3.And(t > 0, prev >= 0, prev <= n, n <= t))
        return [b, prev], {}, (b, prev)

    def post(self, P, ctx, out):
        b, prev = ctx
        n, t = b.attrs['n'], b.attrs['total']
        if out.kind == 'raise':
            return [('does-not-raise', False)]
        up, pc, el = out.value
        up, pc = real(up), real(pc)
        return [('percentage-done', pc * t == 100 * n), ('change-since-the-last-call', up * t == 100 * (n - prev)),
                ('between-0-and-100', z3.And(up >= 0, up <= 100, pc >= 0, pc <= 100)), ('time-elapsed', real(el) == real(P.getitem(b.attrs['format_dict'], 'elapsed')))]


class Handler(Contract):
    """the features handled together are all reported, once"""
    library = True
    timeout = 10000
    method = None
    types = {}

    @property
    def target(self):
        return FSC + self.method

    def name(self):
        return self.method + ' reports its features once'

    def contracts(self):
        out = {}
        for spec in ('update_feature_columns', 'set_default_column', 'strip_values_if_series'):
            f = fnref(CB + 'feature_set_calculator:' + spec)
            if f is not None:
                out[f] = lambda P, a, k: LibV('column')
        f = fnref('featuretools.utils.gen_utils:is_instance')
        out[f] = is_instance
        return out

    def specs(self):
        lib = ('model', lambda P, v, *a, **k: LibV('function'))
        return {fb.FeatureBase: {'get_function': lib, 'get_feature_names': Meth([], Lst(STR)), 'default_value': ANY, 'relationship_path': ('prop', lambda P, v: LibV('path'))},
                fb.PrimitiveBase: {'uses_calc_time': BOOL}}

    def setup(self, P):
        fs = P.fresh_list(Ref(fb.FeatureBase), 'features')
        P.assume(P.length(fs) >= 1)
        num = P.make(INT, 'num_features')
        P.assume(num >= 1)
        self.empty = P.decide(P.make(BOOL, 'empty'))
        c = P.born(ObjV(FeatureSetCalculator, {'num_features': num, 'time_last': LibV('time'), 'entityset': LibV('es')}))
        frame = self.frame(P)
        cb = ModelV('progress', lambda I, a, k: I.event('progress', (a[0],)))
        return [c, fs, frame, LibV('trie'), cb], {}, (fs, num)

    def frame(self, P):
        return LibV('frame', pd.DataFrame, {'empty': self.empty})

    def post(self, P, ctx, out):
        fs, num = ctx
        if out.kind == 'raise':
            return []
        n = P.length(fs)
        total, many = z3.RealVal(0), []
        k = z3.Int('k!feature')
        for e in P.events:
            if e.value[0] != 'progress':
                continue
            if not e.vars:
                total = total + z3.If(B(e.guard), real(e.value[1]), 0)
                continue
            if len(e.vars) != 1 or not z3.is_int(e.vars[0]):
                raise Unsupported('reports in nested loops')
            ren = (e.vars[0], k)
            many.append((z3.substitute(B(e.guard), ren), z3.substitute(real(e.value[1]), ren)))
        many = [(g, a) for g, a in many if not P.entailed(z3.ForAll([k], z3.Not(g)))]
        if many:
            dom = z3.And(k >= 0, k < n)
            j = z3.Int('j!other')
            if not P.entailed(z3.ForAll([k, j], z3.And(*[x == z3.substitute(many[0][1], (k, j)) for _, x in many]))):
                raise Unsupported('reports of different sizes')
            twice = [z3.And(g, h) for i, (g, _) in enumerate(many) for h, _ in many[:i]]
            once = P.entailed(z3.ForAll([k], z3.And(z3.Or(*[g for g, _ in many]) == dom, z3.Not(z3.Or(*twice)) if twice else True)))
            if not once:
                return [('every-feature-is-reported-once', z3.ForAll([k], z3.And(z3.Or(*[g for g, _ in many]) == dom, z3.Not(z3.Or(*twice)) if twice else True)))]
            total = total + z3.substitute(many[0][1], (k, z3.IntVal(0))) * z3.ToReal(n)
        return [('the-reports-add-up', total * z3.ToReal(num) == z3.ToReal(n))]

    def cover(self, P, ctx, out):
        return [('%s %s' % (out.kind, 'empty' if self.empty else 'data'), True)]


class GroupHandler(Handler):
    """as Handler [features that all have one value, or all have two]"""
    method = '_calculate_groupby_features'

    def specs(self):
        out = Handler.specs(self)
        def value(P, v, *a, **k):
            m = ModelV('function', lambda I, b, kk: LibV('values') if self.width == 1 else (LibV('values'), LibV('values')))
            m.stars = True
            return m
        out[fb.FeatureBase] = dict(out[fb.FeatureBase], groupby=Ref(fb.FeatureBase), get_name=Meth([], STR), base_features=Lst(Ref(fb.FeatureBase)), primitive=Ref(fb.PrimitiveBase),
                                   number_output_features=('prop', lambda P, v: self.width), get_function=('model', value),
                                   get_feature_names=('model', lambda P, v, *a, **k: P.mklist([P.make(STR, 'name') for _ in range(self.width)])))
        return out

    def setup(self, P):
        self.width = 1 if P.decide(P.make(BOOL, 'one value each')) else 2
        a, kw, ctx = Handler.setup(self, P)
        P.assume(forall(P, a[1], lambda f: P.length(P.getattr(f, 'base_features')) >= 2))
        return a, kw, ctx

    def frame(self, P):
        groups = P.fresh_list(ANY, 'groups')
        col = LibV('column', pd.Series, {'unique': ModelV('unique', lambda I, a, k: groups), 'update': LibV('update')})
        return LibV('frame', pd.DataFrame, {'shape': (z3.IntVal(0) if self.empty else P.make(INT, 'rows'), 1), '__getitem__': ModelV('column', lambda I, a, k: col)})

    def models(self):
        return {pd.isnull: lambda P, a, k: P.fn('is null', Obj, z3.BoolSort())(P.term(a[0]))}


def same_list(P, g, h, i, dom):
    j = z3.Int('j!member')
    at = P.quiet(lambda: P.at_of(g)(j))
    return z3.ForAll([i, j], z3.Implies(dom, z3.And(P.length(g) == P.length(h), z3.Implies(z3.And(j >= 0, j < P.length(h)), P.term(at) == P.term(h.at(j))))))


class Together(Contract):
    """every group of features is calculated once, in order, by the handler of its type"""
    target = FSC + '_calculate_features'

    def name(self):
        return '_calculate_features'

    def contracts(self):
        from featuretools.computational_backends.feature_set import FeatureSet
        def handler(P, a, k):
            return ModelV('handler', lambda I, b, kk: self.handle(I, a[1], b, kk))
        return {fnref(FSC + '_feature_type_handler'): handler}

    def handle(self, I, f, a, k):
        I.event('handled', (f, a[0], a[2], a[3]))
        return LibV('df')

    def setup(self, P):
        self.groups = P.fresh_list(Lst(Ref(fb.FeatureBase)), 'groups')
        self.feats = LibV('features')
        j = z3.Int('j!g')
        P.assume(z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < P.length(self.groups)), P.length(self.groups.at(j)) >= 1)))

        def group(I, a, k):
            I.oblige('groups-the-features', a[0] is self.feats)
            return self.groups
        fs = LibV('feature set', hooks={'group_features': ModelV('group_features', group)})
        c = P.born(ObjV(FeatureSetCalculator, {'feature_set': fs}))
        self.cb, self.trie = LibV('callback'), LibV('trie')
        return [c, LibV('df'), self.trie, self.feats, self.cb], {}, None
    library = True

    def post(self, P, ctx, out):
        if out.kind == 'raise':
            return [('does-not-raise', False)]
        ev = [e for e in P.events if e.value[0] == 'handled']
        if len(ev) != 1 or len(ev[0].vars) != 1:
            return [('every-group-once', False)]
        e = ev[0]
        i = e.vars[0]
        dom = z3.And(i >= 0, i < P.length(self.groups))
        _, f, g, trie, cb = e.value
        return [('every-group-once', z3.ForAll([i], B(e.guard) == dom)),
                ('the-whole-group', same_list(P, g, self.groups.at(i), i, dom)),
                ('by-the-handler-of-its-first-feature', z3.ForAll([i], z3.Implies(dom, P.term(f) == P.term(self.groups.at(i).at(z3.IntVal(0)))))),
                ('reporting-to-the-caller', cb is self.cb), ('with-the-data-of-the-others', trie is self.trie)]


class Passed(Flow):
    """the progress callback handed on is the one given"""
    keep = ('cb',)
    extra = {}

    def calls(self):
        base = super(Passed, self).calls()
        return {k: (r, dict(ps, **({'progress_callback': 'cb'} if k in self.extra else {}))) for k, (r, ps) in base.items()}

    def name(self):
        return self.target.split(':')[1] + ' hands on the progress callback'


class EntityProgress(Passed, InEntity):
    """an entity reports no progress of its own, and calculates every feature of it once"""
    extra = (FSC + '_calculate_features_for_entity',)

    def calls(self):
        out = super(EntityProgress, self).calls()

        def features(P, a):
            P.oblige('_calculate_features-receives-progress_callback', a['progress_callback'] is P.flow['cb'])
            P.event('features', (a['features'],))
            return LibV('df')
        out[FSC + '_calculate_features'] = (features, {})
        return out

    def start(self, P):
        args, kw, f = InEntity.start(self, P)
        f['cb'] = kw['progress_callback'] = ModelV('callback', lambda I, a, k: I.oblige('entity-reports-nothing-itself', real(a[0]) == 0))
        trie = args[2]
        self.full, self.feats, self.rest = trie.attrs['value']
        return args, kw, f

    def post(self, P, ctx, out):
        if out.kind == 'raise':
            return []
        ev = [e for e in P.events if isinstance(e.value, tuple) and e.value[0] == 'features']
        if any(e.vars for e in ev):
            return [('features-calculated-once', False)]
        fs = []
        for what, x in (('those-of-the-full-entity', self.feats), ('the-others', self.rest)):
            n = z3.Sum([z3.If(B(e.guard), 1, 0) for e in ev if e.value[1] is x] or [z3.IntVal(0)])
            fs.append(('%s-once' % what, n == (1 if x is self.rest else z3.If(B(self.full), 1, 0))))
        return fs + [('nothing-else', all(e.value[1] in (self.feats, self.rest) for e in ev))]

    def cover(self, P, ctx, out):
        return [(out.kind, True)]


class RunProgress(Passed, Run):
    """a run hands its callback on, or one that does nothing"""
    extra = (FSC + '_calculate_features_for_entity',)

    def start(self, P):
        args, kw, f = Run.start(self, P)
        cb = kw['progress_callback']
        if cb is not None:
            cb = kw['progress_callback'] = ModelV('callback', lambda I, a, k: None)
        # without one, the calculation still gets something to call
        f['cb'] = (lambda v: v is cb) if cb is not None else (lambda v: v is not None)
        return args, kw, f


def report(b):
    """the caller's callback: what it is told follows from the bar, and continues where the last report ended"""
    def told(I, a, k):
        n, t, seen = (real(b.attrs[x]) for x in ('n', 'total', 'reported'))
        I.oblige('percentage-told-is-the-one-done', real(a[1]) * t == 100 * n)
        I.oblige('change-told-is-the-one-since-the-last-report', real(a[0]) * t == 100 * (n - seen))
        I.set_attr(b, 'reported', n)
        I.event('told', ())
    return ModelV('progress_callback', told)


def parameters(P, a):
    b, prev = a['progress_bar'], real(a['previous_progress'])
    n, t = real(b.attrs['n']), real(b.attrs['total'])
    up, pc = P.make(REAL, 'update'), P.make(REAL, 'progress')
    P.assume(z3.And(up * t == 100 * (n - prev), pc * t == 100 * n))
    return (up, pc, P.make(REAL, 'time_elapsed'))


def told_bar(P):
    b = bar(P)
    b.attrs['reported'] = b.attrs['n']
    P.assume(b.attrs['total'] > 0)
    return b


def frame_of(P, name, **hooks):
    n = P.make(INT, name)
    P.assume(n >= 0)
    return LibV(name, pd.DataFrame, dict(hooks, shape=(n, P.make(INT, name + '_columns')))), n


class ChunkProgress(Chunk):
    """a chunk advances the bar by one row for every row done, and tells the caller [two groups of cutoff times]"""
    keep = ()

    def name(self):
        return 'calculate_chunk reports its progress'

    def calls(self):
        out = super(ChunkProgress, self).calls()

        def run(P, a):
            cb = a['progress_callback']
            if self.bar is None:
                P.oblige('no-bar-no-report', cb is None)
                return LibV('matrix')
            for i in range(2):
                done, before = P.make(REAL, 'done'), real(self.bar.attrs['n'])
                P.call(cb, [done], {})
                now = real(self.bar.attrs['n'])
                rows = self.rows(a)
                P.oblige('the-bar-advances-by-the-rows-done', now - before == done * z3.ToReal(rows))
                if self.told:
                    P.oblige('the-caller-is-told', real(self.bar.attrs['reported']) == now)
            return LibV('matrix')
        out[FSC + 'run'] = (run, {})
        out[CFM + 'update_progress_callback_parameters'] = (parameters, {})
        return out

    def rows(self, a):
        return self.sizes[id(a['instance_ids'])]

    def start(self, P):
        args, kw, f = Chunk.start(self, P)
        self.bar = b = told_bar(P) if P.decide(P.make(BOOL, 'with_bar')) else None
        kw['progress_bar'] = b
        self.told = P.decide(P.make(BOOL, 'with_callback'))
        kw['progress_callback'] = report(b) if self.told and b is not None else None
        self.told = self.told and b is not None
        self.sizes = {}
        if isinstance(kw['cutoff_time'], tuple):
            n = P.make(INT, 'instances')
            P.assume(n >= 1)
            ids = LibV('ids', hooks={'__len__': ModelV('len', lambda I, a, k: n)})
            self.sizes[id(ids)] = n
            self.keepalive = ids
            kw['cutoff_time'] = (kw['cutoff_time'][0], ids)
        else:
            self.keepalive = []

            def group(name):
                ids = LibV('ids of ' + name)
                vals = LibV('sorted', hooks={'values': ids})
                col = LibV('column', hooks={'sort_values': ModelV('sort_values', lambda I, a, k: vals)})
                g, n = frame_of(P, name)
                g.hooks['__getitem__'] = ModelV('getitem', lambda I, a, k: col)
                self.sizes[id(ids)] = n
                self.keepalive.append((ids, vals, col, g))
                return g
            inner = [group('rows%d' % i) for i in range(2)]
            outer = [group('outer%d' % i) for i in range(2)]
            for o in outer:
                o.hooks['groupby'] = ModelV('groupby', lambda I, a, k: P.mklist([(LibV('time'), g) for g in inner]))
            kw['chunk_size'] = None
            kw['cutoff_time'] = LibV('cutoff', pd.DataFrame, hooks={'groupby': ModelV('groupby', lambda I, a, k: P.mklist([(LibV('time'), g) for g in outer]))})
        return args, kw, f

    def cover(self, P, ctx, out):
        return [(out.kind + (' table' if isinstance(self.keepalive, list) else ' one time'), True)]


class MatrixProgress(Matrix):
    """the calculation ends with the bar full and the caller told so [no approximation, no instance ids, times in the index]"""
    keep = ('bar', 'callback')

    def name(self):
        return 'calculate_feature_matrix reports its progress'

    def calls(self):
        out = super(MatrixProgress, self).calls()

        def part(P, a):
            # the contract of calculate_chunk: the bar moves, and the caller knows as much as the bar
            n = P.make(REAL, 'n_after')
            P.set_attr(self.bar, 'n', n)
            P.set_attr(self.bar, 'reported', n)
            return LibV('matrix')
        for f in ('calculate_chunk', 'parallel_calculate_chunks'):
            out[CFM + f] = (part, {'progress_bar': 'bar', 'progress_callback': 'callback'})
        out[CFM + 'update_progress_callback_parameters'] = (parameters, {})

        def make(P, a):
            P.oblige('the-total-leaves-room-for-what-follows', real(a['total']) >= z3.ToReal(self.rows) if self.rows is not None else True)
            P.assume(real(a['total']) == real(self.bar.attrs['total'])) if z3.is_expr(a['total']) else None
            return self.bar
        out[CFM + 'make_tqdm_iterator'] = (make, {})
        return out

    def start(self, P):
        args, kw, f = Matrix.start(self, P)
        if f['approximate'] is not None or kw['instance_ids'] is not None:
            raise Infeasible()
        kw['cutoff_time_in_index'] = True
        self.bar = told_bar(P)
        f['bar'] = self.bar
        self.told = P.decide(P.make(BOOL, 'with_callback'))
        cb = kw['progress_callback'] = report(self.bar) if self.told else None
        f['callback'] = (lambda v: v is cb)
        self.rows = None
        if isinstance(f['ct'], LibV):
            f['ct'], n = frame_of(P, 'cutoff_times')
            P.assume(n >= 1)
            self.rows = n
        return args, kw, f

    def post(self, P, ctx, out):
        if out.kind == 'raise':
            return []
        n, t, seen = (real(self.bar.attrs[x]) for x in ('n', 'total', 'reported'))
        return [('the-bar-ends-full', n == t)] + ([('the-caller-is-told-of-the-end', seen == t)] if self.told else [])

    def cover(self, P, ctx, out):
        return [(out.kind + (' told' if self.told else ''), True)]


class ParallelProgress(Parallel):
    """every result of a worker advances the bar by its rows, and the caller is told; the workers report nothing themselves [two results]"""
    keep = ('none',)

    def name(self):
        return 'parallel_calculate_chunks reports its progress'

    def calls(self):
        out = super(ParallelProgress, self).calls()
        out[CFM + 'update_progress_callback_parameters'] = (parameters, {})
        out[CFM + 'calculate_chunk'] = (None, {'progress_bar': 'none'})
        return out

    def client(self, P, a):
        c, cluster = Parallel.client(self, P, a)
        c.hooks['gather'] = ModelV('gather', lambda I, a, k: P.mklist([r for r, _ in self.results]))
        return c, cluster

    def models(self):
        import distributed
        from featuretools.computational_backends import calculate_feature_matrix as m
        out = super(ParallelProgress, self).models()
        futures = LibV('completed', hooks={'batches': ModelV('batches', lambda I, a, k: I.mklist([LibV('batch')]))})
        def completed(I, a, k):
            return futures
        completed.forced = True
        out[distributed.as_completed] = completed
        return out

    def start(self, P):
        args, kw, f = Parallel.start(self, P)
        self.bar = b = kw['progress_bar'] = told_bar(P)
        b.attrs['reset'] = ModelV('reset', lambda I, a, k: (I.set_attr(b, 'n', z3.RealVal(0)), I.set_attr(b, 'reported', z3.RealVal(0))) and None)
        self.results = [frame_of(P, 'result%d' % i) for i in range(2)]
        kw['progress_callback'] = report(b) if kw['progress_callback'] is not None else None
        self.told = kw['progress_callback'] is not None
        f['none'] = None
        b.attrs['disable'] = P.make(BOOL, 'disabled')
        self.before = b.attrs['n']
        return args, kw, f

    def post(self, P, ctx, out):
        if out.kind == 'raise':
            return []
        start = z3.If(self.bar.attrs['disable'], real(self.before), z3.RealVal(0))
        n = real(self.bar.attrs['n'])
        rows = z3.Sum([z3.ToReal(r) for _, r in self.results])
        return [('the-bar-advances-by-the-rows-done', n == start + rows)] + ([('the-caller-is-told', real(self.bar.attrs['reported']) == n)] if self.told else [])

    def cover(self, P, ctx, out):
        return [(out.kind, True)]


HANDLERS = ['_calculate_identity_features', '_calculate_transform_features', '_calculate_direct_features']
CONTRACTS = [Parameters, Together, EntityProgress, RunProgress, ChunkProgress, ParallelProgress] + [variant(MatrixProgress, 'MatrixProgress' + str(k), kind=k, name=lambda self, w=w: 'calculate_feature_matrix reports its progress [%s]' % w)
                                                                                  for k, w in (('table', 'a table of cutoff times'), ('time', 'one cutoff time'), (None, 'no cutoff times'))] + [variant(Handler, 'Handler' + m, method=m) for m in HANDLERS] + [GroupHandler]
