"""The settings of a calculation on their way from calculate_feature_matrix to every query.
Used by L01 (cutoff time), L02 (training window), C05 (chunks and workers)."""
from flow import *
import pandas as pd
from featuretools.entityset.entityset import EntitySet
from featuretools.entityset.entity import Entity
from featuretools.entityset.relationship import Relationship
from featuretools.computational_backends.feature_set_calculator import FeatureSetCalculator
from featuretools.computational_backends.feature_set import FeatureSet
from featuretools.feature_base import FeatureBase
ES = 'featuretools.entityset.entityset:EntitySet.'
CB = 'featuretools.computational_backends.'
FSC = CB + 'feature_set_calculator:FeatureSetCalculator.'
CFM = CB + 'calculate_feature_matrix:'
QUERY = {'time_last': 'time', 'training_window': 'window', 'include_cutoff_time': 'inc'}


def calculator(P, **kw):
    a = {'entityset': LibV('entityset'), 'time_last': P.make(ANY, 'time_last'), 'training_window': P.make(ANY, 'training_window'),
         'feature_set': LibV('feature set'), 'precalculated_features': LibV('trie')}
    a.update(kw)
    return P.born(ObjV(FeatureSetCalculator, a))


class InEntity(Flow):
    """every query of a calculation uses the settings of the calculator, and children are calculated by the same calculator"""
    target = FSC + '_calculate_features_for_entity'

    def calls(self):
        return {ES + 'query_by_values': (None, QUERY),
                FSC + '_calculate_features_for_entity': (lambda P, a: None, {'self': 'calc', 'include_cutoff_time': 'inc'}),
                FSC + '_necessary_columns': (None, {}), FSC + '_calculate_features': (None, {}),
                FSC + '_add_ancestor_relationship_variables': (lambda P, a: (LibV('df'), P.fresh_list(STR, 'vars')), {})}

    def start(self, P):
        inc = P.make(BOOL, 'include_cutoff_time')
        calc = calculator(P, entityset=P.born(ObjV(EntitySet, {'id': 'es'})))
        kids = P.fresh_list(Tup(BOOL, Ref(Relationship)), 'edges')
        q = kids.pieces[0]
        kids = P.born(ListV([Piece(q.vars, q.guard, (q.value, LibV('trie')))]))
        trie = P.born(ObjV('Trie', {'value': (P.make(BOOL, 'need_full_entity'), LibV('features'), LibV('features')),
                                    'children': ModelV('children', lambda I, a, k: kids)}))
        pd_ = (P.make(Ref(Relationship), 'parent_relationship'), P.fresh_list(STR, 'ancestors'), LibV('parent df')) if P.decide(P.make(BOOL, 'has_parent')) else None
        args = [calc, P.make(STR, 'entity_id'), trie, LibV('trie'), LibV('trie'), LibV('trie'), P.make(STR, 'filter_variable'), LibV('values')]
        return args, dict(parent_data=pd_, progress_callback=LibV('callback'), include_cutoff_time=inc), \
            dict(time=calc.attrs['time_last'], window=calc.attrs['training_window'], inc=inc, calc=calc)


class Run(Flow):
    """a run starts the calculation of the target entity with its own settings"""
    target = FSC + 'run'

    def calls(self):
        def done(P, a):
            P.setattr(a['df_trie'], 'value', LibV('df'))
        return {FSC + '_calculate_features_for_entity': (done, {'self': 'calc', 'include_cutoff_time': 'inc', 'filter_values': 'ids'}),
                FSC + 'generate_default_df': (None, {})}

    def start(self, P):
        inc, ids = P.make(BOOL, 'include_cutoff_time'), LibV('ids')
        calc = calculator(P)
        return [calc, ids], dict(progress_callback=LibV('callback') if P.decide(P.make(BOOL, 'has_callback')) else None, include_cutoff_time=inc), \
            dict(inc=inc, calc=calc, ids=ids)


class NewCalculator(Flow):
    """a calculator keeps the settings it is given"""
    target = FSC + '__init__'
    keep = ('time', 'window', 'data')

    def start(self, P):
        calc = P.born(ObjV(FeatureSetCalculator, {}))
        t, w, es = P.make(ANY, 'time_last'), P.make(ANY, 'training_window'), LibV('entityset')
        P.assume(P.term(t) != P.NONE)
        pre = LibV('trie') if P.decide(P.make(BOOL, 'precalculated')) else None
        fs = LibV('feature set')
        return [calc, es, fs], dict(time_last=t, training_window=w, precalculated_features=pre), dict(calc=calc, time=t, window=w, es=es, fs=fs, pre=pre)

    def post(self, P, ctx, out):
        if out.kind == 'raise':
            return [('does-not-raise', False)]
        a = ctx['calc'].attrs
        fs = []
        if 'time' in self.keep:
            fs.append(('keeps-the-cutoff-time', same(P, a.get('time_last'), ctx['time'])))
        if 'window' in self.keep:
            fs.append(('keeps-the-training-window', same(P, a.get('training_window'), ctx['window'])))
        if 'data' in self.keep:
            fs += [('keeps-the-entity-set', a.get('entityset') is ctx['es']), ('keeps-the-features', a.get('feature_set') is ctx['fs']),
                   ('keeps-what-was-precalculated', True if ctx['pre'] is None else a.get('precalculated_features') is ctx['pre'])]
        return fs


class Chunk(Flow):
    """every calculator made for a chunk has the settings of the chunk"""
    target = CFM + 'calculate_chunk'

    def calls(self):
        return {FSC + '__init__': (lambda P, a: None, {'entityset': 'es', 'feature_set': 'fs', 'time_last': 'time', 'training_window': 'window_used'}),
                FSC + 'run': (None, {'include_cutoff_time': 'inc'}),
                CFM + 'approximate_features': (None, {'feature_set': 'fs', 'window': 'approximate', 'entityset': 'es', 'training_window': 'window', 'include_cutoff_time': 'inc'}),
                CFM + 'update_progress_callback_parameters': (lambda P, a: (LibV('n'),) * 3, {}),
                CFM + '_chunk_dataframe_groups': (None, {}),
                CB + 'utils:save_csv_decorator': (lambda P, a: ModelV('decorator', lambda I, x, k: x[0]), {'save_progress': 'save'})}

    def start(self, P):
        g = lambda n: P.make(ANY, n)
        inc, flag = P.make(BOOL, 'include_cutoff_time'), P.make(BOOL, 'no_unapproximated_aggs')
        es = LibV('entityset')
        fs = P.born(ObjV(FeatureSet, {}))
        time = P.make(ANY, 'time')
        single = P.decide(P.make(BOOL, 'one_cutoff_time'))
        ct = (time, LibV('ids')) if single else LibV('cutoff times', pd.DataFrame)
        ap = None if single or P.decide(P.make(BOOL, 'exact')) else P.make(STR, 'approximate')
        w, save = P.make(ANY, 'training_window'), P.make(Opt(STR), 'save_progress')
        # the only time a window is left out is when every aggregation has been approximated before
        if ap is not None:
            P.assume(Not(P.py_eq(ap, '')))
        bar = P.decide(P.make(BOOL, 'bar'))
        used = (lambda v: Implies(Not(flag), same(P, v, w))) if ap is not None else w
        kw = dict(cutoff_time=ct, chunk_size=LibV('chunk size'), feature_set=fs, entityset=es, approximate=ap, training_window=w,
                  save_progress=save, no_unapproximated_aggs=flag, cutoff_df_time_var='time', target_time='_original_time',
                  pass_columns=LibV('columns'), progress_bar=LibV('bar') if bar else None,
                  progress_callback=LibV('callback') if bar else None, include_cutoff_time=inc)
        return [], kw, dict(es=es, fs=fs, time=time if single else (lambda v: True), window=w, window_used=used, inc=inc, approximate=ap, save=save)

    def cover(self, P, ctx, out):
        return [c for c in Flow.cover(self, P, ctx, out) if 'save_csv' not in c[0]]


class Approximate(Flow):
    """approximated features are calculated with the settings of the chunk"""
    target = CFM + 'approximate_features'

    def calls(self):
        return {CFM + 'calculate_feature_matrix': (None, {'entityset': 'es', 'training_window': 'window', 'include_cutoff_time': 'inc', 'approximate': 'no_approximation'}),
                CFM + 'bin_cutoff_times': (None, {'bin_size': 'approximate'}),
                CFM + '_add_approx_entity_index_var': (lambda P, a: (LibV('df'), P.make(STR, 'index_variable')), {}),
                CFM + 'gen_empty_approx_features_df': (None, {})}

    def models(self):
        from featuretools.entityset.relationship import RelationshipPath
        from featuretools.utils import Trie
        return {Trie: lambda I, a, k: LibV('trie')}

    def start(self, P):
        ap, w, inc, es = P.make(STR, 'approximate'), P.make(ANY, 'training_window'), P.make(BOOL, 'include_cutoff_time'), LibV('entityset')
        return [LibV('feature set'), LibV('cutoff', pd.DataFrame), ap, es], dict(training_window=w, include_cutoff_time=inc), \
            dict(es=es, window=w, inc=inc, approximate=ap, no_approximation=None)


class Parallel(Flow):
    """every worker gets the settings of the calculation"""
    target = CFM + 'parallel_calculate_chunks'
    SAME = {'approximate': 'approximate', 'training_window': 'window', 'save_progress': 'save', 'no_unapproximated_aggs': 'flag',
            'cutoff_df_time_var': 'tv', 'target_time': 'tt', 'pass_columns': 'cols', 'include_cutoff_time': 'inc'}

    def calls(self):
        return {CFM + 'calculate_chunk': (None, self.SAME),
                CFM + 'create_client_and_cluster': (self.client, {}),
                CFM + '_handle_chunk_size': (None, {}), CFM + '_chunk_dataframe_groups': (None, {}), CFM + 'scatter_warning': (None, {}),
                CFM + 'update_progress_callback_parameters': (lambda P, a: (LibV('n'),) * 3, {})}

    def client(self, P, a):
        def map_(I, args, kw):
            # one call per chunk, the keywords the same for all
            kw = {k: v for k, v in kw.items()}
            I.call(args[0], [LibV('chunk')] * (len(args) - 1), kw)
            return LibV('futures')
        return (LibV('client', hooks={'map': ModelV('Client.map', map_)}), LibV('cluster'))

    def models(self):
        import dask.base
        return {dask.base.tokenize: lambda I, a, k: 'token'}

    def start(self, P):
        es, fs = LibV('entityset'), LibV('feature set')
        f = dict(approximate=P.make(Opt(STR), 'approximate'), window=P.make(ANY, 'training_window'), save=P.make(Opt(STR), 'save_progress'),
                 flag=P.make(BOOL, 'no_unapproximated_aggs'), tv='time', tt='_original_time', cols=LibV('columns'),
                 inc=P.make(BOOL, 'include_cutoff_time'))
        kw = {k: f[v] for k, v in self.SAME.items()}
        frame = P.decide(P.make(BOOL, 'table'))
        kw.update(cutoff_time=LibV('cutoff', pd.DataFrame) if frame else (P.make(ANY, 'time'), LibV('ids')), chunk_size=LibV('chunk size'), feature_set=fs, entityset=es, n_jobs=P.make(INT, 'n_jobs'),
                  progress_bar=LibV('bar'), dask_kwargs=LibV('dask_kwargs'), progress_callback=LibV('callback') if P.decide(P.make(BOOL, 'callback')) else None)
        return [], kw, f


class Matrix(Flow):
    """the calculation of a feature matrix hands on the settings it is given"""
    target = CFM + 'calculate_feature_matrix'
    SAME = {'approximate': 'approximate', 'training_window': 'window', 'save_progress': 'save', 'entityset': 'es', 'include_cutoff_time': 'inc'}
    kind = 'any'        # of cutoff times

    def calls(self):
        return {CFM + 'calculate_chunk': (None, self.SAME), CFM + 'parallel_calculate_chunks': (None, dict(self.SAME, n_jobs='n_jobs')),
                ES + '_handle_time': (None, {'training_window': 'window', 'include_cutoff_time': 'inc', 'time_last': 'one_time'}),
                CFM + '_validate_cutoff_time': (lambda P, a: P.flow['ct'], {}),
                CFM + '_check_cutoff_time_type': (None, {}), CFM + '_handle_chunk_size': (None, {}),
                CFM + 'gather_approximate_features': (None, {}), CFM + 'bin_cutoff_times': (None, {'bin_size': 'approximate'}),
                CFM + 'make_tqdm_iterator': (None, {}),
                CFM + 'update_progress_callback_parameters': (lambda P, a: (LibV('n'),) * 3, {})}

    def cover(self, P, ctx, out):
        # a table of cutoff times already names the instances
        return [(w, r) for w, r in Flow.cover(self, P, ctx, out) if self.kind != 'table' or w != 'call of EntitySet._handle_time']

    def specs(self):
        lib = ('model', lambda I, v, k: LibV('entity'))
        return {EntitySet: {'__getitem__': lib}}

    def models(self):
        return {FeatureSet: lambda I, a, k: LibV('feature set')}

    def start(self, P):
        es = P.born(ObjV(EntitySet, {'id': 'es', 'time_type': LibV('time type'), 'entities': P.mklist([])}))
        feats = LibV('features', list)
        kind = self.kind
        if kind == 'any':
            kind = 'table' if P.decide(P.make(BOOL, 'table')) else 'time' if P.decide(P.make(BOOL, 'time')) else None
        time = P.make(ANY, 'cutoff')
        P.assume(P.term(time) != P.NONE)
        P.assume(Not(P.isinstance_(time, (pd.DataFrame, tuple))))
        ct = LibV('cutoff times', pd.DataFrame) if kind == 'table' else time if kind == 'time' else None
        ap = P.make(STR, 'approximate') if P.decide(P.make(BOOL, 'approximated')) else None
        f = dict(approximate=ap, window=P.make(ANY, 'training_window'), save=P.make(Opt(STR), 'save_progress'), es=es,
                 inc=P.make(BOOL, 'include_cutoff_time'), n_jobs=P.make(INT, 'n_jobs'), ct=ct, one_time=(lambda v: same(P, v, time)) if kind == 'time' else (lambda v: Not(P.is_none(v))))
        kw = {k: f[v] for k, v in self.SAME.items()}
        kw.update(cutoff_time=LibV('the cutoff'), instance_ids=LibV('ids') if kind and P.decide(P.make(BOOL, 'ids')) else None, cutoff_time_in_index=LibV('in index'),
                  n_jobs=f['n_jobs'], dask_kwargs=LibV('kwargs') if kind == 'time' else None, progress_callback=LibV('callback'),
                  verbose=LibV('verbose'), chunk_size=LibV('chunk size'))
        return [feats], kw, f


ALL = [InEntity, Run, NewCalculator, Chunk, Approximate, Parallel, Matrix]


def for_settings(prefix, *keep, only=None):
    """the contracts of the chain, restricted to some settings"""
    out = []
    for c in only or ALL:
        if c is not NewCalculator and not any(x in keep for r, ps in c().calls().values() for x in ps.values()):
            continue
        # taken apart by the kind of cutoff times, so that the parts are decided side by side
        for kind, which in (('table', ' [a table of cutoff times]'), ('time', ' [one cutoff time]'), (None, ' [no cutoff times]')) if c is Matrix else (('any', ''),):
            k = type(prefix + c.__name__, (c,), {'keep': keep, '__doc__': c.__doc__, 'kind': kind, 'name': lambda self, c=c, w=which: '%s hands on its settings%s' % (c.target.split(':')[1], w)})
            out.append(k)
    return out
