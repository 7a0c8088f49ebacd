"""The caller's data: what the functions of a calculation are given to read they do not write to, and what they hand back is not the caller's."""
from own import *
import pandas as pd
from featuretools.entityset.entityset import EntitySet
from featuretools.entityset.entity import Entity
from featuretools.feature_base import feature_base as fb
from flowsettings import CB, CFM, FSC, ES, InEntity, Run, Chunk, Parallel, Matrix, Approximate, calculator
from contracts.f02 import variant
from featuretools.entityset.relationship import Relationship
U = CB + 'utils:'
TD = 'featuretools.utils.wrangle:_check_timedelta'


def entity(P, **kw):
    """an entity of the caller's, its data and last time indexes included"""
    ti = P.make(STR, 'time_index') if P.decide(P.make(BOOL, 'has_time_index')) else None
    # the times and columns of a secondary time index
    sec = P.born(DictV([Piece((), True, (P.make(STR, 'secondary'), P.fresh_list(STR, 'secondary_columns')))] if P.decide(P.make(BOOL, 'has_secondary')) else []))
    lti = OwnV('last time index', pd.Series) if P.decide(P.make(BOOL, 'has_last_time_index')) else None
    a = dict(id=P.make(STR, 'entity_id'), df=OwnV("entity's data", pd.DataFrame), index=P.make(STR, 'index'), time_index=ti, secondary_time_index=sec,
             last_time_index=lti, variables=LibV('variables'), entityset=LibV('entityset'))
    a.update(kw)
    return frozen(P.born(ObjV(Entity, a)), 'the entity')


class EntityData(object):
    """the entity set is read only"""
    def specs(self):
        es = ('model', lambda P, v, *a, **k: self.the_entity)
        return {EntitySet: {'__getitem__': es}}


def entityset(P, self, **kw):
    self.the_entity = e = entity(P, **kw)
    es = P.born(ObjV(EntitySet, {'id': 'es', 'entity_dict': LibV('entities'), 'relationships': P.fresh_list(ANY, 'relationships'), 'time_type': LibV('time type')}))
    es.attrs['__getitem__'] = ModelV('getitem', lambda I, a, k: e)
    return es


class HandleTime(Frame):
    """the rows at a cutoff are selected without writing to the data they are selected from"""
    target = ES + '_handle_time'

    def calls(self):
        return {ES + '__getitem__': (lambda P, a: self.the_entity, {}), TD: (None, {})}

    def start(self, P):
        es = entityset(P, self)
        return [es, P.make(STR, 'entity_id'), self.the_entity.attrs['df']], dict(time_last=LibV('cutoff time') if P.decide(P.make(BOOL, 'cutoff')) else None,
                training_window=LibV('window') if P.decide(P.make(BOOL, 'window')) else None, include_cutoff_time=P.make(BOOL, 'include')), {}


class Query(Frame):
    """a query returns new rows, and leaves the entity and the values asked for alone"""
    target = ES + 'query_by_values'
    fresh = True

    def calls(self):
        # the contract of _handle_time: it does not write to its data, and may hand them back
        return {ES + '__getitem__': (lambda P, a: self.the_entity, {}), TD: (None, {}),
                ES + '_handle_time': (lambda P, a: a['df'] if P.decide(P.make(BOOL, 'same_rows')) else LibV('rows'), {})}

    def start(self, P):
        es = entityset(P, self)
        vals = None if P.decide(P.make(BOOL, 'all')) else OwnV('the values asked for', pd.Series) if P.decide(P.make(BOOL, 'series')) else OwnV('the values asked for', pd.DataFrame)
        cols = P.fresh_list(STR, 'columns') if P.decide(P.make(BOOL, 'columns given')) else None
        return [es, P.make(STR, 'entity_id'), vals], dict(variable_id=P.make(Opt(STR), 'variable_id'), columns=cols, time_last=LibV('cutoff time'),
                                                           training_window=LibV('window') if P.decide(P.make(BOOL, 'window')) else None, include_cutoff_time=P.make(BOOL, 'include')), {}


class Validate(Frame):
    """the table that is calculated with is a new one"""
    target = U + '_validate_cutoff_time'
    fresh = True

    def start(self, P):
        return [OwnV('the cutoff table', pd.DataFrame), entity(P)], {}, {}


class Bin(Frame):
    """rounding the cutoff times gives a new table"""
    target = U + 'bin_cutoff_times'
    fresh = True

    def calls(self):
        return {U + 'datetime_round': (None, {}), TD: (None, {})}

    def start(self, P):
        return [OwnV('the cutoff table', pd.DataFrame), P.make(INT, 'bin') if P.decide(P.make(BOOL, 'number')) else LibV('window')], {}, {}


class MatrixFrame(Frame, Matrix):
    """the calculation of a feature matrix leaves the cutoff table, the instance list, the features and the entity set alone [no approximation]"""
    keep = ()

    def calls(self):
        out = Matrix.calls(self)
        # the contract of _validate_cutoff_time: a table becomes a new table, a single time stays what it is
        out[CFM + '_validate_cutoff_time'] = (lambda P, a: LibV('a new table', pd.DataFrame) if self.table else a['cutoff_time'], {})
        out[CFM + 'update_progress_callback_parameters'] = (lambda P, a: (LibV('n'),) * 3, {})
        # the calculation itself is given the caller's instances: its own contract
        return out

    def specs(self):
        lib = ('model', lambda I, v, k: self.the_entity)
        return {EntitySet: {'__getitem__': lib}}

    def start(self, P):
        args, kw, f = Matrix.start(self, P)
        if f['approximate'] is not None:
            raise Infeasible()
        self.table = isinstance(f['ct'], LibV)
        self.the_entity = e = entity(P)
        es = f['es']
        frozen(es, 'the entity set')
        es.attrs['__getitem__'] = ModelV('getitem', lambda I, a, k: e)
        feats = OwnV('the feature list', list)
        kw['cutoff_time'] = OwnV('the cutoff table', pd.DataFrame) if self.table else f['ct']
        kw['instance_ids'] = OwnV('the instance list', pd.Series) if kw['instance_ids'] is not None else None
        kw['cutoff_time_in_index'] = True
        kw['verbose'] = False
        kw['progress_callback'] = None
        if kw['dask_kwargs'] is not None:
            kw['dask_kwargs'] = frozen(P.born(DictV([Piece((), True, (P.make(STR, 'setting'), LibV('value')))])), 'the dask settings')
        return [feats], kw, f


class ChunkFrame(Frame, Chunk):
    """calculating a chunk leaves the entity set and the cutoff times it was given alone (groups of a table are new tables)"""
    keep = ()

    def calls(self):
        out = Chunk.calls(self)
        # the contract of approximate_features: it adds to the table it is given, and to nothing else
        out[CFM + 'approximate_features'] = (lambda P, a: self.adds(P, a['cutoff_time']), {})
        return out

    def adds(self, P, table):
        P.oblige('the-table-that-is-added-to-is-new', not owned_in(P, table))
        return LibV('trie')

    def start(self, P):
        args, kw, f = Chunk.start(self, P)
        kw['progress_bar'] = kw['progress_callback'] = None
        kw['entityset'] = frozen(P.born(ObjV(EntitySet, {'id': 'es', 'time_type': LibV('time type')})), 'the entity set')
        if isinstance(kw['cutoff_time'], tuple):
            kw['cutoff_time'] = (kw['cutoff_time'][0], OwnV('the instances', pd.Series))
        else:
            kw['cutoff_time'] = OwnV('the cutoff table', pd.DataFrame)
        return args, kw, f


class ParallelFrame(Frame, Parallel):
    """distributing a calculation leaves the cutoff times and the dask settings alone"""
    keep = ()

    def calls(self):
        return Parallel.calls(self)

    def models(self):
        return Parallel.models(self)

    def start(self, P):
        args, kw, f = Parallel.start(self, P)
        kw['cutoff_time'] = OwnV('the cutoff table', pd.DataFrame) if not isinstance(kw['cutoff_time'], tuple) else (kw['cutoff_time'][0], OwnV('the instances', pd.Series))
        kw['dask_kwargs'] = frozen(P.born(DictV([Piece((), True, (P.make(STR, 'setting'), LibV('value')))])), 'the dask settings')
        kw['progress_callback'] = None
        return args, kw, f


class ApproximateFrame(Frame, Approximate):
    """the binned table and every table made from it are new; the only table added to is the chunk's own"""
    keep = ()

    def calls(self):
        out = Approximate.calls(self)
        out[CFM + 'bin_cutoff_times'] = (lambda P, a: OwnV('the binned table', pd.DataFrame), {})
        out[CFM + '_add_approx_entity_index_var'] = (lambda P, a: (P.oblige('gets-a-copy', not owned_in(P, a['cutoffs'])), (LibV('df'), P.make(STR, 'index_variable')))[1], {})
        return out

    def models(self):
        return Approximate.models(self)

    def start(self, P):
        args, kw, f = Approximate.start(self, P)
        args[3] = frozen(P.born(ObjV(EntitySet, {'id': 'es'})), 'the entity set')
        return args, kw, f


class Link(Frame):
    """linking the cutoff times to an ancestor entity reads the data of the entities only"""
    target = CFM + '_add_approx_entity_index_var'
    fresh = True

    def specs(self):
        return {EntitySet: {'__getitem__': ('model', lambda I, v, k: self.the_entity)}}

    def start(self, P):
        self.the_entity = e = entity(P)
        es = frozen(P.born(ObjV(EntitySet, {'id': 'es'})), 'the entity set')
        es.attrs['__getitem__'] = ModelV('getitem', lambda I, a, k: e)
        path = P.fresh_list(Tup(BOOL, Ref(Relationship)), 'path')
        P.assume(P.length(path) >= 1)
        return [es, P.make(STR, 'target'), LibV('a copy of the cutoff times', pd.DataFrame), path], {}, {}


class FeatureV(LibV):
    """a feature; comparing it makes a new feature"""
    def compare(self, I, op, y, refl):
        return FeatureV('new feature')


def feature_list(P):
    i, n = z3.Int('i!f'), P.make(INT, 'features')
    P.assume(n >= 0)
    return frozen(P.born(ListV([Piece((i,), z3.And(i >= 0, i < n), FeatureV('feature'))])), 'the feature list')


class Encode(Frame):
    """encoding without inplace leaves the matrix, the features and the list of features to encode alone [drop_first=False]"""
    target = 'featuretools.synthesis.encode_features:encode_features'
    fresh = True

    def calls(self):
        return {'featuretools.utils.gen_utils:make_tqdm_iterator': (None, {})}

    def start(self, P):
        feats = feature_list(P)
        enc = frozen(P.fresh_list(STR, 'to_encode'), 'the list of features to encode') if P.decide(P.make(BOOL, 'some')) else None
        return [OwnV('the feature matrix', pd.DataFrame), feats], dict(top_n=P.make(INT, 'top_n'), include_unknown=P.make(BOOL, 'include_unknown'), to_encode=enc,
                                                                         inplace=False, drop_first=False, verbose=False), {}


SEL = 'featuretools.selection.selection:'


class Select(Frame):
    """selecting features leaves the matrix and the feature list alone"""
    method = None
    extra = ()

    @property
    def target(self):
        return SEL + self.method

    def start(self, P):
        feats = feature_list(P) if P.decide(P.make(BOOL, 'with features')) else None
        kw = {}
        for x in self.extra:
            kw[x] = P.make(REAL, x) if 'threshold' in x else P.make(BOOL, x) if x.startswith('count') else \
                (OwnV(x, list) if P.decide(P.make(BOOL, x + ' given')) else None)
        m = OwnV('the feature matrix', pd.DataFrame)
        if self.method == '_apply_feature_selection':
            return [P.fresh_list(STR, 'keep'), m, feats], kw, {}
        return [m, feats], kw, {}

    def calls(self):
        return {} if self.method == '_apply_feature_selection' else {SEL + '_apply_feature_selection': (None, {})}


class RunFrame(Frame, Run):
    """a run leaves the instances it is asked for alone"""
    keep = ()

    def calls(self):
        return Run.calls(self)

    def start(self, P):
        args, kw, f = Run.start(self, P)
        args[1] = OwnV('the instances', pd.Series)
        return args, kw, f


class EntityFrame(Frame, InEntity):
    """calculating the features of an entity leaves the values it is filtered by and the data of its parent alone"""
    keep = ()

    def calls(self):
        return InEntity.calls(self)

    def specs(self):
        return InEntity.specs(self)

    def start(self, P):
        args, kw, f = InEntity.start(self, P)
        args[7] = OwnV('the values', pd.Series)
        if kw['parent_data'] is not None:
            r, anc, _ = kw['parent_data']
            kw['parent_data'] = (r, frozen(anc, 'the list of variables'), OwnV("the parent's data", pd.DataFrame))
        return args, kw, f


SELECT = [('_apply_feature_selection', ()), ('remove_low_information_features', ()), ('remove_highly_null_features', ('pct_null_threshold',)),
          ('remove_single_value_features', ('count_nan_as_value',)), ('remove_highly_correlated_features', ('pct_corr_threshold', 'features_to_check', 'features_to_keep'))]
KINDS = [variant(MatrixFrame, 'MatrixFrame' + str(k), kind=k, name=lambda self, w=w: "calculate_feature_matrix leaves the caller's data alone [%s]" % w)
         for k, w in (('table', 'a table of cutoff times'), ('time', 'one cutoff time'), (None, 'no cutoff times'))]
CONTRACTS = KINDS + [HandleTime, Query, Validate, Bin, ChunkFrame, ParallelFrame, ApproximateFrame, Link, Encode, RunFrame, EntityFrame] + \
    [variant(Select, 'Select' + m, method=m, extra=x) for m, x in SELECT]
