"""Which bounded stand-ins accompany the contracts of each property, and how the evidence describes both."""

RULE = ('A case is a generated entityset (2-4 entities, several relationships between the same entities, dangling and missing links, tied and '
        'boundary times, missing values) together with generated features/arguments; it is non-trivial when the oracle compared at least one value '
        'that the property constrains, and distinct when its printed features/arguments differ.')

TRUSTED = [
    'the contract verifier in /verif/fv (symbolic interpreter of the Python AST; self-tested by /verif/fv/selftest.py)',
    'z3 5.3.2 and cvc5 as decision procedures',
    'CPython semantics of the constructs the interpreter supports; floats are treated as mathematical reals',
    'the stated models of pandas/numpy/library callees (listed per function as dependency_models_assumed)',
    'library values: in contracts about what is passed on, a pandas/numpy/dask/tqdm value is an arbitrary value, tests on it may go either way, and library calls are assumed not to change objects of the framework',
    'solver budgets are counted in resource units, not seconds, so that a slow machine gives the same answers',
]


def e(level, cases, note, proved='', bounded='', trusted=(), **kw):
    d = {'level': level, 'cases': cases, 'level_note': note, 'proved': proved, 'bounded': bounded, 'trusted': list(trusted)}
    d.update(kw)
    return d


N = ('Obligations generated from the current source of the functions under contract are discharged for all inputs by z3/cvc5; the parts of the '
     'property that live in pandas/dask code outside the verifier\'s reach are decided only by a bounded stand-in, a differential search on the real '
     'code against an independent reference, labelled bounded and not counted as proved.')

PLAN = {
    'L01': e('proof', [('o_cfm2', 'case_perturb', 12), ('o_cfm2', 'case_qbv', 6), ('o_cfm', 'case_cfm', 9)], N),
    'L02': e('proof', [('o_cfm2', 'case_qbv', 9, {'window_p': 0.9}), ('o_cfm', 'case_cfm', 15, {'window_p': 0.9})], N),
    'L03': e('proof', [('o_cfm2', 'case_qbv', 9, {'gen': {'sec_p': 0.9, 'ti_p': 0.95}}), ('o_cfm', 'case_cfm', 15, {'gen': {'sec_p': 0.9, 'ti_p': 0.95}})], N),
    'L04': e('proof', [('o_es', 'case_lti', 20)], N),
    'L05': e('proof', [('o_cfm2', 'case_approx', 28)], N),
    'C01': e('proof', [('o_cfm', 'case_cfm', 14, {'feat': {'kinds': ['agg'], 'up_p': 0.35, 'where_p': 0.35}}), ('o_cfm', 'case_cfm', 12, {'depth': 3, 'feat': {'kinds': ['agg', 'direct']}})], N),
    'C02': e('proof', [('o_cfm', 'case_cfm', 12, {'feat': {'kinds': ['direct']}, 'gen': {'dangling_p': 0.2}}), ('o_cfm', 'case_cfm', 20, {'depth': 3, 'feat': {'kinds': ['direct', 'agg', 'full'], 'multi_p': 0.2, 'chain_p': 0.5}, 'parts_p': 0.6})], N),
    'C03': e('proof', [('o_cfm', 'case_cfm', 15, {'feat': {'kinds': ['full', 'group', 'trans'], 'full_p': 0.8}}), ('o_cfm', 'case_cfm', 15, {'depth': 3, 'feat': {'kinds': ['full', 'group', 'agg'], 'full_p': 0.6, 'multi_p': 0.2, 'chain_p': 0.6}})], N),
    'C04': e('proof', [('o_cfm2', 'case_shape', 22)], N),
    'C05': e('proof', [('o_cfm2', 'case_chunk_helper', 6), ('o_cfm2', 'case_chunks', 12), ('o_par', 'case_njobs', 12)], N),
    'C06': e('proof', [('o_cfm2', 'case_indep', 26)], N),
    'C07': e('proof', [('o_cfm2', 'case_nomut', 18), ('o_cfm2', 'case_nomut_lists', 6)], N),
    'C08': e('proof', [('o_cfm2', 'case_progress', 15), ('o_cfm2', 'case_run_progress', 9, {'parts_p': 0.8, 'depth': 3, 'feat': {'kinds': ['group', 'group', 'agg', 'direct'], 'chain_p': 0.6}, 'gen': {'ti_p': 0.95}})], N),
    'G01': e('proof', [('o_es', 'case_graph', 15)], N),
    'G02': e('proof', [('o_es', 'case_trie', 10)], N),
    'G03': e('proof', [('o_es', 'case_rel', 12)], N),
    'E01': e('proof', [('o_es', 'case_entity', 24)], N),
    'E02': e('proof', [('o_es', 'case_addrel', 16)], N),
    'E03': e('proof', [('o_es', 'case_normalize', 20)], N),
    'E04': e('proof', [('o_es', 'case_equal', 12), ('o_es', 'case_concat', 12)], N),
    'E05': e('proof', [('o_es', 'case_storage', 24)], N),
    'D01': e('proof', [('o_dfs', 'case_closure', 10), ('o_dfs', 'case_filters', 10), ('o_dfs', 'case_where_order', 13)], N),
    'D02': e('proof', [('o_dfs', 'case_options', 16), ('o_dfs', 'case_options', 8, {'paths_p': 0.95, 'gen': {'n_ent': 3, 'diamond_p': 0.8}}), ('o_dfs', 'case_bad_options', 4)], N),
    'D03': e('proof', [('o_dfs', 'case_match', 4), ('o_dfs', 'case_stack', 6), ('o_dfs', 'case_closure', 14)], N),
    'F01': e('proof', [('o_feat', 'case_save', 16), ('o_feat', 'case_save_prims', 5), ('o_util', 'case_schema', 3)], N),
    'F02': e('proof', [('o_feat', 'case_identity', 12), ('o_feat', 'case_operators', 10)], N),
    'F03': e('proof', [('o_feat', 'case_encode', 20)], N),
    'F04': e('proof', [('o_feat', 'case_select', 16)], N),
    'P01': e('proof', [('o_prim', 'case_transform', 14), ('o_prim', 'case_units', 4)], N),
    'P02': e('proof', [('o_prim', 'case_agg', 14), ('o_prim', 'case_units', 4)], N),
    'U01': e('proof', [('o_util', 'case_timedelta', 14)], N),
    'U02': e('proof', [('o_util', 'case_cutoffs', 10), ('o_util', 'case_cutoff_table', 10)], N),
}

import os as _os
_here = _os.path.dirname(_os.path.abspath(__file__))
for _k, _v in PLAN.items():
    if not _os.path.exists(_os.path.join(_here, 'fv', 'contracts', _k.lower() + '.py')):
        _v['level'] = 'exploration'
