"""Writes /verif/properties.jsonl (single source of the property texts)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe=None, state=None):
    d = {"id": id, "title": title, "statement": statement,
         "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why,
         "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}}
    if state: d["anchors"]["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: d["anchors"]["observe_at"] = observe
    d["anchors"]["hook_needed"] = None
    assert len(title) <= 80, (id, len(title))
    P.append(d)

B = 'featuretools/'
CFM = B+'computational_backends/calculate_feature_matrix.py'
FSC = B+'computational_backends/feature_set_calculator.py'
FSET = B+'computational_backends/feature_set.py'
CBU = B+'computational_backends/utils.py'
ES = B+'entityset/entityset.py'
ENT = B+'entityset/entity.py'
REL = B+'entityset/relationship.py'
TD = B+'entityset/timedelta.py'
DFS = B+'synthesis/deep_feature_synthesis.py'
OPT = B+'primitives/options_utils.py'
FB = B+'feature_base/feature_base.py'

prop('L01', 'Feature values never use data from after their cutoff time',
 "Every value in a feature matrix computed for an instance at cutoff time t is determined by the rows whose time index is at or before t (strictly before t when include_cutoff_time is False), in every entity that has a time index and through every kind of feature. Adding, changing or deleting rows that lie after the cutoff never changes a value computed at t. Rows at or before the cutoff are all used when no training window is given.",
 ['inputs', 'histories'], 'all entitysets, feature lists, instances, cutoff times, include_cutoff_time settings and all edits of data after the cutoff',
 'Tests sample a few fixed cutoffs on one e-commerce fixture; leakage must be absent for every dataset, tie pattern and feature composition.',
 [ES, FSC, CFM], [('_handle_time', ES), ('query_by_values', ES), ('_calculate_features_for_entity', FSC)], ['featuretools.calculate_feature_matrix', 'EntitySet.query_by_values'])

prop('L02', 'A training window bounds exactly which rows are used',
 "With a training window w, a row with time s is used at cutoff t exactly when it is not after the cutoff and either s > t - w or the row's last time index (when computed) is > t - w; when include_cutoff_time is False the comparisons become s < t and s >= t - w (respectively last time index >= t - w). Entities without a time index are not filtered by the window. Windows given as strings, single-unit or multi-unit timedeltas with the same length behave identically.",
 ['inputs', 'configurations'], 'all row times, cutoff times, window lengths and units, with and without last time indexes, both include_cutoff_time settings',
 'Boundary behaviour at t - w is decided by four comparisons that must agree for every combination; tests touch a few dates.',
 [ES], [('_handle_time', ES), ('_check_timedelta', B+'utils/wrangle.py'), ('Timedelta.__rsub__', TD)], ['featuretools.calculate_feature_matrix', 'EntitySet.query_by_values'])

prop('L03', 'Columns with a secondary time index are hidden until that time has passed',
 "If a column is associated with a secondary time index, its value in a row contributes to a feature at cutoff t only if the row's secondary time is strictly before t; otherwise it is treated as missing, while the row itself and its other columns remain usable. The secondary time column itself is hidden in the same way. Rows and columns not governed by a secondary time index are unaffected.",
 ['inputs'], 'all entities with secondary time indexes, all row times and cutoffs, all features reading the governed columns',
 'Only one fixture uses a secondary time index; the guarantee is over all rows and cutoffs including exact ties.',
 [ES, ENT], [('_handle_time', ES), ('set_secondary_time_index', ENT)], ['EntitySet.query_by_values', 'featuretools.calculate_feature_matrix'])

prop('L04', 'Last time index is the latest observation of an instance or its descendants',
 "After computing last time indexes, the value for each instance equals the maximum of its own time index (if any) and the last time index values of all rows, in every child entity, that reference it; it is missing when there is no such time. Recomputing for a subset of updated entities gives the same values for those entities and all their ancestors as recomputing everything. The entities' data are not changed.",
 ['inputs', 'histories'], 'all relationship graphs (chains, diamonds, several relationships between the same two entities, entities without time index), all data including childless instances and missing times',
 'Depends on traversal order over arbitrary relationship graphs; tests check a handful of shapes.',
 [ES], [('add_last_time_indexes', ES)], ['Entity.last_time_index'])

prop('L05', 'Approximation only moves cutoffs backwards, within one window',
 "With approximate=w, each approximated feature (an aggregation reached through a direct feature) has, for the parent row the instance references, the exact value of that aggregation at the cutoff time rounded down to a multiple of w, so it uses no data from after the cutoff and none of the binned times is w or more before it. Features that use no approximated feature have exactly the values they have without approximation. Row order, index and original cutoff times of the result are unchanged by approximation.",
 ['inputs', 'configurations'], 'all cutoff tables, window sizes and units, feature lists mixing approximated and exact features',
 'Requires agreement between binning, feature selection for approximation and merge-back, for every mix of features and cutoffs.',
 [CFM, CBU], [('bin_cutoff_times', CBU), ('datetime_round', CBU), ('gather_approximate_features', CBU), ('approximate_features', CFM)], ['featuretools.calculate_feature_matrix'])

prop('C01', 'An aggregation feature is its primitive over exactly the linked rows',
 "The value of an aggregation feature for an instance equals its primitive applied to the base feature values, in time order, of exactly those descendant rows that are linked to the instance through the feature's relationship path, available at the cutoff, satisfying the where condition, and within use_previous (time at or after cutoff minus the span, or the last n rows) if given. Instances with no such rows get the primitive's default value. Rows whose link is missing belong to no instance.",
 ['inputs'], 'all entitysets, relationship paths (deep, diamond, multiple relationships between two entities), where conditions, use_previous spans and primitives',
 'The result must hold for every link structure and data; tests compare a few hard-coded values on one fixture.',
 [FSC, ES, FB], [('_calculate_agg_features', FSC), ('_add_ancestor_relationship_variables', FSC), ('get_relationship_variable_id', B+'utils/gen_utils.py'), ('agg_wrapper', FSC)], ['featuretools.calculate_feature_matrix'])

prop('C02', 'A direct feature copies the linked parent\'s value, row by row',
 "The value of a direct feature for a row equals the base feature's value on the one parent row it references through the feature's relationship. It is missing (or the base feature's default) when there is no such parent row or that row is not available at the cutoff; no child row is dropped, duplicated or reordered by the join.",
 ['inputs'], 'all entitysets, chains of direct features, dangling or missing references, multiple relationships between the same entities',
 'Join alignment must hold for every key distribution; tests use dense integer keys.',
 [FSC, FB], [('_calculate_direct_features', FSC), ('DirectFeature', FB)], ['featuretools.calculate_feature_matrix'])

prop('C03', 'Transform and group-by transform features see exactly the rows they should',
 "A transform feature's value for a row equals its primitive applied to that row's input values; primitives declared to need the whole entity see, in time order, all rows available at the cutoff and not only the requested instances. A group-by transform applies the primitive separately to the rows of each group, rows with a missing group key get the default value, and results are aligned with the rows they came from.",
 ['inputs'], 'all entities, orderings, group keys (including missing), primitives with and without whole-entity need, requested subsets',
 'Alignment of positional results and whole-entity visibility must hold for every subset of requested instances.',
 [FSC, FSET], [('_calculate_transform_features', FSC), ('_calculate_groupby_features', FSC), ('uses_full_entity', FSET)], ['featuretools.calculate_feature_matrix'])

prop('C04', 'A feature matrix has one row per request, in order, with the named columns',
 "The result has exactly one row per requested (instance, cutoff time) pair, in the order requested and indexed by instance id (plus time when cutoff_time_in_index is set), and its feature columns are the output names of the requested features in the order given. Extra columns of the cutoff table are passed through unchanged and aligned with their rows. Instances unknown at the cutoff get each feature's default value.",
 ['inputs'], 'all feature lists, cutoff tables (unsorted, repeated ids, repeated times, extra columns, unknown ids), instance lists and id types',
 'Holds for every order/duplication pattern of requests; tests use small sorted tables.',
 [CFM, FSC], [('calculate_feature_matrix', CFM), ('calculate_chunk', CFM), ('run', FSC), ('generate_default_df', FSC)], ['featuretools.calculate_feature_matrix'])

prop('C05', 'Chunking, parallelism and request order never change results',
 "For the same requests, the feature matrix is identical for every chunk_size (absolute or fractional) and for every n_jobs, and reordering the rows of the cutoff table only reorders the rows of the result. Work is split into chunks that cover every request exactly once, none larger than chunk_size and none empty. The number of workers is at least one and never more than the number of available CPUs.",
 ['inputs', 'configurations', 'schedules'], 'all cutoff tables, chunk sizes, worker counts and completion orders of chunks',
 'Tests try two or three chunk sizes; the split must be a partition for every size and every grouping.',
 [CFM, CBU], [('_chunk_dataframe_groups', CFM), ('_handle_chunk_size', CFM), ('parallel_calculate_chunks', CFM), ('n_jobs_to_workers', CBU)], ['featuretools.calculate_feature_matrix'])

prop('C06', 'Each feature and each instance is computed independently of the others',
 "The column computed for a feature is the same whether it is requested alone or together with any other features in any order. The values computed for an instance at a cutoff are the same whether it is requested alone or together with any other instances and cutoffs. Every dependency of every requested feature is computed before the features that use it.",
 ['inputs'], 'all feature lists, all orders and subsets of features and instances',
 'Interactions between features sharing dependencies or needing the whole entity are combinatorial; tests compute fixed lists.',
 [FSET, FSC], [('_build_feature_trie', FSET), ('_add_feature_to_trie', FSET), ('group_features', FSET), ('_get_feature_depths', FSET)], ['featuretools.calculate_feature_matrix'])

prop('C07', 'Computing features leaves the caller\'s data untouched',
 "Computing a feature matrix, encoding features without inplace, selecting features or running feature synthesis leaves the entityset's dataframes, variables, relationships, time indexes and last time indexes, the caller's cutoff table, instance list, options and feature lists exactly as they were. Computing the same feature matrix twice gives the same result. Creating a feature from a list of inputs, or structuring an entity from lists of columns, does not change those lists.",
 ['inputs', 'histories'], 'all calls of the public computing functions, all arguments, any sequence of calls',
 'Aliasing between arguments and internal frames shows only for particular shapes (no time index, secondary time index, shared lists).',
 [CFM, ES, FB, DFS, CBU], [('query_by_values', ES), ('_handle_time', ES), ('_validate_cutoff_time', CBU), ('GroupByTransformFeature', FB)], ['featuretools.calculate_feature_matrix', 'featuretools.dfs'])

prop('C08', 'Progress reports are monotone and end at exactly 100 percent',
 "When a progress callback is given, every reported cumulative percentage lies between 0 and 100 and never decreases, each reported increment equals the change in the cumulative percentage since the previous report, and the last report of a computation is 100 percent. The fractions one run of the calculator reports (one cutoff time) are never negative and add up to one. This holds for any features, cutoffs, chunk sizes and approximation setting.",
 ['inputs', 'configurations'], 'all feature lists, cutoff tables, chunk sizes, with and without approximation',
 'Tests check the total for a few lists; accounting errors depend on the mix of feature kinds per entity.',
 [CFM, FSC], [('update_progress_callback_parameters', CFM), ('calculate_chunk', CFM), ('_calculate_features', FSC)], ['progress_callback'])

prop('G01', 'Path and neighbour queries on the relationship graph are exact',
 "The forward and backward relationship and entity queries return exactly the relationships and entities reachable in that direction, directly or transitively. Path finding returns every simple path between two entities, each exactly once, each a chain of adjacent relationships with the right endpoints and no entity visited twice; backward paths are the forward paths reversed. A forward path is reported unique exactly when there is one.",
 ['inputs'], 'all relationship graphs including diamonds, several relationships between two entities, cycles and self references for path finding',
 'A graph property over arbitrary graphs; tests use three or four fixed graphs.',
 [ES], [('find_forward_paths', ES), ('find_backward_paths', ES), ('_forward_entity_paths', ES), ('get_forward_entities', ES), ('has_unique_forward_path', ES)], ['EntitySet.find_forward_paths', 'EntitySet.get_forward_entities'])

prop('G02', 'A trie behaves as a map from paths to values',
 "Setting the value at one path never changes the value at any other path, and looking a path up step by step or in one go reaches the same node. A path never set has the default value, and every default is created afresh. Iteration yields every existing node's path and current value exactly once, parents before children, with full paths from the node iterated.",
 ['inputs', 'histories'], 'all sequences of lookups and assignments over all paths and all path types that support concatenation',
 'Laws over all operation histories; tests check one small trie.',
 [B+'utils/trie.py'], [('get_node', B+'utils/trie.py'), ('__iter__', B+'utils/trie.py'), ('children', B+'utils/trie.py')], ['featuretools.utils.Trie'])

prop('G03', 'Relationships and paths have value semantics and unambiguous names',
 "Two relationships are equal exactly when their parent and child entities and columns agree, equal relationships hash alike, and converting one to a dictionary and back gives an equal relationship. Concatenating paths concatenates their steps, entities and names, path equality is equality of the step sequences, and paths list one more entity than they have steps. Relationship names distinguish several relationships between the same two entities.",
 ['inputs'], 'all relationships and all paths over all entitysets',
 'Algebraic laws over all paths; tests check single examples.',
 [REL], [('Relationship.__eq__', REL), ('Relationship.to_dictionary', REL), ('RelationshipPath', REL)], ['featuretools.Relationship'])

prop('E01', 'An entity\'s data always agrees with its declared structure',
 "After an entity is created, updated, has its index or time index set, or has variables deleted, its variables correspond one to one with its dataframe columns, its index values are unique and label the rows, its index variable has type Index and comes first when the entity is created, and its rows are sorted by time index and then index unless declared sorted. Creation keeps every input row and value; missing index columns are created as distinct integers; invalid requests (duplicate columns, absent time index, duplicate ids, wrong column sets) are rejected.",
 ['inputs', 'histories'], 'all input dataframes, column names, index and time index choices and sequences of updates',
 'Invariant over all histories of updates; tests check each operation once.',
 [ENT], [('__init__', ENT), ('_create_index', ENT), ('_validate_entity_params', ENT), ('set_index', ENT), ('set_time_index', ENT), ('update_data', ENT), ('delete_variables', ENT)], ['EntitySet.entity_from_dataframe', 'Entity.update_data'])

prop('E02', 'Adding relationships keeps the relationship set consistent',
 "Adding a relationship records it exactly once however often it is added, leaves other relationships and all row data values unchanged, and declares the child column an identifier and the parent column an index. Links whose column dtypes differ, whose child column is its own entity's index, or whose parent column is not the parent's index are refused without changing the relationship set.",
 ['inputs', 'histories'], 'all pairs of entities and columns, all orders and repetitions of additions',
 'Idempotence and frame conditions over histories; tests add each relationship once.',
 [ES, REL], [('add_relationship', ES), ('add_relationships', ES), ('Relationship.__init__', REL)], ['EntitySet.add_relationship'])

prop('E03', 'Normalizing an entity loses no information',
 "Normalizing creates an entity with exactly one row per distinct non-duplicated value of the chosen column, moves the additional variables out of and copies the copied variables into it with the value from each key's first row, and links it so that following the relationship from each original row recovers the key. Rows, row order and remaining columns of the base entity are unchanged. A derived time index is the time of the first row of each key, and a derived secondary time index that of the last row.",
 ['inputs'], 'all base entities, key columns, additional/copied variable choices and time index options',
 'Information preservation over all data; tests check columns on a fixture.',
 [ES], [('normalize_entity', ES)], ['EntitySet.normalize_entity'])

prop('E04', 'EntitySet comparison and concatenation are faithful',
 "Two entitysets or entities compare equal when they have the same structure, and with deep comparison only if they also hold the same data; comparison is reflexive and symmetric. Concatenating two entitysets of equal structure yields, per entity, the rows of both with rows repeated in the second dropped, sorted as the entity requires, for entities whose index comes from the data, leaving both inputs unchanged unless done in place. Last time indexes of the result are those of the combined data.",
 ['inputs'], 'all pairs of entitysets: equal, differing in structure, differing in a single cell, overlapping rows, empty entities',
 'A comparison that ignores data agrees with every test that compares an entityset with its own copy.',
 [ES, ENT, B+'utils/wrangle.py'], [('EntitySet.__eq__', ES), ('Entity.__eq__', ENT), ('_dataframes_equal', B+'utils/wrangle.py'), ('concat', ES)], ['EntitySet.__eq__', 'EntitySet.concat'])

prop('E05', 'Writing and reading back an EntitySet preserves it',
 "Writing an entityset to disk in CSV, parquet or pickle form, compressed or not, and reading it back gives an entityset with the same id, entities, variables (ids and types), time indexes, secondary time indexes, relationships and data (CSV cannot tell missing text from empty text). Its description dictionary alone restores the same structure with empty data. The format's restrictions are reported as errors, not as altered data.",
 ['inputs', 'configurations'], 'all entitysets, formats and compressions supported offline',
 'Round trip must hold for all variable types, names and data including missing values; tests use two fixtures.',
 [B+'entityset/serialize.py', B+'entityset/deserialize.py', B+'variable_types/variable.py'], [('entityset_to_description', B+'entityset/serialize.py'), ('write_data_description', B+'entityset/serialize.py'), ('description_to_entityset', B+'entityset/deserialize.py'), ('read_entityset', B+'entityset/deserialize.py')], ['EntitySet.to_csv', 'featuretools.read_entityset'])

prop('D01', 'Feature synthesis returns well-formed, bounded, non-duplicated features',
 "Synthesis returns features of the target entity with pairwise different names, none stacking more primitives and joins than max_depth, ordered from shallow to deep, at most max_features many and a prefix of the unlimited result, none named in drop_exact or containing a drop_contains string, all of a requested return type, and never the target's own index. Every returned feature can be computed, and inputs of every feature match its primitive's declared input types. Repeating synthesis with the same arguments gives the same list, in every process.",
 ['inputs', 'configurations'], 'all entitysets, primitives, depths and filter settings',
 'Combinatorial space of settings; tests check chosen names on one fixture.',
 [DFS], [('build_features', DFS), ('_filter_features', DFS), ('_handle_new_feature', DFS), ('_features_by_type', DFS), ('_run_dfs', DFS)], ['featuretools.dfs'])

prop('D02', 'Ignore, include and path options are honoured by every generated feature',
 "No feature generated by synthesis depends on a globally ignored entity or variable (unless a primitive's options include it), and when allowed paths are given no feature is built through a path that is not allowed. A feature built by a primitive with options uses no entity or variable those options ignore and, where includes are given, only included ones; group-by options restrict the grouping columns in the same way. Options of one primitive do not restrict other primitives, and malformed options are rejected.",
 ['inputs', 'configurations'], 'all combinations of global and per-primitive include/ignore options over all entitysets',
 'Options interact with one another and with depth; tests check selected combinations.',
 [OPT, DFS], [('variable_filter', OPT), ('ignore_entity_for_primitive', OPT), ('filter_matches_by_options', OPT), ('generate_all_primitive_options', OPT), ('_init_option_dict', OPT)], ['featuretools.dfs'])

prop('D03', 'Input matching and stacking rules are applied exactly',
 "For a primitive, synthesis uses every combination of distinct available features whose types match its inputs, each once (one ordering only for commutative primitives), and no others. An aggregation is stacked on a feature only if neither side's stacking rules (stack on self, excluded primitives in either direction, allowed lists) forbid it, and transforms are not stacked directly on transforms. Features that need a direct input have at least one and do not merely repeat what the related entity computes itself.",
 ['inputs', 'programs'], 'all primitives with any stacking declarations (including user-defined ones), all sets of candidate features',
 'Exactness of a matching over all feature sets; rules on user-defined primitives are barely exercised.',
 [DFS], [('match', DFS), ('match_by_type', DFS), ('check_stacking', DFS), ('check_transform_stacking', DFS), ('_build_agg_features', DFS), ('_build_transform_features', DFS)], ['featuretools.dfs'])

prop('F01', 'Saving and loading features preserves them',
 "Loading saved features returns the same features in the same order: same names, entities, types of feature, primitives with the same arguments, where and use_previous conditions, relationship paths and dependencies. The loaded features compute the same feature matrix as the originals. Loading data saved under a newer schema warns, comparing version components as numbers.",
 ['inputs', 'programs'], 'all lists of features with distinct names, of all feature kinds, nested to any depth, with any serializable primitive arguments',
 'Round trip over an open-ended grammar of features; tests use a fixed list.',
 [B+'feature_base/features_serializer.py', B+'feature_base/features_deserializer.py', FB, B+'primitives/utils.py', B+'utils/gen_utils.py'], [('to_dict', B+'feature_base/features_serializer.py'), ('_deserialize_feature', B+'feature_base/features_deserializer.py'), ('get_arguments/from_dictionary', FB), ('check_schema_version', B+'utils/gen_utils.py')], ['featuretools.save_features', 'featuretools.load_features'])

prop('F02', 'Derived features keep their identity: names, dependencies, depth, copies',
 "A feature's dependencies, taken deeply, are exactly the features reachable through its inputs and where condition, its depth is one more than the deepest of them (zero for a plain column), and copying it changes nothing while renaming it changes nothing but its name. A multi-output feature has as many distinct names as outputs and each slice names and computes the corresponding column. Comparison and arithmetic operators on features build the corresponding element-wise feature with operands in the written order.",
 ['inputs', 'programs'], 'all features of all kinds and nestings, all operators and operand kinds',
 'Structural laws over an open-ended grammar of features; tests construct individual examples.',
 [FB], [('get_dependencies', FB), ('get_depth', FB), ('rename/copy', FB), ('FeatureOutputSlice', FB), ('operator overloads', FB)], ['featuretools.Feature'])

prop('F03', 'One-hot encoding is exact and consistent with its feature definitions',
 "Encoding replaces each encoded categorical column by indicator columns for its most frequent values (at most the requested number, one fewer with drop_first) plus, if requested, one indicator for all other values, and every indicator is true exactly on the rows holding that value. Columns not encoded and pass-through columns keep their values, rows keep their order and index, and computing the returned features reproduces the encoded columns for instances with data at the cutoff.",
 ['inputs', 'configurations'], 'all feature matrices, value distributions, ties, missing values and settings of top_n, include_unknown, to_encode, drop_first, inplace',
 'Holds over all value distributions and option combinations; tests use one column of one fixture.',
 [B+'synthesis/encode_features.py'], [('encode_features', B+'synthesis/encode_features.py')], ['featuretools.encode_features'])

prop('F04', 'Feature selection removes exactly the columns its rule describes',
 "Each selection function keeps a column if and only if its documented rule says so: enough distinct values, missing fraction below the threshold, or not correlated at or above the threshold with an earlier checked column. Kept columns keep their order and values and the input matrix is unchanged. When features are given, exactly the features (or single outputs of multi-output features) whose columns were kept are returned, in order.",
 ['inputs', 'configurations'], 'all feature matrices, thresholds (including the boundary values), feature lists and keep/check lists',
 'Threshold boundaries and multi-output features over all matrices; tests use hand-made frames.',
 [B+'selection/selection.py'], [('remove_low_information_features', B+'selection/selection.py'), ('remove_highly_null_features', B+'selection/selection.py'), ('remove_single_value_features', B+'selection/selection.py'), ('remove_highly_correlated_features', B+'selection/selection.py'), ('_apply_feature_selection', B+'selection/selection.py')], ['featuretools.selection'])

prop('P01', 'Transform primitives compute their documented function element by element',
 "Every transform primitive returns, for every input value, its documented function of that value: arithmetic, comparison and logical operators of its operands in order, calendar parts, text lengths, membership, coordinates, distances, time differences in the stated unit, and cumulative or order-based functions of the preceding values. Results have the length and order of the input, and missing inputs give missing (or documented) outputs.",
 ['inputs'], 'all input columns including missing, boundary and negative values, all primitive arguments',
 'Functional correctness over all inputs; doctests use a handful of values.',
 [B+'primitives/standard/transform_primitive.py', B+'primitives/standard/binary_transform.py', B+'primitives/standard/cum_transform_feature.py', B+'utils/time_utils.py'], [('get_function of each primitive', B+'primitives/standard/transform_primitive.py'), ('binary primitives', B+'primitives/standard/binary_transform.py'), ('cumulative primitives', B+'primitives/standard/cum_transform_feature.py'), ('convert_time_units', B+'utils/time_utils.py')], ['featuretools.primitives'])

prop('P02', 'Aggregation primitives compute their documented statistic',
 "Every aggregation primitive returns its documented statistic of the values it is given: counts and sums skip missing values, extremes, mean, median, spread, skew, first and last, mode and the n most common values padded with missing, number of distinct values, any/all/number/fraction true with missing counted as false, time since first or last and average time between in the stated unit, trend slope and entropy. The result does not depend on row labels.",
 ['inputs'], 'all input columns including empty-of-valid-values, missing, repeated and tied values, all primitive arguments',
 'Functional correctness over all inputs; doctests use a handful of values.',
 [B+'primitives/standard/aggregation_primitives.py', B+'utils/time_utils.py'], [('get_function of each primitive', B+'primitives/standard/aggregation_primitives.py')], ['featuretools.primitives'])

prop('U01', 'Timedelta is a faithful value type',
 "A timedelta built from a number and unit, a string, a dictionary or a pandas object denotes the same span, however its unit is spelled or capitalised, and converting it to its arguments or to a dictionary and back gives an equal timedelta. Adding and subtracting it from a time are inverse for absolute units, negation negates every component, equality compares components, and a span of observations cannot be added to times. Unrecognisable inputs are rejected.",
 ['inputs'], 'all values, all supported units (milliseconds to years, and observations) and their spellings, multi-unit combinations, all times',
 'Laws over all values and units; tests check chosen spellings.',
 [TD, B+'utils/wrangle.py'], [('Timedelta', TD), ('_check_timedelta', B+'utils/wrangle.py')], ['featuretools.Timedelta'])

prop('U02', 'Cutoff-time helpers produce and validate exactly the documented tables',
 "make_temporal_cutoffs yields for every instance the requested number of equally spaced times ending at its cutoff (or spanning start to cutoff), labelled with the right instance, in input order. Cutoff tables are accepted exactly when they name instances and times unambiguously, without duplicate requests and with times of the entityset's time type, and accepted tables keep every row in order.",
 ['inputs'], 'all instance lists, cutoffs, window sizes and counts, start lists, and all cutoff tables with any column naming',
 'Validation must be exact over all column namings and types; tests try specific bad tables.',
 [B+'utils/time_utils.py', CBU], [('make_temporal_cutoffs', B+'utils/time_utils.py'), ('_validate_cutoff_time', CBU), ('_check_cutoff_time_type', CBU), ('_check_time_type', B+'utils/wrangle.py')], ['featuretools.make_temporal_cutoffs', 'featuretools.calculate_feature_matrix'])

if __name__ == '__main__':
    out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')
    with open(out, 'w') as f:
        for p in P: f.write(json.dumps(p) + '\n')
    print(len(P))
