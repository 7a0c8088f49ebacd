HEAD = """# How the properties of Featuretools are decided

`properties.jsonl` states 32 properties.  Each is decided by contracts on the functions of `/repo` that it depends on, checked by a
deductive verifier (`fv/`), plus, for the part of the property that lives in code the verifier cannot reach, a bounded differential stand-in
(`harness/`).  `check.sh <id>` runs both; `tools/gen_manifest.py`, `tools/gen_properties.py` and `tools/gen_design.py` write the derived files.

## 1. The verifier

No deductive verifier for Python is installed (Frama-C here has no WP, Verus/Kani/CBMC read other languages, CrossHair is bounded), so the
verifier is built here, for the real source: `fv/` imports the modules of `/repo`, takes the *source text of each function under contract with
`inspect` on every run*, and generates verification conditions from its AST by forward symbolic execution over all paths; z3 (new release,
through its API) discharges them, cvc5 is asked when z3 answers unknown.  There is no copy, dialect or model of the function bodies: a change in
/repo changes the obligations.

* **Extraction drops** docstrings, comments, annotations, `warnings.warn`/logger calls (recorded as events where a contract talks about them),
  and the text of exception messages.  Everything else is either interpreted or makes the obligation *undecided*; nothing is skipped silently.
* **Functions** are verified one at a time against `setup` (precondition: fully symbolic arguments) and `post` (named obligations over the
  result, the exception or the final state).  A call to a function that has a contract is replaced by that contract; calls to small helpers
  without one are inlined (listed as `inlined_callees` in the evidence); calls to pandas/numpy/library code are uninterpreted functions with the
  stated facts (`dependency_models_assumed`).  Recursive calls always go through the contract (induction on the call tree; termination is
  not proved: partial correctness).
* **Data.** Integers and reals are mathematical (floats are treated as reals), strings are z3 strings or uninterpreted names, objects are elements of an
  uninterpreted sort whose attributes are functions of the object (`fv/specs.py`), classes are terms with a subclass predicate, so `isinstance`
  speaks about every class a user could define.  Lists, sets and dictionaries are *collections by comprehension*: a list of pieces
  `(bound variables, guard, value)`, so a `for` loop over a list of unknown length is turned into quantified pieces with no bound on iterations.
* **Loops.** A loop over a symbolic collection whose body only accumulates (append/add/set item/yield, guarded by conditions, early exits by
  return/raise/break) is summarised exactly, by quantification over the element; loops that carry other state need an invariant
  (`loop_specs`), which is checked on entry and preserved; `while` loops that carry symbolic state are out of reach (see 4).
  Every variable, attribute or container that an iteration both reads and writes is made opaque and the body re-explored until nothing new
  is carried, before the body is summarised; elements of a symbolic collection may be read, never written to.
* **Frame.** A symbolic collection or object that is written is tracked; an argument that the contract says must be left alone is compared with
  its initial value (`unchanged`).
* **Vacuity.** Each contract has reachability covers (the precondition is satisfiable, and the named interesting cases are reachable).

**Verdicts.**  *discharged*: z3/cvc5 proved the negation unsatisfiable on every path.  *refuted*: a model of the negated obligation was found on a path that
uses no over-approximation.  *undecided*: unsupported construct, over-approximated path, unknown, time-out.  The check reports

1. `VIOLATION ... replay=` with an executable input, when the bounded search on the real code finds one (a refutation raises its budget);
2. `VIOLATION ... no-failing-input-found`, when an obligation is refuted and no input is found; the replay file names the obligation and
   carries the verifier's output (path condition and model);
3. otherwise exit 0.  An *undecided* obligation is not an alarm: it is printed and recorded in the evidence (`undecided`), `obligations` stays larger than
   `discharged`, and the bounded part alone decides.  On the unchanged tree every obligation of every contract is discharged.

`fv/selftest.py` (run by setup) plants broken bodies into copies of small functions and demands that the engine refutes each, and cross-checks
the interpreter with CPython on concrete inputs.

## 2. The bounded stand-ins

`harness/` generates small entitysets as plain Python models (`gen.py`: 1-5 entities, several relationships between the same two entities,
diamonds, dangling and missing links, tied and boundary times, numeric or datetime time, secondary time indexes, missing values, empty
entities), features over them (`feats.py`), and compares the real code with an independent reference written from the documentation
(`ref.py`, row by row, no pandas) or with an algebraic law (perturbation, round trip, permutation, partition).  A search runs for a stated number of seconds
on 8 processes with seeds derived from VERIF_SEED; evidence reports the number of cases and distinct non-trivial ones, and labels them
bounded.  They are never counted as discharged obligations.  Failing inputs are stored in `replays/<id>.json` and rerun with
`./check.sh <id> --replay replays/<id>.json`.

## 3. Property by property

"Contracts" lists what is proved for all inputs, "bounded" what the stand-in compares.
"""

PROPS = {
'L01': ("Row selection at a cutoff is contracted in `Entity._handle_time`; that every query of the calculator passes the cutoff down is a call-site obligation.",
        "perturbation: rows after the cutoff are changed, deleted and added in every entity, and the values at the cutoff must stay the same (`case_perturb`); `query_by_values` against a row-by-row reference; whole matrices against the reference. pandas masks and merges cannot be expressed as contracts beyond the mask built."),
'L02': ("As L01, for the window mask.", "query_by_values and whole matrices with windows, last time indexes and boundary times against the reference."),
'L03': ("As L01, for the secondary mask.", "matrices and queries on entities with secondary time indexes, times at the boundary, against the reference."),
'L04': ("Not in reach (pandas group-wise maxima and index alignment).", "last time indexes of random entitysets against their recursive definition."),
'L05': ("`datetime_round` for windows of one or two units (rounded down to a multiple of exactly the window, relative windows refused), `bin_cutoff_times` (the largest multiple not after the time, in a copy otherwise unchanged), `gather_approximate_features` for chains of up to three direct features.", "approximated features against their value at the rounded cutoff, other features against the exact one; known finding KF-approximate-ignores-cutoff."),
'C01': ("Names of linking columns and grouping keys: the name of the column that carries a link along a path (loop invariant), and the ancestors' columns carried down one relationship.", "aggregations over paths of 1-3 relationships, where conditions, use_previous by time and count, several primitives per group, against the reference."),
'C02': ("`_calculate_direct_features` for two features (of the parent's index, of one or two outputs, of the same column, already there): the parent's column taken, the key it is looked up by, the defaults, the rows and other columns kept.", "direct features over 1-3 relationships, dangling and missing links, defaults, multi-output, against the reference."),
'C03': ("Which nodes must be loaded in full, which features of a node belong to the full part: FeatureSet's trie.", "full-entity, group-by and plain transforms over matrices for subsets of instances against the reference."),
'C04': ("`run` returns exactly the output columns of the requested features, in the order requested (plus the index for Dask), and a row for each instance in order; an instance without data gets, for every output of every feature, that feature's default, in the same column order.", "shape, order, index, names, pass-through columns and default rows of matrices for tables with unknown instances, duplicates, extra columns."),
'C05': ("The chunk size as a function of the argument and the number of rows; the number of workers as a function of n_jobs and the CPUs; the settings handed unchanged to every chunk and worker.", "matrices for all chunk sizes, permuted tables and n_jobs (real worker processes on a local cluster) compared with one another."),
'C06': ("Grouping of features, trie construction and the flags that decide which data a feature sees.", "each feature alone, in random order and company, each instance alone and together, compared."),
'C07': ("Ownership (frame) contracts: every table, list or entityset the caller passed is an owned value frozen for the whole call, every library value derived from it carries whether it may share its storage (a `.copy()`, a selection or an arithmetic result is fresh; a view, an attribute or the same object is not), and each in-place write is an obligation `leaves-<argument>-alone`. Under contract: calculate_feature_matrix, chunk/parallel/approximate workers, query_by_values, handle_time, cutoff validation and binning, relationship linking, encode_features, the five selection functions, FeatureSetCalculator.run and calculate_chunk's entity filtering (pandas tables only; Dask/Koalas branches are dropped).", "snapshots of the entityset, features, tables and lists before and after computing, encoding, selecting, synthesising."),
'C08': ("Accounting with a ghost variable (what the caller was last told): `update_progress_callback_parameters`, the reports of the identity, transform, group-by and direct handlers (every feature once; group-by features of one or two outputs), `_calculate_features` (every group once), the chunk, parallel and matrix loops (the bar advances by the rows done, each report continues the previous one, the last one is full).", "recorded calls of the callback for random chunkings, approximations and n_jobs=1, plus encode/dfs steps."),
'G01': ("All path and neighbour queries, by induction over the (recursive) generators with the graph as an arbitrary finite relation.", "random multigraphs against brute force."),
'G02': ("get_node and iteration over the trie, as a map from paths to values.", "random histories of trie operations against a dictionary."),
'G03': ("Equality, hash, round trip, path concatenation and names of relationships.", "random relationships and paths."),
'E01': ("`_create_index` and `_validate_entity_params` (what is refused, what is made), `update_data` (refused, or stored with one column per variable in order, indexed, sorted unless declared sorted), `set_index`, `set_time_index` (kind of time, sort keys), `convert_variable_type`, `delete_variables` and `_create_variables` for entities of three columns.", "random histories of entity construction and update, with the invariant checked after each step."),
'E02': ("`EntitySet.add_relationship`: a known relationship changes nothing, a new one is recorded exactly once after the others, or refused (linking over the child's own index, columns of different types) with the list untouched; which columns are declared Id/Index, and that data are written only to give an empty column its type.", "random histories of accepted and refused relationships."),
'E03': ("`normalize_entity` over every combination of its options for tables with one column moved and one copied, with and without a secondary time index: a symbolic table records which row stands for each key and which base column each column comes from; the entity made, the columns the base loses and the link are compared with what the options ask for; refusals leave no trace.", "normalisation of random entities against group-by-first/last references."),
'E04': ("Equality of columns, entities (deep: entities of two columns) and entitysets: equal exactly when everything that counts agrees.", "pairs of equal and minimally different entitysets; concatenation of random splits."),
'E05': ("", "round trips through CSV, parquet, pickle and compression, with awkward text, separators, times and types."),
'D01': ("Dropping by name, recording of features once per name, stacking depth, ordering and truncation of the returned list.", "synthesis over random schemas: closure under rules, names, depth, order, prefix, invariance under hash seeds."),
'D02': ("The filters that apply options to candidate features and groups.", "random options against the dependency closure of every generated feature."),
'D03': ("Matching and stacking rules, for every class hierarchy.", "random matching problems against brute force and the closure of synthesis."),
'F01': ("Round trips of features, relationships and primitives through their dictionaries (each class's `get_arguments`/`from_dictionary`), the deserialiser's lookup of classes and its recursion, schema version comparison.", "save/load of random features and primitives, in files and strings; matrices equal."),
'F02': ("Dependencies, depth and base features as least fixpoints over the feature graph; copies, renames, names, operators, hash and equality.", "dependencies, depth, copies, names, operators of random features."),
'F03': ("`encode_features` for two categorical columns, a number and a feature of two outputs, any number of distinct values, every combination of options: symbolic columns record what they say of a row, so that the columns, the features and the number of values chosen are compared with what was asked for.", "encoding of random matrices against a direct definition, and definitions recomputed on other data."),
'F04': ("Every selection function, as a function of per-column facts: which columns stay, with which features, in which order.", "selection functions on random matrices (also exact thresholds) against their documented rule."),
'P01': ("The element functions of the arithmetic, comparison, logical, date and text primitives (extracted from `get_function` on every run), per element and per row under the row model of pandas.", "every transform primitive on random values, element by element, against plain Python."),
'P02': ("The aggregation functions (extracted from `get_function`) over a symbolic list of values, under the reduction model of pandas/numpy; units and default values.", "every aggregation primitive on random values against plain Python/fractions."),
'U01': ("Timedelta as a value type.", "random timedeltas, spellings, arithmetic with timestamps."),
'U02': ("`_validate_cutoff_time`, `_check_cutoff_time_type`, `_check_time_type`: which tables are accepted, what they become; `make_temporal_cutoffs`: which window arguments are accepted and which times they give.", "random cutoff tables, well and malformed; make_temporal_cutoffs against the arithmetic definition."),
}

TAIL = """
## 4. What is out of reach, and assumptions

* The verifier has no theory of pandas: masks, merges, group-bys, index alignment and dtype promotion are assumed (models) or left to the bounded part.  Every
  property that speaks about values in a matrix therefore has a proved part (control: which rows, features, paths, groups, names) and a bounded part (pandas).
* Termination, memory and performance are not proved.  Integers are unbounded, floats are reals.
* `while` loops with symbolic state, deletion from a dictionary while iterating, generators driven by `send`, and threads are not interpreted.
* Attribute frame assumption (`fv/specs.py`): attributes of a symbolic object are functions of the object; methods without contract do not assign
  them.  Dask and Koalas entitysets are covered by the bounded parts only where they run here (Dask: E04/E05; Koalas is not installed).
* CPython, z3, cvc5 and the verifier itself are trusted; the self-test is evidence, not proof.

## 5. Defects found and repaired, known findings

The genuine defects found by these checks are repaired in /repo by `fix:` commits and listed in `known_findings.json` under `fixed` (one line each).
One is recorded instead: **KF-approximate-ignores-cutoff** (L05): with `approximate` set and no feature aggregating over the target's own children, features that are not
approximated are computed at no cutoff at all; an existing test encodes that behaviour, so it is listed and not repaired.

False alarms met while building (all corrected in the machinery): float summation order, NaN versus None in object columns, ties among equal times
(order is unspecified), correlations within rounding distance of a threshold, dtype of empty results.
"""

SEEDED = """
## 6. Planted bugs and which checks catch them

`tools/plant.sh <id>...` applies each to /repo, builds, runs the stable tests, the demonstration and the check, and undoes it.
"""
