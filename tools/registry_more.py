from registry import CORE, FMT, PARSER, QAL, prop  # noqa: F401

prop("C02", "Query objects are immutable values: equal, hash, print and copy consistently",
     "Two query objects (or expressions, predicates, clauses) built from the same SQL are equal and have the same hash and text; "
     "objects that differ in any semantic detail are unequal; equality is an equivalence; pickling and copying yield equal objects; "
     "no accessor, formatter or transformation changes an object, and attributes cannot be reassigned.",
     ["inputs", "histories"], "all query objects, all single-detail modifications of them, all sequences of read accesses",
     "Equality over a recursive data type with >50 node classes has unboundedly many pairs; a test compares a handful.",
     [QAL, CORE], [("__eq__/__hash__ of every expression, predicate, clause and query class", QAL), ("TableReference/ColumnReference", CORE)],
     "property-based testing: generated queries and single-point mutations of their specification; equality laws, pickle round trip and "
     "frozen-state invariants",
     "Random exploration. What counts as semantic detail is defined by libpg_query's AST of the two texts.",
     ["==", "hash()", "str()", "pickle"])

prop("C03", "Tables, columns and structure reported for a query are complete and exact",
     "For every query, the reported tables, bound and unbound tables, columns, output columns, subqueries, CTEs, expression children "
     "and flags (scalar, ordered, dependent, cross product, set operation) are exactly those that occur in its SQL text under SQL's "
     "scoping rules, for the query itself and each nested query; visitors and tree traversals reach every sub-expression once.",
     ["inputs", "programs"], "all queries of the supported subset, with arbitrary nesting, at every nested query",
     "Each clause and expression class implements its own traversal; omissions only show for particular nestings.",
     [QAL], [("tables()/columns()/iterexpressions()/itercolumns() of expressions and clauses", QAL), ("visitors and ast()", QAL),
             ("bound/unbound tables, is_scalar, is_dependent", QAL)],
     "property-based testing: grammar-generated queries compared with libpg_query's tree and the generator's scope model",
     "Random exploration; expected values are computed from the generated specification and from pglast, never from postbound.",
     ["SqlQuery.tables()/columns()/subqueries()/output_columns()", "bound_tables()", "unbound_tables()"])

prop("C05", "Predicates split into filters and joins without losing or inventing anything",
     "For every WHERE/ON condition, filters() and joins() report each conjunct exactly once on the documented side (conjunctions are "
     "un-nested, disjunctions restricted to their filter resp. join parts); each predicate is classified as join or filter as documented; "
     "joins_between, joins_for, filters_for, join partners and the simplified views return precisely the matching predicates, "
     "independent of the order of arguments and tables.",
     ["inputs"], "all predicates over several relations incl. nested OR/NOT, self joins, BETWEEN/IN, functions, (correlated) subqueries",
     "Tests contain a few simple equi-join conditions; the nesting and multi-table cases are unbounded.",
     [QAL], [("QueryPredicates and predicate decomposition", QAL), ("join partners", QAL), ("SimpleFilter/SimpleJoin views", QAL)],
     "property-based testing: generated predicates against a reference decomposition model; unwrapped views evaluated on DuckDB",
     "Random exploration over 2-4 relations and nesting depth up to about 4.",
     ["QueryPredicates.filters()/joins()/joins_between()", "AbstractPredicate.join_partners()"])

TRANSFORM = "postbound/transform.py"

prop("C06", "Join equivalence classes are exact and never change a query's result",
     "The equivalence classes of a query's equi-joins (column = column of different tables) are exactly the connected components of "
     "these equalities; the generated predicates are exactly all pairs within the classes; and add_ec_predicates yields a query that "
     "contains all original and all implied predicates, invents nothing else and returns the same rows for every database.",
     ["inputs"], "all conjunctions of equi-joins, other joins, filters, expressions, disjunctions and subqueries over 2-5 relations",
     "Optimizers add implied joins silently; a wrong equality changes query results only for particular predicate shapes and data.",
     [QAL, TRANSFORM], [("determine_join_equivalence_classes / generate_predicates_for_equivalence_classes", QAL), ("add_ec_predicates", TRANSFORM)],
     "property-based testing: union-find reference model plus execution of the original and the expanded query on DuckDB",
     "Random exploration; three small data sets with NULLs.",
     ["determine_join_equivalence_classes()", "add_ec_predicates()"])

prop("C07", "Query transformations change exactly what they document and nothing else",
     "Renaming columns or tables (also several at once, swaps, prefixes, merges) changes exactly the references to them in every clause "
     "and nested query; adding, dropping, replacing clauses, hints and EXPLAIN affects exactly these clauses; query fragments contain "
     "exactly the parts that only reference the given tables; removing/replacing/flattening predicates follows the documented rules; "
     "explicit-to-implicit joins and moving tables into a subquery keep the result. The input query is never modified.",
     ["inputs", "programs"], "all queries of the supported subset x all choices of tables, columns, clauses and predicates to transform",
     "Every transformation re-implements the traversal of >50 node types; an omission only shows for queries with that node in that place.",
     [TRANSFORM], [("rename_columns_in_*, rename_table, merge_tables, replace_expressions", TRANSFORM), ("extract_query_fragment", TRANSFORM),
                   ("add_clause/drop_clause/replace_clause", TRANSFORM), ("move_into_subquery, explicit_to_implicit", TRANSFORM)],
     "property-based testing: transformations applied to the generated specification and to the query must have the same libpg_query "
     "syntax tree; equivalence-preserving ones are executed on DuckDB",
     "Random exploration. Identifier clashes between renamed and existing tables of explicit joins are out of scope (documented ValueError).",
     ["postbound.transform.*"])

PARSER = "postbound/parser.py"
JSONIZE = "postbound/util/jsonize.py"

prop("C08", "Identifiers keep their spelling and references follow SQL's naming rules",
     "Any table, alias, schema, column, CTE or output name - key words, mixed case, blanks, quotes, non-ASCII - is rendered such that SQL "
     "reads exactly this name again, alone and within whole queries. References are values: equality and hashing agree, ordering is "
     "consistent, copies and pickles are equal, and the update operations (aliases, binding, virtual, schema) change exactly one part.",
     ["inputs"], "all identifier texts in all positions, all pairs of references",
     "Identifier texts are unbounded; the test queries only contain simple lower-case names.",
     [CORE, PARSER], [("quote(), SqlKeywords", CORE), ("TableReference / ColumnReference", CORE)],
     "property-based testing: generated names rendered and read back by libpg_query; laws over generated references",
     "Random exploration plus every Postgres key word. Identifiers are compared case-insensitively by design.",
     ["str(TableReference)", "str(ColumnReference)", "quote()", "TableReference.update()"])

prop("C09", "JSON forms of query parts load back into equal objects",
     "Tables, columns, expressions, predicates and queries serialize to valid JSON which, loaded from text or dictionary, yields an equal "
     "object with the same hash and the same referenced tables and columns; the JSON encoder maps enums, paths, dates, sets, dataclasses "
     "and objects with a __json__ method at any nesting depth to their documented JSON values.",
     ["inputs"], "all self-contained expressions and predicates of all queries, all names, all nested containers",
     "Loading re-parses an emulated query; correctness depends on every expression type and name.",
     [PARSER, JSONIZE, QAL, CORE], [("load_*_json", PARSER), ("JsonizeEncoder", JSONIZE), ("__json__", QAL)],
     "property-based testing: JSON round trip of every predicate and expression inside generated queries; encoder vs a reference mapping",
     "Random exploration; expressions over virtual tables are not self-contained and are excluded.",
     ["util.to_json()", "parser.load_predicate_json()", "parser.load_expression_json()"])

prop("C10", "Cardinalities behave like the rounded or unknown numbers they wrap",
     "A Cardinality is exactly one of valid (a rounded integer), unknown or infinite; comparisons (also against plain numbers, in both "
     "directions), arithmetic, floor division, remainder, conversion, hashing, sorting, JSON and pickling agree with ordinary number "
     "semantics on the wrapped value; accessing the value of an invalid cardinality raises an error.",
     ["inputs"], "all pairs of finite, unknown and infinite values and all operators in both operand orders",
     "Cost models and enumerators compare and combine cardinalities of every kind; errors only show for unknown/infinite/rounded values.",
     [CORE], [("Cardinality", CORE)],
     "property-based testing: every operator against exact rational arithmetic extended by NaN and infinity",
     "Random exploration; arithmetic above 2**53 is compared up to float precision.",
     ["Cardinality comparison and arithmetic operators"])

HINTS = "postbound/_hints.py"
QEP = "postbound/_qep.py"
OPTHELP = "postbound/opt/_helpers.py"

prop("C11", "Join trees, operators and plan parameters record exactly what was assigned",
     "A join tree reports exactly its tables, order, depth, shape and joins, and stays so while it is extended, updated, looked up or "
     "serialized. An operator assignment returns for each table or intermediate exactly the latest applicable assignment or default; "
     "plan parameters likewise for cardinalities, workers and settings. Cloning is independent, merging lets the second operand win, "
     "equality and hashing do not depend on the assignment order, and the JSON form loads back as an equal object.",
     ["inputs", "histories"], "all tree shapes over up to 7 tables; all histories of assignment calls in all documented call forms",
     "Every stage communicates through these objects; a lost or leaked entry silently changes the plan the database executes.",
     [HINTS, OPTHELP], [("JoinTree / LogicalJoinTree", HINTS), ("PhysicalOperatorAssignment", HINTS), ("PlanParameterization", HINTS),
                        ("read_jointree_json / read_operator_json", OPTHELP)],
     "property-based testing: histories of calls against plain tree and dictionary models",
     "Random exploration. The JSON form of operators does not record workers or join direction; these are not judged.",
     ["JoinTree.*", "PhysicalOperatorAssignment.get()/add()/merge_with()", "PlanParameterization.*", "util.to_json()"])

prop("C12", "Query plans keep structure and metadata through queries, copies and conversions",
     "A query plan reports exactly the tables, nodes, shape, operators, parameters, estimates and measures it was built with; searches and "
     "aggregates follow the tree. Every derived plan (canonical form, scaled, parallelized, updated, re-estimated, copied, pickled, JSON "
     "round trip) differs only in what is documented. Building a plan from join tree, operators and parameters and extracting these again "
     "gives the original parts; extraction from arbitrary plans assigns each part to the right intermediate.",
     ["inputs"], "all plan shapes over up to 7 tables with auxiliary nodes, subplans, partial metadata; all join trees/operators/parameters",
     "Plans are passed between stages by these conversions; errors show only for particular shapes (bushy, auxiliary nodes, subplans).",
     [QEP, HINTS, OPTHELP], [("QueryPlan, PlanParams, PlanEstimates, PlanMeasures, SortKey", QEP), ("jointree/operators/parameters_from_plan", HINTS),
                             ("to_query_plan, update_plan, explode_query_plan, read_query_plan_json", OPTHELP)],
     "property-based testing: generated plans compared node by node with a plain tree model, through every derivation and conversion",
     "Random exploration; plans of up to 7 tables.",
     ["QueryPlan.*", "to_query_plan()", "explode_query_plan()", "update_plan()", "read_query_plan_json()"])

JG = "postbound/opt/_joingraph.py"
NX = "postbound/util/nx.py"

prop("C13", "The join graph reflects a query's joins and its state as tables get joined",
     "The join graph of a query has exactly its tables as nodes and one edge per pair of tables with a join predicate (optionally the implied "
     "ones), annotated with exactly these predicates. After any sequence of mark_joined calls, free/joined tables, available paths in both "
     "directions, key joins (direct and transitive, breadth-first in the given order), n:m joins, index states and predicates between sets "
     "agree with each other and with the key information; clones and components are independent and complete.",
     ["inputs", "histories"], "all equi-join queries over 1-6 tables (self joins, multi-column joins, cycles, disconnected), all keys, all mark orders",
     "The state machine has exponentially many histories; errors need multiple partners, diamonds or equivalence classes.",
     [JG, NX], [("JoinGraph", JG), ("nx_bfs_tree", NX)],
     "property-based testing: stateful histories of mark_joined/clone against a dictionary model, all read methods compared after each step",
     "Random exploration. Index invalidation is a heuristic of the library; its documented rules are modelled exactly.",
     ["JoinGraph.*"])

DYN = "postbound/opt/dynprog.py"
ENUM = "postbound/opt/enumeration.py"
RND = "postbound/opt/randomized.py"

prop("C14", "Dynamic programming finds the cheapest valid plan of its search space",
     "For a query whose join graph is connected, and any cardinality estimator and cost model, the dynamic programming enumerator returns a "
     "plan that contains each table and each predicate exactly once, joins only subtrees linked by a join predicate, uses only operators the "
     "database supports and indexes that exist, annotates every node with the estimator's cardinality and the model's cost, and has the minimal "
     "cost of all such plans. It is an error if no plan of finite cost exists.",
     ["inputs"], "all join graphs over up to 6 tables, all cardinalities, cost models, operator sets and index configurations",
     "Optimality needs comparing with every plan of the space; tests compare a few plans at most.",
     [DYN], [("DynamicProgrammingEnumerator", DYN)],
     "property-based testing: hash-defined cost models and cardinalities; differential against a brute-force optimum over all plans",
     "Random exploration; costs of a plan are monotone in the cost of its inputs (principle of optimality), as the algorithm requires.",
     ["DynamicProgrammingEnumerator.generate_execution_plan()"])

prop("C16", "Exhaustive and random enumerators produce exactly the valid plans",
     "For a query without cross products the exhaustive join order enumerator yields exactly the cross-product-free join trees of the requested "
     "shape (bushy, left-deep, right-deep), each once; the operator enumerator yields exactly all combinations of the allowed operators for the "
     "requested scans and joins; their product gives all plans. The random generators yield only members of these sets (starting with the "
     "requested base table), forever, and without repetition if asked. Cross products are rejected.",
     ["inputs"], "all join graphs over up to 5 tables, all structures, operator restrictions and database capabilities",
     "Completeness and absence of duplicates can only be judged against the full set of trees for each graph.",
     [ENUM, RND, NX], [("Exhaustive*Enumerator", ENUM), ("Random*Generator / Random*Optimizer", RND), ("nx_frontier_walks, nx_random_walk", NX)],
     "property-based testing: enumerated sets compared with all trees/assignments by definition; random draws checked for membership",
     "Random exploration; the distribution of the random generators is not judged.",
     ["Exhaustive*Enumerator.all_*_for()", "Random*Generator.random_*_for()"])

prop("C15", "The Postgres-style enumerator returns valid plans, prunes only dominated paths",
     "For a connected equi-join query, any cost model and cardinality estimator, the Postgres-style enumerator returns a plan with each table and "
     "predicate once, only allowed or enabled operators (also materialize, memoize, sort and worker limits), existing indexes, merge joins over "
     "inputs sorted by a join key, and the estimator's/model's estimates at each node. If the path hook keeps all paths the plan is optimal for "
     "the documented search space. Standard pruning never discards a path unless an as-well-sorted path of (up to fuzz) at most its cost remains.",
     ["inputs", "histories"], "all join graphs over up to 4 relations, operator restrictions, planner flags, page counts, indexes and cost models",
     "Validity and optimality need comparison with the whole space; no test covers this enumerator (it needs a Postgres connection).",
     [DYN], [("PostgresDynProg", DYN)],
     "property-based testing: server-free Postgres stub, hash-defined costs; differential against an independent search over the documented space",
     "Random exploration; the native cost model (which needs a server) is replaced by arbitrary cost models.",
     ["PostgresDynProg.generate_execution_plan()", "PostgresDynProg.standard_add_path()"])

VALID = "postbound/validation.py"

prop("C29", "Pre-checks accept exactly the supported queries and databases",
     "Each pre-check passes exactly the queries (databases) with the features it names: implicit FROM clause, no cross product, no virtual tables, "
     "equi-joins only, inner joins only, no (dependent) subqueries, no set operations, supported hints, custom rules. A failed check has a reason and "
     "raises the error documented for its context. Compound and merged checks, arbitrarily nested, pass exactly if all combined checks pass, "
     "for queries as well as for database systems.",
     ["inputs"], "all queries over up to 5 relations in all join styles, all nested combinations of checks and sets of supported hints",
     "Soundness of an optimizer run rests on these gates; whether a gate is exact needs queries with every feature combination.",
     [VALID], [("OptimizationPreCheck implementations", VALID), ("CompoundCheck, merge_checks", VALID), ("PreCheckResult.ensure_all_passed", VALID)],
     "property-based testing: queries rendered from known features (the expected verdicts), nested check combinations against a Boolean model",
     "Random exploration; a check is only judged on queries for which its documentation is unambiguous.",
     ["OptimizationPreCheck.check_supported_query()", "check_supported_database_system()", "merge_checks()"])

PG = "postbound/postgres.py"
PIPE = "postbound/_pipelines.py"
STAGES = "postbound/_stages.py"

prop("C17", "Postgres hint blocks request exactly the given plan",
     "The Postgres hint service returns the input query (same meaning, one comment, EXPLAIN/LIMIT kept) with one hint block that requests exactly "
     "the given plan or parts: the join tree with its outer/inner order, each operator for its tables, all valid cardinalities, settings, "
     "execution mode and parallel workers (at most one parallel region), and nothing else; GEQO is disabled where pg_hint_plan needs it. "
     "A plan and single parts cannot be combined. Enabling/disabling an operator sets its GUC.",
     ["inputs"], "queries over up to 6 tables with random join orders, operators, cardinalities, workers, settings, complete plans; both backends",
     "Any plan can be hinted and a wrong hint is silently ignored by the server; tests need a server and only look at a few queries.",
     [PG, HINTS, QEP], [("PostgresHintService", PG), ("_generate_pghintplan_hints, _generate_pglab_hints, _generate_pglab_plan", PG)],
     "property-based testing: hint blocks are read back by an independent reader and compared with the request; queries compared via pglast",
     "Random exploration; hint blocks are not executed, since no Postgres server is available offline.",
     ["PostgresHintService.generate_hints()", "PostgresHintService.format_query()", "PostgresOptimizer.configure_operator()"])

prop("C19", "Optimization pipelines run exactly the configured, supported stages",
     "For every history of setup, build, load_settings, database change and optimize calls, a pipeline optimizes only when built, calls exactly "
     "the stages configured last, each with the query and the outputs of the stages before it, and returns their result as hints/plan. Queries and "
     "databases rejected by any pre-check raise UnsupportedQueryError/UnsupportedSystemError before any stage runs. stages() and the complete-"
     "algorithm/stage emulators agree with the pipeline.",
     ["inputs", "histories"], "random histories over all pipelines with recording stages, pre-checks and databases",
     "Staleness after reconfiguration depends on the order of calls, which tests with one fixed setup do not explore.",
     [PIPE, STAGES, VALID], [("OptimizationPipeline implementations", PIPE), ("as_complete_algorithm, emulators", STAGES)],
     "model-based property testing: call histories replayed on a reference model of the pipeline, recording stages",
     "Random exploration of histories up to 12 steps.",
     ["optimize_query(), query_execution_plan(), stages()", "as_complete_algorithm()"])

DUCK = "postbound/duckdb.py"

prop("C18", "DuckDB hint blocks request exactly the given plan and are obeyed",
     "The DuckDB hint service returns the input query (same meaning) with one quack_lab block and SET statements that request exactly the given plan "
     "or parts: join tree, operators for their tables, valid cardinalities, settings, and nothing else; unsupported hints raise "
     "UnsupportedDatabaseFeatureError. Executing a hinted query returns the same rows as the plain query, applies the settings, and uses the hinted "
     "(cross-product free) join order and join cardinalities.",
     ["inputs"], "connected queries over up to 6 tables, random join orders, operators, cardinalities, settings; executed on quacklab",
     "Wrong hints are silently ignored or crash the engine for some inputs only; the tests do not execute hinted queries.",
     [DUCK, HINTS, QEP], [("DuckDBHintService", DUCK), ("DuckDBInterface.execute_query", DUCK)],
     "property-based testing: hint blocks read back by an independent reader; differential execution of hinted and plain queries on quacklab",
     "Random exploration; join direction and scan estimates are not judged, since DuckDB decides them itself.",
     ["DuckDBHintService.generate_hints()", "DuckDBInterface.execute_query()", "DuckDBOptimizer.query_plan()", "analyze_plan()"])

DB = "postbound/db/_db.py"

prop("C20", "The schema interface reports exactly the tables, keys and indexes",
     "For every database schema, the schema interface (DuckDB and the default information_schema implementation) reports exactly its tables, views, "
     "ordered columns, data types, nullability, single-column primary keys, foreign keys and indexes; a column of a compound key is no primary key. "
     "lookup_column returns the first candidate owning the column; as_graph, join equivalence classes, describe and schema[...] agree with the foreign "
     "keys. Missing entries raise KeyError, unbound columns UnboundColumnError, virtual tables VirtualTableError.",
     ["inputs"], "random schemas (keys, uniques, foreign keys, indexes, views, second schema) created on quacklab",
     "Catalog queries go wrong only for particular combinations of constraints and names, tests use fixed or mocked schemas.",
     [DB, DUCK], [("DatabaseSchema", DB), ("DuckDBSchema", DUCK)],
     "model-based property testing: generated DDL executed on quacklab, every catalog answer compared with the generated model",
     "Random exploration; the Postgres catalog queries cannot run offline.",
     ["db.schema() methods", "as_graph()", "join_equivalence_classes()", "schema[table]", "describe()"])

prop("C21", "Query execution, result cache, timeouts and connection pool keep their contract",
     "For every history of queries, data changes, cache switches, resets, reconnects and restarts, execute_query returns the live result unless caching "
     "is enabled (per call, else per database) and the query was cached before; then the cached rows are returned unchanged, also after a restart. "
     "Results are simplified as documented unless raw; preparatory statements are always executed; cancelled queries return None / raise TimeoutError, "
     "set the last runtime to infinity and leave the connection usable. The pool returns exactly the registered databases.",
     ["inputs", "histories"], "random histories of up to 22 operations on quacklab databases with all common column types",
     "Stale or lost results depend on the order of cache switches, data changes and restarts; tests only run single queries.",
     [DB, DUCK], [("Database cache, simplify_result_set, DatabasePool", DB), ("DuckDBInterface", DUCK)],
     "model-based property testing: histories replayed against a reference model of the cache and pool, live results from a second cursor",
     "Random exploration; cache persistence after forcing the cache for single queries is not judged.",
     ["execute_query()", "execute_with_timeout()", "cache_enabled, reset_cache()", "connect()", "DatabasePool"])

prop("C22", "Statistics, most-common-value lists and histograms describe the actual data",
     "For every table, total_rows, num_distinct, min_max and most_common_values (emulated, and native on DuckDB) equal the values computed from the rows, "
     "in the table's own schema and for any identifier; MostCommonValues is sorted by frequency and value (NULLs allowed) and looks up exactly its "
     "entries. An emulated histogram has at most n_bins right-closed buckets with exact frequencies covering min..max of the non-NULL values (None without "
     "values). frequency_below/above are exact at bounds, conservative ('bound') or linear ('approx-uni') inside buckets. Virtual tables, unbound columns, "
     "missing n_bins raise the documented errors; without caching the statistics follow the data.",
     ["inputs"], "random tables (NULLs, ties, empty, quoted names, second schema, 7 column types), MCV lists and histograms",
     "Statistics are wrong for particular data distributions and names only; tests contain no statistics checks at all.",
     [DB, DUCK], [("MostCommonValues, Histogram, DatabaseStatistics", DB), ("DuckDBStatistics", DUCK)],
     "model-based property testing: statistics recomputed from the generated rows, algebraic laws for lists and histograms",
     "Random exploration up to 40 rows per table; Postgres' catalog statistics cannot run offline.",
     ["statistics() methods", "MostCommonValues", "Histogram.frequency_below()/frequency_above()"])

prop("C23", "EXPLAIN output of DuckDB and Postgres becomes a faithful query plan",
     "query_plan(), analyze_plan(), parse_plan() and PostgresExplainPlan turn every EXPLAIN (JSON) output, in all forms execute_query() returns it, into "
     "a QueryPlan with one node per operator in order (outer before inner, subplans attached), the right scan/join operators, base tables with aliases, "
     "indexes, workers, costs, estimated rows (scaled below parallel nodes) and actual rows (times loops), timings and cache counters; missing values stay "
     "unknown. The optimizer interface sends exactly the explained query, uncached, and its cardinality and cost estimates are those of the plan's root.",
     ["inputs"], "queries explained on quacklab; random Postgres EXPLAIN documents (scans, joins, bitmaps, parallel, subplans, appends)",
     "Plans come in unbounded shapes; tests need live servers and look at single plans only.",
     [DUCK, PG, QEP], [("parse_duckdb_plan, DuckDBOptimizer", DUCK), ("PostgresExplainNode, PostgresExplainPlan, PostgresOptimizer", PG)],
     "property-based testing: independent recursive comparison of the raw EXPLAIN JSON with the parsed plan",
     "Random exploration; Postgres documents are generated from the documented layout, since no server is available.",
     ["optimizer().query_plan()/analyze_plan()/parse_plan()", "parse_duckdb_plan()", "PostgresExplainPlan.as_qep()", "cardinality_estimate(), cost_estimate()"])

BENCH = "postbound/bench.py"

prop("C24", "execute_workload runs every repetition and reports each result faithfully",
     "For every workload, database behaviour, optimizer and setting, execute_workload trains stages first, then per workload repetition and query "
     "optimizes once and per query repetition prepares (projection, EXPLAIN, prewarming, statements), describes the database and executes the optimized "
     "query uncached. The frame has one row per repetition with label, original and optimized query, status, simplified result (None without one), times, "
     "error, database state; errors are logged, ignored or raised as configured, callbacks see every success, online stages only real results. Progressive "
     "files (CSV, JSON, Parquet, appended) and experiment_log.json agree with it; prepare_export and sort_results keep all rows and values.",
     ["inputs", "histories", "fault_sequences"], "random workloads of 0-4 queries, repetitions, scripted results, errors, timeouts, optimizers, settings and runs",
     "Errors, timeouts and mixed results in the middle of repetitions lose or corrupt measurements; tests need live servers and only see success.",
     [BENCH, PIPE], [("execute_workload, QueryPreparation, prepare_export, sort_results", BENCH), ("OptimizationPipeline training", PIPE)],
     "model-based property testing: a reference model of the control flow predicts every database call, row, callback and file from the scripted faults",
     "Random exploration; failing preparatory statements and HDF output are not generated.",
     ["execute_workload() result frame, files and callbacks", "QueryPreparation", "prepare_export()", "sort_results()"])

WL = "postbound/workloads.py"

prop("C25", "Workloads keep exactly their labelled queries through reading and operations",
     "A Workload contains exactly the given (label, query) pairs in natural label order (or the shuffled order); selecting, filtering, relabelling, "
     "mapping, combining and shuffling yield exactly the documented pairs in a new workload and leave all operands unchanged; label_of returns a label "
     "of the query. read_workload, Workload.read, fetch_workload, read_batch_workload, read_csv_workload, generate_workload and wrap_workload contain one "
     "entry per file, line, row or item, with unchanged query, hints, encoding and the documented labels (prefixes, subdirectories, positions); "
     "unparseable files raise or are skipped as configured.",
     ["inputs", "histories"], "workloads of up to 7 queries, up to 6 chained operations; directory trees, batch and CSV files in two encodings",
     "Lost, duplicated or mislabelled queries depend on the combination of labels, duplicates and files; tests read no workloads at all.",
     [WL], [("Workload, read_workload, read_batch_workload, read_csv_workload, generate_workload", WL)],
     "model-based property testing: operation chains against a dict model; files generated, read and compared with directly parsed queries",
     "Random exploration; the download of workloads cannot run offline.",
     ["Workload methods", "read_*workload()", "generate_workload()", "fetch_workload()"])

RELALG = "postbound/relalg.py"

prop("C26", "Relational algebra trees equal their query; mutation keeps trees sound",
     "For every query made of base tables, derived tables, CTEs, filters, joins, grouping, HAVING, DISTINCT, ORDER BY and set operations, "
     "parse_relalg yields an operator tree that, evaluated bottom-up, returns the rows of the query (in its sort order), contains each base "
     "table exactly once and computes every complex expression before it is used. Trees report tables, leafs, traversals, parents and "
     "sideways links exactly; visitors dispatch to the matching operator; equality and hash follow the content. mutate() returns the node "
     "with exactly the requested changes inside of a copied, soundly linked tree and leaves the original untouched.",
     ["inputs", "histories"], "all such queries over small data; all operator trees and DAGs up to depth 5 x all mutations of one node",
     "Predicates are distributed over four phases and fragments are merged step by step: whether a predicate or mapping gets lost depends on "
     "the particular combination of predicates, and the existing tests only check that parsing does not fail.",
     [RELALG], [("parse_relalg / _ImplicitRelalgParser", RELALG), ("RelNode.mutate / _RelNodeUpdateManager", RELALG), ("RelNode subclasses, RelNodeVisitor", RELALG)],
     "property-based testing: each operator is translated on its own to a derived table on quacklab (DuckDB) and compared with the original query; "
     "generated DAGs and mutations against a reference tree model",
     "Random exploration on three small data sets. Subqueries inside of expressions, window functions, LIMIT and explicit JOINs are not judged.",
     ["parse_relalg()", "RelNode.mutate()", "RelNode.tables()/leaf()/dfs_walk()/parent_node/sideways_pass"])

CARDS, NATIVE = "postbound/opt/_cardinalities.py", "postbound/opt/native.py"

prop("C27", "Cardinality estimators return exactly the cardinalities of their source",
     "For every query and every non-empty set of its tables: PreciseCardinalities returns the number of rows of that intermediate (the join of these "
     "tables with all applicable predicates, before grouping, ordering and LIMIT) on the current data, from its cache only if enabled and until it is reset; "
     "PreComputedCardinalities returns the stored value of the query label, or the configured default / live value / error, and stored live values are "
     "found again, also after reloading; CardinalityDistortion scales by a factor in its range; generate_intermediates yields every connected (or every) "
     "set of tables once; native estimators, stages and presets report exactly the estimates and plans of the database.",
     ["inputs", "histories"], "1-4 relations with self joins, all join shapes, filters and query tails; random data, DML in between; all estimator settings",
     "Wrong cardinalities silently change plans; the errors depend on the query's clauses, labels, caching and the history of calls.",
     [CARDS, NATIVE, STAGES], [("PreciseCardinalities, PreComputedCardinalities, CardinalityDistortion", CARDS), ("CardinalityEstimator.generate_intermediates", STAGES),
                               ("NativeCardinalityEstimator and native stages", NATIVE)],
     "property-based testing: independently written COUNT(*) queries and raw EXPLAIN output of quacklab (DuckDB) as oracle; model of the lookup table over call histories",
     "Random exploration; native stages are judged on DuckDB only.",
     ["calculate_estimate()", "estimate_cardinalities()", "generate_intermediates()", "the CSV lookup table"])

UES = "postbound/opt/ues.py"

prop("C28", "The UES optimizer returns valid join orders and correct join bounds",
     "For every implicit equi-join query and every key and index configuration, UESJoinOrderOptimizer returns None for single tables and otherwise a "
     "logical join tree with each table exactly once, whose scans carry the base table estimate and whose joins carry a bound; tables are joined along join "
     "predicates, cross products only combine whole components; an optimizer can be reused for further queries. For joins of two tables and star "
     "queries (one foreign key table with its primary key tables) the bounds follow the documented formula, with exact base cardinalities they are upper bounds "
     "of the true cardinality, and star joins are applied in the order of their bounds.",
     ["inputs", "histories"], "1-6 relations, all join shapes, keys and indexes, base estimators, subquery policies; random data",
     "The algorithm interleaves n:m and key joins depending on bounds and the join graph's shape; the tests need a Postgres server with the JOB data.",
     [UES, JG], [("UESJoinOrderOptimizer, UESSubqueryPolicy", UES), ("UESBoundEstimator, MaxFrequencyStats", UES), ("JoinGraph", JG)],
     "property-based testing: structural validity of generated join trees; formula and true cardinalities computed independently on quacklab (DuckDB)",
     "Random exploration. Bounds of larger n:m joins rest on heuristic frequency updates and are not judged.",
     ["UESJoinOrderOptimizer.optimize_join_order()", "annotations of the join tree", "UESOperatorSelection"])

GEN, CEB = "postbound/experiments/querygen.py", "postbound/experiments/ceb.py"

prop("C30", "Randomly generated queries respect all limits and run on the database",
     "For every schema, data and combination of options, every query of generate_query has a number of tables and filters within the requested limits, uses no "
     "ignored tables, connects its tables along exactly the foreign keys between them (leaving a connected part of the schema only if it is exhausted), "
     "filters only allowed columns (key and numeric restrictions) at most once, compares them with values that occur in the column, and runs on the database; "
     "impossible table limits raise ValueError and the generator never stalls or fails otherwise.",
     ["inputs"], "schemas of 1-5 tables with several, missing and self-referencing foreign keys, 11 column types, empty tables and NULLs; all options",
     "The generator is random: a test would have to judge every possible query for every schema, option and data distribution.",
     [GEN, "postbound/util/nx.py"], [("generate_query", GEN), ("nx_random_walk", "postbound/util/nx.py"), ("DatabaseSchema.as_graph", DB)],
     "property-based testing: random schemas, data and options on quacklab (DuckDB); every query is judged against the generated schema and executed",
     "Random exploration; limits that no query can satisfy are not judged.",
     ["generate_query()"])
prop("C31", "Template-based (CEB) workloads contain the requested queries and valid values",
     "For every template, generate_raw_workload/generate_workload yield the requested number of different queries per template under the documented labels or raise "
     "SamplingError; each query is the base SQL with every placeholder replaced by a correctly escaped literal; the values of each predicate occur together "
     "in its options or its SQL query evaluated under the final values of its dependencies, IN lists are duplicate-free and within their limits, LIKE patterns contain "
     "the value; sampling follows the weights; persisted files contain the queries.",
     ["inputs"], "1-2 templates with 1-4 list/sql predicates, 1-2 placeholders each, dependencies, all operators, types, weights, sample limits; random data",
     "Values depend on the data, on dependencies between predicates and on random choices with retries; the module has no tests.",
     [CEB, "postbound/util/misc.py"], [("PredicateGenerator, QueryTemplate", CEB), ("generate_raw_workload, persist_workload", CEB), ("DependencyGraph", "postbound/util/misc.py")],
     "property-based testing: random templates and data; values are extracted from the generated text and compared with candidate sets computed on quacklab (DuckDB)",
     "Random exploration; sampling weights are judged by draws whose error probability is below 1e-9.",
     ["generate_raw_workload()", "generate_workload()", "persist_workload()"])

TRAIN, DFUTIL = "postbound/train/_train.py", "postbound/util/_df.py"

prop("C32", "Training datasets deliver exactly the requested features and samples",
     "A TrainingSpec has exactly its features in order, equality ignores the order and satisfies()/provides() report exactly the missing features. A TrainingData "
     "set (from a data frame, a file or with a feature map) provides its features under their own names; as_df, conform_to, merge_with, merge and the repository's "
     "retrieve_* deliver exactly the requested features in the requested order with all samples of all matching datasets in order, raise ValueError if a feature is "
     "missing, and never change their inputs. write_df/read_df round-trip frames through csv, json, parquet and feather, complex values as JSON.",
     ["inputs", "histories"], "datasets with 1-5 features, renamed, shared and unrelated columns, all index types; histories of up to 8 operations; repositories of up to 5 datasets",
     "Wrong features are plausible numbers; which column, order and sample arrives depends on combinations of renamings and operations.",
     [TRAIN, DFUTIL], [("TrainingSpec, TrainingData, TrainingDataRepository", TRAIN), ("read_df, write_df", DFUTIL)],
     "property-based testing: histories of operations on datasets with unique cell values against a reference model (features and list of samples)",
     "Random exploration. Formats without installed engine (xlsx, hdf) are not exercised.",
     ["TrainingData.as_df()", "TrainingData.merge()", "TrainingDataRepository.retrieve_merged()", "read_df()/write_df()"])

UCOL, UDICT, UNUM, UNX, USTAT, UMISC = ("postbound/util/" + f for f in ("collections.py", "dicts.py", "num.py", "nx.py", "stats.py", "misc.py"))

prop("C33", "Utility containers, numbers, versions and JSON encoding keep their contracts",
     "Queue and SizedQueue are FIFO (falsy items included, oldest items dropped at the capacity); the dictionary helpers compute differences, merges, inversions and "
     "groupings without losing entries or changing arguments; frozendict is immutable and hashes independently of the order, CustomHashDict and DynamicDefaultDict "
     "behave like dictionaries under their hash/default; powerset, windows, pairs, make_hashable, catalan numbers and trigrams are exact; Version is totally ordered by "
     "components; AtomicInt/BoundedInt compute like (snapped) integers; graph walks visit exactly the documented sequences; to_json encodes every supported type; run_cmd reports output and exit code of a process and restores the working directory.",
     ["inputs", "histories"], "operation histories of up to 12 steps, sequences of up to 6 elements, graphs of up to 5 nodes, nested values of depth 3, all operators",
     "The helpers are used everywhere with arbitrary contents; the tests do not exercise them.",
     [UCOL, UDICT, UNUM, UNX, USTAT, UMISC, JSONIZE], [("Queue, SizedQueue, powerset, make_hashable", UCOL), ("frozendict, CustomHashDict, invert_multi", UDICT), ("AtomicInt, BoundedInt", UNUM), ("nx_frontier_walks, nx_random_walk, nx_bfs_tree", UNX), ("Version", UMISC), ("run_cmd", "postbound/util/proc.py")],
     "property-based testing: stateful histories against reference models (deque, dict, int, list) and brute-force enumeration",
     "Random exploration. Children of nodes that fail the condition of nx_bfs_tree (contradictory documentation) are not judged.",
     ["postbound.util"])

ANA = "postbound/opt/_analysis.py"

prop("C34", "Plan and join tree analysis reports exact differences, scores, depths and costs",
     "For any two plans over joins and scans, compare_query_plans reports exactly the nodes with different tables, swapped inputs, operators, estimates, costs or "
     "cardinalities (plans with auxiliary nodes raise ValueError) and inspect() prints one line per change. join_depth, the Levenshtein distance and the bottom-up similarity "
     "equal their definitions; the top-down similarity ignores the argument order, is highest for identical trees and 0 for disjoint ones. possible_plans_bound is at least "
     "the number of plans; actual_plan_cost prices the plan with its actual cardinalities; star_query_cardinality equals COUNT(*); text_diff keeps every line.",
     ["inputs"], "plans and join trees over 1-6 tables (mutated, mirrored, regrafted or unrelated), 1-7 tables for bounds, star schemas with 1-3 dimensions and NULLs",
     "The results are plain numbers and lists for arbitrary pairs of plans; the module has no tests.",
     [ANA], [("compare_query_plans", ANA), ("jointree_similarity_topdown/bottomup, join_depth", ANA), ("star_query_cardinality", ANA)],
     "property-based testing: mutated pairs of plans against a reference diff, metamorphic relations of similarities, brute-force counts, COUNT(*) on quacklab (DuckDB)",
     "Random exploration. The documented range of the top-down similarity is violated (known finding).",
     ["compare_query_plans()", "join_depth()", "star_query_cardinality()"])

TONIC = "postbound/opt/tonic.py"
prop("C35", "TONIC learns and recommends the cheapest operator of each join path",
     "For every history of integrated plans (any cost model, linear and bushy, auxiliary nodes, aliases, self joins), feedback runs, resets and stored/loaded models, TONIC's "
     "plan synopsis knows for each join path exactly the integrated operators with cost + gamma * old cost; paths ignore aliases and, if the synopsis is filter-aware, "
     "distinguish the filters of the tables. recommend/select_physical_operators assign to each join of the join order (the native one if none is given) the cheapest operator of its path if at "
     "least two are known and nothing else; detect_unknown_costs reports exactly the missing operators. explore_costs integrates each allowed and supported combination once, "
     "or at most max_combinations different ones, priced with true cardinalities.",
     ["inputs", "histories"], "2-12 operations over 1-3 queries of 2-7 relations, arbitrary tree shapes, 1-4 operators",
     "What is recommended depends on the whole history of learned plans along a path; the module has no tests.",
     [TONIC], [("QEPsNode.recommend_operators/integrate_costs/detect_unknown_costs", TONIC), ("TonicOperatorSelection.load_model/explore_costs/simulate_feedback", TONIC)],
     "property-based testing: model-based histories against a reference map from join paths to operator costs, with a recording database stand-in",
     "Random exploration. The database is a stand-in whose costs are a function of tables, operator and cardinality.",
     ["TonicOperatorSelection", "QEPSynopsis", "QEPsNode.operator_costs"])

NATIVE = "postbound/opt/native.py"
prop("C36", "The native cost model returns the system's estimate for exactly the given plan",
     "For every query, partial plan and answer of the target system, NativeCostModel.estimate_cost returns the cost which the system estimates for exactly this plan over exactly "
     "the part of the query that belongs to the plan's tables. Index scans that the system only uses for COUNT(*) get the cost of the scan node of that plan if it has the requested operator; "
     "sorts are priced by an ORDER BY of the sort keys (order and direction); materialize nodes as inner input of a join with a table that is joined with the plan, "
     "memoize nodes with a table that is joined on the lookup key, and cannot be the root of a complete plan. Rejected plans cost infinity or raise with raise_on_error; warnings are only issued in verbose mode.",
     ["inputs", "fault_sequences"], "queries over 1-5 relations with filters and ORDER BY, plans over any connected part of it, a system that rejects or changes plans",
     "Which query and plan are priced depends on the part of the query, its joins and on what the system rejects; the module has no tests and no server is available.",
     [NATIVE], [("NativeCostModel.estimate_cost", NATIVE), ("_cost_index_op, _cost_materialize_op, _cost_memoize_op, _cost_sort_op", NATIVE)],
     "property-based testing: generated queries, plans and rejections against a deterministic stand-in of the target system and a reference model",
     "Random exploration. Whether failures of materialize/memoize estimates raise is not judged.",
     ["NativeCostModel.estimate_cost()"])

MYSQL = "postbound/mysql.py"
prop("C37", "The MySQL back end reads EXPLAIN faithfully and requests exactly the given plan",
     "For every EXPLAIN document of a query, the MySQL optimizer interface returns a plan with exactly the document's operators: the grouping, ordering, duplicate and buffer nodes in "
     "their order, a left-deep join tree in document order with the join algorithm of the join buffer, the scan of the access type on the right table (also in self joins), and "
     "the documented costs and cardinalities (unknown if missing, zero if zero). generate_hints adds exactly the JOIN_ORDER, scan and join hints and preparatory SET statements of the "
     "given plan or assignments, rejects bushy join orders, and leaves the query itself unchanged; formatting and executing it yields the same query in MySQL's syntax (literals, casts, EXPLAIN) "
     "with the hints directly after SELECT and the SET statements before. Configuration files yield exactly the given connection parameters; keys, indexes, types, nullability, row and distinct counts are those of information_schema.",
     ["inputs"], "queries over 1-5 relations incl. self joins, EXPLAIN documents with missing or zero values, linear and bushy plans, all hintable operators, settings, literals, SQL modes",
     "Requests and documents combine freely; the module has no tests and no server is available.",
     [MYSQL, "postbound/qal/_formatter.py"], [("parse_mysql_explain_plan", MYSQL), ("MysqlHintService.generate_hints/format_query", MYSQL), ("_parse_mysql_connection", MYSQL)],
     "property-based testing: generated EXPLAIN documents and plans against a reference model, recording connector stand-in, round trip of formatted queries",
     "Random exploration. The connector is a stand-in; information_schema is emulated by sqlite tables; inherited schema methods and emulated statistics are not judged.",
     ["MysqlOptimizer.query_plan/parse_plan", "MysqlHintService", "MysqlInterface.execute_query"])
