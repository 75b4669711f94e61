#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so the text stays reviewable)."""
import json, os

P = []


def prop(id, title, statement, over, qtext, why, files, mechanism, state=(), observe=(), hook=None):
    assert len(title) <= 80, title
    P.append(
        {
            "id": id,
            "title": title,
            "statement": " ".join(statement.split()),
            "quantifier": {"over": over, "text": " ".join(qtext.split())},
            "why_tests_cant": " ".join(why.split()),
            "anchors": {
                "files": files,
                "state": [dict(zip(("name", "meaning", "where"), s)) for s in state],
                "mechanism": [dict(zip(("name", "where"), m)) for m in mechanism],
                "observe_at": list(observe),
                "hook_needed": hook,
            },
        }
    )


S, PL, PM, ME, SO, FI, CO, CM, MA = (
    "subsetter/sampler.py",
    "subsetter/planner.py",
    "subsetter/plan_model.py",
    "subsetter/metadata.py",
    "subsetter/solver.py",
    "subsetter/filters.py",
    "subsetter/common.py",
    "subsetter/config_model.py",
    "subsetter/__main__.py",
)

prop(
    "C01",
    "Sampled data keeps every foreign key relationship",
    """Whenever planning succeeds, sampling with that plan yields output in which every foreign key value of
    every sampled row that resolves in the source (over declared, inferred and extra foreign keys between
    planned or passthrough tables, minus the ignored ones) also resolves in the output. This holds for
    single- and multi-column keys, several keys between the same two tables, keys shared with primary keys, NULLs,
    random targets, and any number of targets.""",
    ["inputs", "configurations"],
    "all acyclic schemas (up to 7 tables), row contents, target / constraint / passthrough / ignore / extra / inferred foreign key configurations, on sqlite, PostgreSQL and MySQL",
    "The live tests sample five fixed schemas with one target each; referential integrity depends on the shape of the foreign key graph, on NULLs, on composite and parallel keys and on the mix of targets, none of which they vary.",
    [PL, PM, SO, S, ME],
    [("order_graph phases", SO), ("Planner._plan_table join / outer-join construction", PL), ("SQLStatementSelect.build", PM), ("Sampler._materialize_tables (one sample per table reused by all dependants)", S)],
    observe=["rows in the destination database after Planner.plan and Sampler.sample"],
)
prop(
    "C02",
    "Each table's sample is exactly the documented set of rows",
    """For every planned table the sampled rows are exactly: for a target, the source rows meeting all of its
    configured filters (all rows for `all`; at most `amount` of them if given) and the table's constraints, together with the rows that previously
    sampled tables reference; for any other table, either the union of the rows referenced by previously sampled
    tables or, if its own foreign keys lead to previously sampled tables, the rows whose every such key resolves to
    a sampled row and which meet the table's constraints; for a passthrough table, all rows. Targets and everything they reference, transitively, are sampled
    first, then everything that references those, then alternating. Requesting constraints that would break a previously sampled
    reference is refused.""",
    ["inputs", "configurations"],
    "all generated schemas, data and planner configurations (in / like / sql / all / amount / percent filters, constraints with every operator), on three dialects, checked table by table against a reference evaluator",
    "The tests compare one expected sample for each of five datasets, all with a single `in` target; they never use several targets, amounts, likes, raw SQL filters, constraints, or ignored and extra keys.",
    [PL, PM, S, SO],
    [("Planner._plan_table", PL), ("SQLStatementUnion / SQLStatementSelect build and simplify", PM), ("Sampler._materialization_order / _materialize_tables", S)],
    observe=["rows in the destination database"],
)
prop(
    "C03",
    "Untransformed rows are copied faithfully, completely and once",
    """Without filters or other transformations, every row a plan selects arrives in the output database exactly
    once with every column value equal to the source value, whatever the number of rows, the column types
    and values (text, integers, floats, decimals, dates, binary, booleans, JSON, NULLs), the column order or the table and column names. A destination column that is computed
    by the database is left to the database.""",
    ["inputs"],
    "row counts from 0 to several buffer sizes including all values next to multiples of the buffer size; generated values of each supported column type; generated identifiers; three dialects",
    "The largest test table has about a dozen rows, far below any buffer boundary, and only int, short text and eight JSON values are used.",
    [S, ME],
    [("DatabaseOutput.output_result_set buffering and flush", S), ("Sampler._copy_results streaming", S), ("TempTableCreator.create", S)],
    observe=["rows in the destination database"],
)
prop(
    "C04",
    "Sampling order is valid for every graph, or a real cycle is reported",
    """For every directed graph and source with only outgoing (or only incoming) edges, ordering the graph returns exactly the nodes
    weakly reachable from the source, source first, such that every other node has a previously ordered neighbour and all its previously ordered
    neighbours are connected in the same direction; if and only if those nodes contain a cycle it raises the cycle
    error instead, naming a real cycle. Topological sorting returns every node after all nodes it points to, or
    raises a ValueError exactly when a cycle exists. Planning therefore fails for a foreign key cycle, with an error naming the tables on it,
    and never for an acyclic schema.""",
    ["inputs"],
    "all directed graphs with up to 4 nodes exhaustively, generated graphs (sparse, dense, layered, cyclic, self loops) up to 60 nodes, and generated schemas with cycles",
    "test_order_fuzz samples 1000 acyclic graphs whose source reaches almost everything directly; cyclic graphs, multi-phase graphs and the content of the reported cycle are tested on single examples.",
    [SO, PL, ME],
    [("order_graph", SO), ("toposort_reachable weights and on-stack detection", SO), ("toposort", SO), ("Planner._solve_order", PL)],
    observe=["return values and exceptions of the solver functions", "Planner.plan success or error"],
)
prop(
    "C05",
    "A plan covers exactly the tables it should and rejects unsafe setups",
    """A plan contains exactly the passthrough tables that exist plus those non-ignored tables connected to a target through foreign keys, where
    the candidates are the tables matching a select pattern or passthrough and (unless disabled) the tables they transitively reference,
    and where links through ignored or passthrough tables or ignored foreign keys do not count. Planning is refused when a target is not a candidate,
    when a candidate table that is not ignored references an ignored table (with dependency inclusion on), or when a passthrough table references a
    non-passthrough table. With dependency inclusion disabled, references to unselected tables neither pull those tables in nor make planning or sampling fail.""",
    ["configurations", "inputs"],
    "generated multi-schema databases with select globs, ignore, passthrough, ignored / extra / inferred foreign keys, dependency inclusion on and off",
    "All live tests select `test.*` and use at most one passthrough table; none uses ignore, ignore_fks, include_dependencies, several schemas or a rejected configuration.",
    [PL, ME, CM],
    [("DatabaseMetadata.from_engine closure", ME), ("Planner._check_ignore_tables / _check_passthrough_tables / _solve_order", PL), ("DatabaseMetadata.as_graph", ME)],
    observe=["keys and passthrough list of the plan", "exceptions of Planner.plan"],
)
prop(
    "C06",
    "Plan queries mean what the plan language says; simplifying keeps it",
    """Executing any plan query (select / union; operator, in, sub-select, and, or, true, false and raw SQL conditions; limits; joins in inner and outer form)
    returns exactly the rows that its syntax tree denotes under SQL three-valued logic. Simplifying a query or condition
    never changes the rows it returns, and simplifying twice changes nothing further. Raw SQL fragments behave as one atomic condition wherever they are combined with others.""",
    ["inputs", "programs"],
    "all syntax trees up to a bounded depth over generated tables with NULLs and duplicates, built and executed on sqlite, before and after simplification",
    "No test touches the plan language directly; only the handful of trees the planner builds for the five datasets is executed.",
    [PM],
    [("SQLWhereClause*.build / simplify", PM), ("SQLStatementSelect.build / simplify", PM), ("SQLStatementUnion.build / simplify", PM)],
    observe=["rows returned by the built statement"],
)
prop(
    "C07",
    "Plans survive the YAML file and are a function of schema and config",
    """Writing a plan with the `plan` command and reading it back for `sample` gives an equal plan, and running `plan` then `sample` produces the same output as running
    `subset` once. The plan depends only on the schema and the planner configuration: not on hash
    seeds, the order in which tables were created, or the order of entries in the select, ignore and passthrough lists. A plan file that is malformed is refused with a nonzero exit status.""",
    ["inputs", "configurations"],
    "generated schemas and planner configurations with adversarial literals (YAML-special strings, quotes, unicode, floats, negative numbers, dates as strings), processes with different hash seeds, stdout / -o / stdin variants",
    "The live tests hand the plan object straight to the sampler; the CLI, the YAML dump and its reload are never executed.",
    [MA, PM, PL],
    [("_main_plan yaml.dump with exclude_unset and aliases", MA), ("SubsetPlan.model_validate", PM), ("sorted foreign keys in Planner._plan_table", PL)],
    observe=["plan files written by the CLI", "destination rows"],
)
prop(
    "C08",
    "The source database is never modified",
    """Planning and sampling, successful or failing, with any combination of create, truncate, merge, compaction, multiplicity, filters and conflict strategies, leave the
    source database exactly as it was: same tables, same definitions, same rows, and no helper tables left behind.""",
    ["inputs", "configurations", "fault_sequences"],
    "generated runs over all sampler features, including runs that fail, with a separate destination or a destination sharing the server with the source through table remapping; three dialects",
    "No test looks at the source after a run.",
    [S, PL, ME],
    [("temporary tables private to a connection", S), ("DatabaseOutput._remap_table", S), ("DatabaseOutput.truncate", S)],
    observe=["full content and catalog of the source before and after"],
)
prop(
    "C09",
    "Only the intended destination tables are touched",
    """A run writes only to the destination tables its planned tables are remapped to. Without truncate, pre-existing destination rows survive (except rows replaced under the
    replace strategy); with truncate exactly the planned tables and the tables that transitively reference them are emptied first and no other table changes, so repeating a deterministic run with truncate
    gives the same content. Two planned tables mapping to one destination table, a planned table missing in the destination, a bad filter, an impossible compaction or a non-integer multiplied key
    make the run fail before anything in the destination is deleted or inserted.""",
    ["configurations", "histories"],
    "generated destinations with unrelated tables, tables referencing the sampled ones, remap patterns and name collisions, histories of runs with and without truncate; three dialects",
    "The tests only write into fresh schemas that contain nothing but the sampled tables, with a single remap pattern, and never pass truncate.",
    [S, ME],
    [("DatabaseOutput.__init__ table_remap", S), ("DatabaseMetadata.from_engine close_backward", ME), ("DatabaseOutput.truncate order", S), ("Sampler.sample validation order", S)],
    observe=["all destination tables before and after"],
)
prop(
    "C10",
    "Create mode reproduces missing tables and leaves existing ones alone",
    """With create, every planned table missing in the destination is created with the source's columns (names, order, types and nullability), primary key,
    unique and check constraints and the foreign keys between planned tables (so that it accepts a row exactly if the source table does), under the remapped name and pointing at the remapped tables, and the run then succeeds; foreign keys to unplanned tables are left out.
    Tables that already exist keep their definition and rows.""",
    ["inputs", "configurations"],
    "generated schemas with composite and shared keys, unique constraints, indexes, nullable and not-null columns of all types, subsets of the tables already present, remapping across schemas; three dialects",
    "The tests create tables from schemas without unique constraints, not-null columns or indexes, and never inspect the created definitions.",
    [S, ME],
    [("DatabaseOutput.create", S), ("DatabaseMetadata.track_new_table", ME)],
    observe=["reflected destination schema"],
)
prop(
    "C11",
    "Compaction renumbers ids gaplessly and keeps all references intact",
    """A compacted column of a table with N sampled rows holds exactly the values start_key to start_key+N-1, in the order of the source primary key, and all other columns are
    unchanged. Every foreign key that refers, directly or through a chain of foreign keys, to a compacted column is rewritten so that it refers to the same row as in the source; NULL references stay NULL. Passthrough tables are never compacted, and explicitly compacting a column that is itself a foreign key is refused.""",
    ["inputs", "configurations"],
    "generated schemas, data and compact settings (primary_keys, auto_increment_keys, explicit columns, start_key), combined with filters and directory or database output; three dialects",
    "Two fixed datasets are compacted with default settings; chains of shared keys, several references to one table, start_key, extra columns and unreferenced tables are not varied.",
    [S],
    [("Sampler._get_compact_columns", S), ("row numbering in _materialize_tables / _copy_results", S), ("reference rewriting joins in _copy_results", S)],
    observe=["destination rows compared with an uncompacted reference sample"],
)
prop(
    "C12",
    "Merging never collides with, alters or re-links existing data",
    """In merge mode, all rows already in the destination stay as they were, each newly sampled row of a non-passthrough table appears once with
    new_id = source_id + m + 1 where m is the largest id already in that table (for a key that is itself a reference, the shift of the row it refers to; unshifted if the table is empty), and every single-column foreign key of a new row refers to the row
    that its source row referred to, also through chains of shared keys. Passthrough rows are inserted only where their key is absent. This stays true when merging repeatedly and together with compaction and multiplicity.""",
    ["inputs", "histories", "configurations"],
    "generated schemas with non-negative integer keys, generated existing destination content, histories of several merges of different samples; three dialects",
    "The live tests run one merge after each sample and only check that it does not raise.",
    [S],
    [("DatabaseOutput.prepare offsets", S), ("offset application in output_result_set", S), ("skip strategy for passthrough tables", S)],
    observe=["destination rows before and after each merge"],
)
prop(
    "C13",
    "Multiplicity yields m disjoint, internally consistent copies",
    """With multiplier m every row of a multiplied table appears m times, once for each i < m, with each primary key column, extra column and foreign key column that refers to a multiplied column
    mapped to value*m+i (NULL stays NULL) and all other columns unchanged, so that the m copies are disjoint and each is isomorphic to the plain sample. Passthrough and ignored tables are written once and references to them are unchanged.
    A non-integral multiplied column, or an unmultiplied table that references a multiplied column, is refused.""",
    ["inputs", "configurations"],
    "generated schemas, data and multiplicity settings (ignored tables, extra columns, ignored primary key columns), database and directory output; three dialects",
    "No test uses multiplicity.",
    [S],
    [("Sampler._get_multiplied_columns", S), ("_multiply_column", S), ("multiplier loops in both outputs", S)],
    observe=["output rows compared with a plain reference sample"],
)
prop(
    "C14",
    "Conflict strategies error / replace / skip do exactly what they say",
    """When a sampled row's primary key already exists in the destination, `error` makes the run fail, `replace` leaves the row with all sampled columns taken from the sample and every other column as it was, and
    `skip` leaves the existing row untouched; sampled rows without a conflict are inserted under every strategy and rows that are not sampled never change. Tables without a primary key are simply appended to, and omitting the primary key with a filter lets the
    destination generate it.""",
    ["histories", "configurations", "inputs"],
    "histories of runs of generated samples into a destination with generated content, all strategies, composite keys, key-only tables, computed columns, omitted columns; three dialects",
    "The tests only insert into empty tables or shift the keys; no insert ever conflicts.",
    [S, CM],
    [("ConflictInsert per-dialect compilation", S), ("merge override to skip", S)],
    observe=["destination rows after every run"],
)
prop(
    "C15",
    "Filters change exactly the listed columns, as their operation promises",
    """For any row and any chain of filters, filters apply in order, unlisted columns keep their value and position, `omit` removes just the listed columns, and each operation's output obeys its contract: null gives NULL; zero gives the same-typed zero value and keeps
    NULL; constant gives the configured values; random_int / random_float stay within the inclusive bounds; random_string has the configured length and alphabet; uuid gives distinct valid UUIDs; fakes give non-empty values, never repeating when unique; plugins
    get exactly the listed columns; multiplex applies the first matching condition only. Unknown or duplicate columns, an empty column list, mismatched constants and column-removing multiplex branches are rejected when the filter is built.""",
    ["inputs", "configurations"],
    "generated rows of mixed types, generated chains of every filter operation, deterministic random sources",
    "The unit tests apply each filter once, to all columns of one row, mostly with mocked randomness; chains, partial column lists, multiplex, plugins and rejections are untested.",
    [FI],
    [("FilterColumns.filter_view / _validate_and_index", FI), ("FilterViewChain.construct_filter", FI), ("MultiplexCondition.match", FI)],
    observe=["filter_view output, columns_out, constructor errors"],
)
prop(
    "C16",
    "Configured filters apply to every output row in every mode",
    """When filters are configured for a table, every row of that table in the output (database or JSON, materialized or not, with compaction, multiplicity, merge or any conflict strategy, at any batch position) has been filtered: original values of
    null / zero / constant / random / fake / omitted columns never reach the output, the unlisted columns and other tables are untouched, and omitted columns are neither written nor required in the destination. The same rows are selected
    as without filters.""",
    ["inputs", "configurations"],
    "generated schemas with a unique marker value in every sensitive cell, generated filter chains, all output modes and sampler features, row counts beyond a batch; three dialects",
    "No test runs the sampler with a filter configured.",
    [S, FI],
    [("filter view built in Sampler._copy_results", S), ("FilterOmit / computed column handling in DatabaseOutput.output_result_set", S)],
    observe=["every cell of the destination, JSON files"],
)
prop(
    "C17",
    "A failing run reports it, leaves no dangling rows and can be redone",
    """If the destination rejects a write at any point of a run, the run ends with an error instead of reporting success, the rows written until then form a subset of the intended sample without any
    dangling reference between destination tables, and repeating the run with truncate once the cause is gone gives exactly the output of an undisturbed run.""",
    ["crash_points", "fault_sequences", "inputs"],
    "generated schemas and data, a write fault injected at every row position of every table in turn (small cases exhaustively), also beyond the first batch, with enforced destination foreign keys",
    "No test injects a failure.",
    [S, MA],
    [("insert order from DatabaseMetadata.toposort", S), ("commit after each flush", S), ("truncate in reverse order", S)],
    observe=["exception or exit status", "destination rows after the fault and after the repeat"],
)
prop(
    "C18",
    "Destination id generation never collides after sampling",
    """After any history of sampling runs into a destination with auto-generated integer keys, letting the destination generate the key of a new row succeeds and yields an id larger than every id sampled into the table, and the id
    generator never moves backwards. This holds for any table name, for pre-existing rows and for every conflict strategy, merge, multiplicity and compaction.""",
    ["histories", "configurations"],
    "histories of sampling runs and direct inserts into PostgreSQL serial and identity keys (and MySQL / sqlite auto-increment), generated table names including mixed case, generated id distributions",
    "The tests create destination tables but never insert a row afterwards, and never sample into a table whose generator is already ahead.",
    [S],
    [("_autoincrement_get / _autoincrement_update", S), ("autoinc_max_written tracking in output_result_set", S)],
    observe=["ids generated by the destination after each run"],
)
prop(
    "C19",
    "Foreign key inference links exactly the unambiguous key columns",
    """With inference enabled, a column is treated as a foreign key exactly when its name equals the single-column primary key name of exactly one other considered table (within the same schema for `schema`, anywhere for `all`)
    and no such key is declared already; ambiguous names, multi-column primary keys and a table's own key never produce one. Inferred keys influence planning, multiplicity and compaction exactly as declared ones would.""",
    ["inputs", "configurations"],
    "generated multi-schema databases with overlapping column names, both inference modes and none, checked against a reference computation and against the same schema with the keys declared",
    "No test enables inference.",
    [ME, PL, S],
    [("DatabaseMetadata.infer_missing_foreign_keys", ME)],
    observe=["joins of the resulting plan", "sampled rows"],
)
prop(
    "C20",
    "Random targets sample the requested share and stay self-consistent",
    """A target with `amount` n yields exactly min(n, matching) matching rows (plus rows other targets need), chosen so that every matching row can appear; a target with `percent` p includes each matching row independently with
    probability p/100, 0 meaning none and 100 or more all. The drawn sample is drawn once per run: the rows of all other tables agree with the rows of the random table that were actually output.""",
    ["inputs", "configurations"],
    "generated tables, amounts and percentages; statistical bounds wide enough for a false alarm probability below 1e-9 per check; three dialects",
    "No test uses amount or percent.",
    [PL, PM, S],
    [("SQLWhereClauseRandom", PM), ("limit with random ordering", PM), ("materialization of referenced tables", S)],
    observe=["row counts and identities in the destination over repeated runs"],
)
prop(
    "C21",
    "Configuration is layered, strict and completed from the environment",
    """Several config files merge with later files overriding earlier ones key by key and replacing lists and scalars; unknown keys in the planner and sampler sections, unknown
    filter operations and malformed documents are rejected with a nonzero exit status before any database work. Connection settings left out of the config (dialect, host, port, database, user, password, SSL) come from the SUBSET_SOURCE_ / SUBSET_DESTINATION_ environment variables and behave exactly as if they had been configured,
    explicit settings win, and session statements run on every connection. An omitted sampler section means the documented defaults.""",
    ["configurations"],
    "generated nested configurations split over 1-4 files, generated environment assignments against explicit settings, generated unknown-key mutations",
    "The tests construct config objects directly; the CLI loader, merging and environment handling are never executed.",
    [MA, CO, CM],
    [("_get_config / _dict_merge", MA), ("database_url", CO), ("DatabaseConfig.database_engine / get_connect_args", CO), ("extra=forbid models", CM)],
    observe=["CLI exit status and effects", "engine URL, driver arguments, live connections"],
)
prop(
    "C22",
    "TLS settings are honoured: verification is exactly what was asked",
    """When TLS is required for a connection, an unencrypted connection is never used; `verify: cert` accepts only servers whose certificate chains to the configured root, `verify: identity` additionally only servers whose
    certificate matches the host name, and `verify: none` (with no root certificate) accepts any server certificate; a configured client certificate is presented. This holds whether the settings come from the config file or the environment.""",
    ["configurations"],
    "all combinations of verify mode, root certificate (right, wrong, none), host name (matching or not), client certificate, config or environment, against live MySQL and PostgreSQL servers",
    "No test connects with TLS.",
    [CO],
    [("SSLConfig.get_connect_args", CO)],
    observe=["success or failure of connecting, and the cipher the server reports"],
)
prop(
    "C23",
    "All dialects, and copies across dialects, give the same sample",
    """The same schema, data, planner and sampler configuration (including compaction, merge and multiplicity) produces the same plan (up to the order of its joins and to join strategy hints) and the same output rows on sqlite, PostgreSQL and MySQL, and a plan sampled from one dialect into
    another produces those rows too.""",
    ["inputs", "configurations"],
    "generated portable schemas, data and configurations, all pairs of source and destination dialect",
    "The live tests pin the same expected sample per dialect for five datasets, and never copy between different dialects.",
    [S, PM, ME, CO],
    [("sqlalchemy core statements", PM), ("temporary table copies for MySQL", S), ("ConflictInsert dialect variants", S)],
    observe=["plans and destination rows per dialect pair"],
)
prop(
    "C24",
    "Directory output is one valid JSON object per sampled row",
    """In directory mode each planned table gets the file <schema>.<table>.json with one line per sampled row, each line a JSON object mapping every output column to its value (numbers, strings, booleans, null and JSON documents as themselves, other types as text);
    the rows equal those that database output would contain under the same filters, compaction and multiplicity. A rerun replaces the files.""",
    ["inputs", "configurations"],
    "generated schemas and data (unicode, control characters, quotes, dates, decimals, nested JSON), filters, compaction, multiplicity, reruns",
    "No test uses directory output.",
    [S],
    [("DirectoryOutput.output_result_set", S)],
    observe=["files in the output directory"],
)
prop(
    "C25",
    "Under a stable isolation level a sample shows one state of the source",
    """With isolation_level REPEATABLE READ or SERIALIZABLE set for a PostgreSQL or MySQL source, everything one run of the sampler writes (sampled, passthrough and
    referenced tables, with or without compaction, multiplicity and filters) is computed from one committed state of the source: other sessions may insert, update and
    delete rows and commit at any moment while the run reads, and the output still equals the output of an undisturbed run on one of the states that were committed
    (on MySQL other sessions may be made to wait instead). In particular no reference dangles because a row was added or removed in the meantime.""",
    ["schedules", "inputs"],
    "generated schemas, rows, configurations and sequences of source states; the transactions that lead from one to the next commit before chosen statements of the sampler",
    "No test changes the source while it is sampled or sets an isolation level.",
    [S, CO],
    [("DatabaseConfig.database_engine", CO), ("Sampler.sample: one connection and transaction for everything read", S), ("TempTableCreator.create", S)],
    observe=["rows of the destination after the run"],
)

path = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(path, "w", encoding="utf-8") as f:
    for p in P:
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P), "properties")
