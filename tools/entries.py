P("C01", "An examination leaves no index of its own behind, whatever fails",
  "After a suggest run returns, with or without an error, the database holds exactly the indexes it held before the run: "
  "every index the run created to measure a query is dropped again, whichever statements failed (as long as the drop itself was accepted), and no other index is ever dropped. "
  "Without examination, a run changes nothing in the database and executes no statement other than reading the catalogue and explaining the query.",
  ["inputs", "fault_sequences", "histories"],
  "every schema, query, list of examined indexes, backend (MySQL, PostgreSQL, Hasura) and every set of failing statements",
  "The tests run a few examinations against mocks that all succeed; no test makes a statement fail in the middle or looks at the indexes left afterwards.",
  ["database/dservice/examiner.go", "database/mysql/mservice/index_examiner.go", "database/postgres/pservice/index_examiner.go",
   "database/hasura/hservice/index_examiner.go", "cmd/db/suggest"],
  [("create, measure, drop per index with the drop deferred", "database/dservice/examiner.go"), ("DDL text per backend", "database/*/*service/index_examiner.go")],
  ["indexes on the simulated server before and after the run", "statements the server received"],
  "a case is non-trivial when at least one index was really created on the simulated server (for the read-only test: when the run succeeded); distinct by schema, query, -i texts and fault plan",
  "generated schemas, queries and -i lists run end to end against a simulated stateful SQL server; every single failing statement of each run is enumerated and random fault sets are injected; oracle: the server's index set before = after",
  "every single statement failure of each generated run is enumerated; schemas, queries and fault sets are sampled",
  level="fault_enumeration",
  assumptions=["a statement the server reports as failed had no effect", "the process is not killed while it runs"])

P("C02", "An examination measures exactly what was asked and reports the real times",
  "A run with examination executes the query once unindexed and once for each index to examine (those given with -i, otherwise the suggested ones) in the presence of exactly that additional index with the columns in the given order, and reports one result per index with the time that execution took and the time of the unindexed execution. "
  "A failing execution, index creation or index removal ends the run with an error instead of a report with partial or invented numbers. A query without any index to suggest still gives a report.",
  ["inputs", "histories", "fault_sequences"],
  "every schema, query, list of indexes, execution times and failing step",
  "The tests check one or two fixed indexes with mocked, always succeeding statements and do not look at reported durations.",
  ["database/dservice/examiner.go", "database/dmodel", "cmd/db/suggest", "html/viewmodel", "infra/hasura/client.go"],
  [("examination loop", "database/dservice/examiner.go"), ("report conversion", "database/dmodel/examination_result.go")],
  ["order of statements on the simulated server", "times in the report"],
  "a case is non-trivial when at least one index was examined (unit level: at least two, or a failure was injected and reached); distinct by schema, query, -i texts, times and failing step",
  "generated runs against a simulated server that logs the index set at each execution and the time each statement took; oracle: reference model of the examination history; unit level: generated clocks",
  "schemas, queries, index lists, delays and failing steps are sampled",
  assumptions=["measured times are judged against the simulated server's own clock readings before and after each statement"])

P("C03", "The -i option's text is read exactly or rejected before anything happens",
  "An index given on the command line as table:col1+col2 is examined as exactly that table and those columns in that order, and any text not of this form (names of letters, digits and underscores) is rejected with an error. "
  "A rejected text makes the run fail without any statement that creates an index, also when it stands beside valid ones. "
  "No name that contains other characters, given by the user or found in the database, ever ends up unquoted or unescaped in a statement that is executed.",
  ["inputs", "programs"],
  "every text, every list of texts, every schema with arbitrary characters in its names",
  "The tests try a handful of well-formed texts.",
  ["database/dmodel/index_target.go", "database/dmodel/index_column.go", "cmd/db/suggest"],
  [("text grammar", "database/dmodel/index_target.go"), ("safe-name check before DDL", "database/dmodel/index_target.go")],
  ["examined indexes", "statements on the simulated server"],
  "grammar: texts with a colon that are malformed, or well-formed with two or more columns; lists: two or more texts; end-to-end: every distinct schema/query/-i combination",
  "grammar-based and mutation-based texts against an independent parser; end-to-end runs whose executed statements are parsed strictly by the simulated server",
  "texts, lists and schemas are sampled",
  assumptions=["names are judged by the word characters A-Z a-z 0-9 _"])

P("C06", "PostgreSQL/Hasura suggestions follow from the columns a query really uses",
  "For every supported SELECT (joins, comma lists, derived tables, LATERAL, nested and correlated subqueries, aggregates, windows, aliases, quoted and unquoted names) the report suggests, for each base table, exactly the index candidates that follow from the columns compared in WHERE and ON and from the columns referred to anywhere else, each attributed to the table the name resolves to under SQL scoping (nearest query first). "
  "Columns exposed by a derived table count as the base columns they are made of; a bare star and constants count as no use. "
  "The candidates are every ordered selection of a table's compared columns and every order of all of them followed by the other used columns by name, without those consisting of primary key columns only and those that exist already, ordered by table, length and names.",
  ["programs", "inputs"],
  "every generated SELECT statement over every generated schema",
  "The tests have some dozens of fixed statements, mostly with one or two tables and no name reused in two scopes.",
  ["database/postgres/pservice", "database/dservice/dparser", "database/hasura/hservice"],
  [("scope collection", "database/postgres/pservice/parser/collect_stmt_scopes.go"), ("name resolution", "database/dservice/dparser/build_table_fields.go"),
   ("candidate enumeration", "database/dservice/dparser/index_target_builder.go")],
  ["index targets in the report"],
  "statements that call for at least two candidates; distinct by schema and statement text",
  "a generator writes a random SELECT together with the set of base columns it compares/refers to (it builds the scopes itself); oracle: reference enumeration of candidates from that set, compared with the report of a real end-to-end run",
  "statements and schemas are sampled up to three tables, three levels of nesting and five compared columns per table",
  assumptions=["names a derived table does not expose but mentions in ORDER BY/GROUP BY/HAVING/DISTINCT ON are referred to qualified (known finding derived-table-pseudo-columns)"])

P("C07", "MySQL suggestions follow from the columns a query really uses",
  "For every supported MySQL SELECT over base tables (joins, comma lists, self joins, expression subqueries, aggregates, windows, aliases, any letter case of column names) the report suggests, for each table of the outermost query, exactly the candidates that follow from the columns compared in WHERE and ON and the columns referred to elsewhere in the outermost query. "
  "The candidates are built, filtered and ordered by the same rules as for PostgreSQL.",
  ["programs", "inputs"],
  "every generated SELECT statement over every generated schema",
  "The tests have some dozens of fixed statements.",
  ["database/mysql/mservice", "database/dservice/dparser"],
  [("scope collection", "database/mysql/mservice/parser/collect_stmt_scopes.go"), ("name resolution", "database/dservice/dparser/build_table_fields.go"),
   ("candidate enumeration", "database/dservice/dparser/index_target_builder.go")],
  ["index targets in the report"],
  "statements that call for at least two candidates; distinct by schema and statement text",
  "same generator and oracle as C06 in the MySQL dialect, end to end against the simulated server",
  "statements and schemas are sampled; columns used inside expression subqueries are outside the property (the tool looks at the outermost query for MySQL)",
  assumptions=["JOIN ... USING and NATURAL JOIN are not generated (known finding mysql-using-ignored)"])

P("C10", "Suggestions respect the columns, keys and indexes the database really has",
  "A suggestion is made against the catalogue of the connected schema or database only: a candidate is left out exactly when an index with the same columns in the same order exists on that table or when all its columns belong to the table's primary key, whatever the names of columns and indexes look like, whatever other indexes (also over expressions) exist, and whatever tables of the same name exist in other schemas. "
  "An index over other columns, over a different order, a longer or shorter list, or an expression never hides a candidate. A query that names a table of another schema or database is refused. If the plan or the catalogue cannot be read, at once or midway, the run ends with an error and without report.",
  ["inputs", "configurations", "fault_sequences"],
  "every catalogue of tables, columns, primary keys and indexes in several schemas, and every failing read",
  "The tests look at one or two ordinary indexes on one table in a database with a single schema.",
  ["infra/mysql/index_info.go", "infra/mysql/column_info.go", "infra/postgres/index_info.go", "infra/postgres/column_info.go", "infra/hasura/index_info.go",
   "infra/hasura/column_info.go", "infra/mysql/db.go", "infra/postgres/db.go", "database/dservice/existing_index_remover.go", "database/dservice/dparser/table_schema.go"],
  [("catalogue queries", "infra/*/{index_info,column_info}.go"), ("existing index removal", "database/dservice/existing_index_remover.go"),
   ("primary key filter", "database/dservice/dparser/index_target_builder.go")],
  ["index targets in the report", "catalogue queries sent to the simulated server"],
  "cases where a read fails, an existing index hides a candidate or a table of the same name exists in another schema; distinct by catalogue and statement",
  "generated catalogues on a simulated server that really evaluates the catalogue queries (joins, filters, order); every read of a run is made to fail, at once or after some rows; oracle: reference candidate set computed from the catalogue",
  "catalogues and statements are sampled for the three backends",
  assumptions=["partial, prefix, invisible and covering (INCLUDE) indexes are not generated"])

P("C04", "Every suggested index is valid for the database and the query",
  "Whatever query is given, each suggested index names an existing table and distinct existing columns of it that the query mentions, is not suggested twice, does not consist of primary key columns only, and does not exist already; "
  "suggestions are listed by table name, then number of columns, then column names.",
  ["inputs", "programs"],
  "every query text for which a report is produced (including unsupported, damaged and unusual statements) and every schema",
  "The tests check the suggestions of fixed, supported statements.",
  ["database/dservice", "database/mysql/mservice", "database/postgres/pservice", "database/hasura/hservice"],
  [("name resolution against the catalogue", "database/dservice/dparser/build_table_fields.go"), ("candidate filters", "database/dservice/dparser/index_target_builder.go"),
   ("existing index removal", "database/dservice/existing_index_remover.go")],
  ["index targets in the report"],
  "runs whose report suggests at least one index; distinct by schema and query text",
  "generated, spliced, damaged and listed odd statements run end to end; oracle: invariants of every suggestion checked against the simulated catalogue",
  "query texts and schemas are sampled")

P("C09", "Any query text ends in a report or an error, never a crash or a hang",
  "For every query text and schema a suggest run without examination ends normally, either with a complete report or with a non-empty error message, without crashing, hanging or exhausting memory; statements it does not support give an error. "
  "A run that ends with an error leaves an existing output file as it was, and no query text makes a run without examination send anything but catalogue queries and EXPLAIN.",
  ["inputs", "programs"],
  "every text: supported and unsupported statements, damaged ones, token soup, deep nesting, arbitrary bytes",
  "The tests feed well-formed supported statements only.",
  ["database/mysql/mservice", "database/postgres/pservice", "database/hasura/hservice", "database/dservice/dparser", "cmd/db/suggest"],
  [("parsers and AST walkers", "database/*/*service/parser"), ("AST walk", "database/postgres/pservice/ast/ast_walker.go")],
  ["outcome of the run", "output file", "statements sent"],
  "runs ending in an error or in a report with at least one suggestion; distinct by schema and query text",
  "grammar-based, mutation-based and arbitrary texts run end to end; oracle: no panic, CPU/memory watchdog, error or complete report, output file untouched on error",
  "texts are sampled; tables have at most six columns (the number of suggestions is factorial in the number of compared columns)",
  assumptions=["at most six columns of one table are compared (known finding candidate-explosion)"])

P("C05", "Suggestions stay complete and quick however many columns a query refers to",
  "For queries referring to dozens of columns of a table, of which a few are compared, the report still lists exactly the candidates the rules call for (each ordered selection of the compared columns, and each order of all of them followed by every other used column sorted by name), and the run's time and memory depend on the number of compared columns, not on the number of other columns.",
  ["inputs"],
  "every number of referred columns up to 60 per table and up to seven compared columns, every position in the query",
  "The tests never use more than four columns of a table.",
  ["database/dservice/dparser/index_target_builder.go", "database/dservice/dparser/index_target_table.go"],
  [("candidate enumeration", "database/dservice/dparser/index_target_builder.go"), ("ordering", "database/dservice/dparser/index_target_table.go")],
  ["index targets in the report", "time and memory of the run"],
  "queries using more than seven columns or comparing four or more of one table; distinct by statement",
  "generated wide queries with the used columns known by construction, end to end; oracle: reference enumeration of candidates plus a CPU and memory watchdog per case",
  "widths and positions are sampled; more than seven compared columns are outside the bounds",
  assumptions=["more than nine compared columns of one table exhaust memory by design (known finding candidate-explosion)"])

P("C08", "Rewriting a query without changing its meaning does not change the advice",
  "Running the same query again on an unchanged database gives the same report, and the suggestions do not change when aliases are renamed consistently, white space, comments, a trailing semicolon or the letter case of keywords and unquoted names change, or when unrelated tables, the order of tables or the names of existing indexes change. "
  "The same SQL examined directly in PostgreSQL and through Hasura gives the same suggestions.",
  ["programs", "histories", "configurations"],
  "every generated statement and every combination of these rewrites",
  "The tests compare single runs with fixed expectations.",
  ["database", "cmd/db/suggest", "html"],
  [("alias resolution", "database/dservice/dparser/build_table_fields.go"), ("ordering of results", "database/dservice/dparser/index_target_table.go")],
  ["index targets in the report", "bytes of the report"],
  "statements with at least two suggestions (same_report: every distinct schema/query pair)",
  "metamorphic and differential relations between end-to-end runs on generated statements and catalogues",
  "statements, schemas and rewrites are sampled")

P("C12", "The MySQL plan in the report is the plan the server printed",
  "Every line of EXPLAIN ANALYZE appears in the report exactly once, verbatim and in order, under the step it is indented below. Its costs, rows, times and loops are the numbers printed in that line's own figures (absent ones stay absent), and its title and table are those of its operation, whatever text the query's values contain. "
  "A line indented deeper than any parent gives an error, not a wrong tree.",
  ["inputs"],
  "every plan shape (depth, width, several top-level steps), every operation kind, all figures, arbitrary text values inside conditions",
  "The tests parse a dozen fixed lines and a few fixed plans.",
  ["database/mysql/mmodel", "database/mysql/mservice/explainer.go"],
  [("line parsing", "database/mysql/mmodel/explain_analyze_result_line.go"), ("tree building", "database/mysql/mservice/explainer.go"), ("view model", "database/mysql/mmodel/explain_analyze_tree_node.go")],
  ["plan steps in the report"],
  "plans of more than three lines with nesting; distinct by plan text",
  "generated plans printed as MySQL 8.0 prints them, run end to end; oracle: the generated tree itself (print/parse round trip)",
  "plans are sampled up to 120 lines",
  assumptions=["output as printed by the MySQL 8.0 versions the code refers to (plain decimal numbers, integer rows)", "table names consist of word characters"],
  thorough_scale=15)

P("C13", "The PostgreSQL and Hasura plan in the report is the plan the server printed",
  "Every line of EXPLAIN appears in the report exactly once: each plan step with its own detail lines and plan name (CTE, InitPlan, SubPlan), verbatim and in order, under the step it is indented below, and the trailing planning and execution summary as the summary. "
  "This includes the last step, whether or not a summary follows. A step's costs, rows, width, times and loops are the numbers printed in its own first line (absent ones stay absent), and its title and table are those of its operation, whatever text the query's values contain.",
  ["inputs"],
  "every plan shape (depth, width, CTEs, init plans and subplans at any place), all figures, detail lines and summaries, with and without ANALYZE, arbitrary text values inside conditions",
  "The tests parse a few fixed plans, all of them followed by a summary.",
  ["database/postgres/pmodel", "database/postgres/pservice/explain_analyze_tree_builder.go", "database/postgres/pservice/explainer.go", "cmd/db/suggest/hasura"],
  [("grouping of lines", "database/postgres/pservice/explain_analyze_tree_builder.go"), ("step parsing", "database/postgres/pmodel/explain_analyze_result_node.go"), ("view model", "database/postgres/pmodel/explain_analyze_tree_node.go")],
  ["plan steps and summary in the report"],
  "plans of more than three lines with nesting; distinct by plan text",
  "generated plans printed by the rules of PostgreSQL's explain.c, run end to end (PostgreSQL and Hasura); oracle: the generated tree itself (print/parse round trip)",
  "plans are sampled up to 100 steps",
  assumptions=["output as printed by PostgreSQL 14 (integer rows)", "values contain no line breaks", "relation names consist of word characters, quoted or not"],
  thorough_scale=15)

P("C14", "Performance Insights are read for every MySQL instance over the whole week",
  "A dig of Performance Insights reads, for every MySQL instance of the account and no other, the ten heaviest statements and tokenized statements in five-minute values over exactly the seven days from the given start (or the last seven days), in consecutive, non-overlapping requests, however many pages the instance list has and whatever time zone the start is given in. "
  "If any request fails or the start is not a valid time, the run ends with an error and writes no report.",
  ["inputs", "faults", "histories"],
  "every set of instances, page size, start time and zone, and every failing request",
  "The tests use one instance and one answer for every request.",
  ["cmd/db/dig/performance_insights.go", "infra/aws/rds.go", "infra/aws/performance_insights.go"],
  [("windows", "cmd/db/dig/performance_insights.go"), ("instance list", "infra/aws/rds.go"), ("metric request", "infra/aws/performance_insights.go")],
  ["requests received by simulated AWS services", "outcome of the run", "output file"],
  "runs that read at least one instance, or whose injected failure was reached; distinct by start, instances and failing call",
  "generated accounts on simulated RDS and Performance Insights services with paging and injected failures; oracle: reference set of windows per instance, error and untouched output on failure",
  "accounts, starts and failing calls are sampled", thorough_scale=12)

P("C15", "Hourly loads in the report equal the loads read",
  "For every hour of the period the report shows, for each database and each statement (and tokenized statement), the sum and the maximum of its non-zero five-minute values in that hour together with its identifier, and nothing else: nothing lost, counted twice or moved to another hour, database or statement. "
  "The hours are the UTC hours from the start's to the end's, each exactly once and in order, also without data, in whatever time zone the start or the values are given and however many pages the data comes in.",
  ["inputs"],
  "every set of databases, statements, values, start times and zones",
  "The tests aggregate one statement within one hour in UTC.",
  ["infra/aws", "cmd/db/dig/performance_insights.go", "html/viewmodel", "lib/time.go"],
  [("aggregation", "infra/aws/pi_sql_load_avg.go"), ("reading of data points", "infra/aws/performance_insights.go"), ("hours", "lib/time.go")],
  ["Performance Insights data in the report", "result of the conversion"],
  "cases with more than two (conversion: one) statement/hour cells; distinct by period and expected cells",
  "generated load series on a simulated service, run end to end and through the conversion; oracle: reference aggregation per hour, database and statement",
  "series are sampled, with emphasis on borders of hours, request windows and the period",
  assumptions=["a statement text has one tokenized id per database", "sums are compared up to rounding"], thorough_scale=12)
P("C16", "A trace is shown with every service call and database access under its caller",
  "For every trace read from Jaeger, each span without a recorded parent gives one tree. The tree shows exactly that span, every span below it whose service differs from its parent's, and every childless span that accesses a database (named after the database and the service), each once, below the nearest shown span above it, depth first with the calls of one span by start time. "
  "Each shown span keeps its own name, id, service, start and end, whatever attributes the spans carry and however Jaeger groups or orders them.",
  ["inputs"],
  "every trace: any shape, size, order and grouping of spans, lost parents, all attribute kinds, any names",
  "The tests use a handful of traces of at most five spans.",
  ["otel/jaeger", "otel/omodel", "html/viewmodel", "cmd/app/dig/jaeger.go"],
  [("tree building", "otel/jaeger/v1_converter.go"), ("compaction", "otel/omodel/trace_compacter.go"), ("view model", "otel/omodel/span.go")],
  ["traces in the report"],
  "cases with nested shown calls and at least one folded span; distinct by the traces",
  "generated traces served over gRPC by a simulated Jaeger query service, run end to end; oracle: reference tree built from the generated spans",
  "traces are sampled up to 60 spans", assumptions=["span ids are unique within a trace and parents form no cycle"], thorough_scale=15)

P("C17", "A trace's call count and most time-consuming service are right",
  "For every shown trace the report gives the number of times its most often called service appears in the shown tree, and names a service whose own time is the largest: the time its spans last minus the parts during which any call made from them is running. "
  "This also holds when calls overlap, or start before or end after their caller; an end before a start counts as no time.",
  ["inputs"],
  "every trace, including overlapping, asynchronous and skewed calls",
  "The tests use a few hand-made traces whose calls lie within their callers.",
  ["otel/omodel"],
  [("own time", "otel/omodel/span.go"), ("collection", "otel/omodel/compact_info_collect_visitor.go"), ("call counts", "otel/omodel/same_resource_count_visitor.go")],
  ["figures of each trace in the report"],
  "cases with a trace in which a service is called repeatedly and one service has strictly the most own time; distinct by the traces",
  "generated traces run end to end; oracle: reference count and interval arithmetic on the generated spans",
  "traces are sampled up to 30 spans; ties and traces without own time may name any service",
  thorough_scale=15)

P("C18", "The slowest traces and those calling one service too often are picked exactly",
  "The report lists as slow the 100 traces with the longest root spans (all of them when there are fewer), longest first, and as same-service traces exactly those in which one service is called more often than the threshold, each once, together with the Jaeger address and the thresholds given. "
  "A root that ends before it starts does not count as slow.",
  ["inputs"],
  "every set of traces, durations (equal ones included) and thresholds",
  "The tests pick two of three traces.",
  ["otel/jaeger/trace_picker.go", "lib/heap.go", "cmd/app/dig/jaeger.go"],
  [("picking", "otel/jaeger/trace_picker.go"), ("bounded heap", "lib")],
  ["lists of traces in the report"],
  "sets with more than 100 traces, or partly above the threshold; distinct by size, threshold and durations",
  "generated sets of up to 240 traces run end to end; oracle: sort by duration, reference count against the threshold",
  "sets are sampled around the limit of 100", thorough_scale=12)

P("C19", "A Jaeger dig reads the whole period, each trace once, or fails",
  "A dig asks Jaeger for the given service, minimum duration and number of traces in consecutive half-hour windows that cover the 24 hours from the given start up to now (by default the last 24 hours), whatever zone the start is given in. Each trace found is in the report exactly once, also when two windows find it. "
  "If a request fails, even after part of its answer, the start is not a valid time or an address is missing, the run ends with an error and writes no report.",
  ["inputs", "faults", "histories"],
  "every start, zone, parameter, set of traces around window borders, and every failing request",
  "The tests use one window, whose only request succeeds.",
  ["otel/jaeger/trace_fetcher.go", "infra/jaeger/client.go", "cmd/app/dig/jaeger.go", "lib/time.go"],
  [("windows", "otel/jaeger/trace_fetcher.go"), ("reading of the stream", "infra/jaeger/client.go"), ("period", "cmd/app/dig/jaeger.go")],
  ["requests received by a simulated Jaeger", "traces in the report", "outcome of the run", "output file"],
  "retrieval: more than one trace found; failures: the fault was reached; distinct by period, traces and fault",
  "generated stores of traces behind a simulated Jaeger query service with injected failures; oracle: the requests and answers it recorded",
  "stores, periods and faults are sampled; borders to whole seconds", thorough_scale=8)

P("C20", "The database connection uses exactly the settings given",
  "A suggest run connects to the server, database and user named in the environment and authenticates with the given password, whatever characters these contain; DB_PARAM_TEXT takes effect (SSL settings included), DB_SEARCH_PATH is the search path of the PostgreSQL connection, and the query given is sent over that connection. "
  "Without a user or database the run fails naming the missing variable, before any connection is made.",
  ["inputs"],
  "every user, password and database name (quotes, backslashes, blanks, separators), protocol and parameter text",
  "No test connects with a configuration.",
  ["infra/mysql/config.go", "infra/mysql/db.go", "infra/postgres/config.go", "infra/postgres/db.go", "cmd/db/suggest", "lib/env.go"],
  [("MySQL DSN", "infra/mysql/config.go"), ("PostgreSQL connection string", "infra/postgres/config.go")],
  ["handshake and first statements received by simulated servers speaking the wire protocols", "outcome of the run"],
  "settings with characters that have a meaning in connection strings, SSL or a search path; distinct by the environment",
  "generated environments, run end to end with the real drivers against simulated servers; oracle: what the server received equals what was given",
  "settings are sampled", assumptions=["a MySQL user contains no colon and a MySQL database no slash or question mark (the driver's own limits)"], thorough_scale=10)

P("C21", "Hasura is asked exactly what was given, and its failures are not hidden",
  "Every request of a Hasura run is a POST below the given address (whatever base path it has) with the given admin secret, and carries the GraphQL text and the variables exactly as given, numbers of any size included; the report shows the same text, SQL and variables. Statements that read the catalogue are marked read-only, and without examination no other SQL is sent. "
  "Variables that are not one JSON object, or a missing address or secret, end the run before any request; an answer other than 200, cut off or unreadable, or other than exactly one plan, ends it with an error and without report.",
  ["inputs", "faults"],
  "every GraphQL text, JSON object of variables, base address, secret, and every failing request of a run",
  "The tests use a fixed query with small variables against answers that succeed.",
  ["infra/hasura/client.go", "infra/hasura/config.go", "infra/hasura/query.go", "cmd/db/suggest/hasura/postgres.go", "database/hasura/hservice", "html/build_option.go"],
  [("requests", "infra/hasura/client.go"), ("variables", "cmd/db/suggest/hasura/postgres.go"), ("examination", "database/hasura/hservice")],
  ["requests received by a simulated Hasura", "report", "outcome of the run", "output file"],
  "requests: a base path, numbers beyond double precision or a longer query; failures: the fault was reached; distinct by the input or fault",
  "generated queries, variables, addresses and faults, run end to end against a simulated Hasura; oracle: the values given, compared as JSON with exact numbers, and the recorded faults",
  "inputs and faults are sampled", thorough_scale=10)

P("C22", "A report is a complete page with exactly its data, or the program fails",
  "Whatever text the report's data contains (markup, script ends, quotes, control characters, any Unicode), the page a browser reads holds exactly that data, once, together with the unchanged front end of its kind, and nothing of a file it replaces. "
  "The program exits with status 0 exactly when the report was written completely, at the place it names; otherwise it exits non-zero with a message, leaves an existing output file as it was (unless writing it failed), and with wrong arguments sends no request.",
  ["inputs", "faults"],
  "every report data of all five kinds, front end text, output path, argument error and server failure",
  "The tests only look whether a report contains a few strings, and never run the program.",
  ["html/html_builder.go", "html/build_option.go", "html/viewmodel", "cmd/root.go", "cmd/db.go", "cmd/app.go", "cmd/util/log.go", "main.go"],
  [("embedding of the data", "html/html_builder.go"), ("shape of the data", "html/build_option.go"), ("exit status", "cmd/root.go")],
  ["the page as an HTML parser splits it", "exit status and messages of the built program", "output file", "requests received"],
  "page: the data contains text with a meaning in HTML or JavaScript; program: every run; distinct by data or arguments",
  "generated report data written by the real page builder and read back (round trip), and runs of the built program with generated arguments and faults; oracle: the data given, the fault injected",
  "data and runs are sampled; the front end itself is a stand-in", thorough_scale=10)

CLIENT = ["pages run through the harness's own small compiler for Svelte components, with stand-ins for apexcharts, mermaid, class-transformer and sql-formatter and for the browser's DOM; what these libraries draw is not judged"]

P("C23", "Commands and statements a page offers do what they say when pasted",
  "The command a suggest page offers, pasted into a POSIX shell, runs gr with the backend, query (and variables) and output file the report names for it, plus --with-examine and one -i for every ticked index and no other; the command of a Performance Insights page names the chosen SQL and its database. "
  "The statement shown for an examined index creates exactly that index, and the copied curl request sends exactly that statement to Hasura. This holds for any text in queries, names, paths and variables (quotes, line breaks, $, backticks), and nothing else is executed.",
  ["inputs", "histories"],
  "every query, variable, path, database, table and column name, and every sequence of ticks and clicks",
  "The client's tests compare a few commands without special characters as text; no test runs or lexes one.",
  ["client/src/components/IndexSuggestion.svelte", "client/src/models/ExaminationCommandOption.ts", "client/src/models/IndexTarget.ts", "client/src/models/PostgresIndexTarget.ts", "client/src/models/HasuraIndexTarget.ts", "client/src/models/ExaminationIndexResult.ts", "client/src/pages/dig/performance_insights/util/CommandText.ts", "client/src/components/ExaminationResultTable.svelte"],
  [("command of a suggest page", "client/src/components/IndexSuggestion.svelte"), ("statement to add an index", "client/src/models/IndexTarget.ts"), ("command of a Performance Insights page", "client/src/pages/dig/performance_insights/util/CommandText.ts")],
  ["text of the commands, statements and copied requests on the page"],
  "text with a character that has a meaning in a shell or in SQL, or several indexes; distinct by the texts",
  "generated reports and click sequences with fast-check; the text shown is read back by a shell lexer and a reader of CREATE INDEX / ALTER TABLE (round trip); oracle: the values of the report and a model of the ticks",
  "reports and clicks are sampled; text without NUL", kind="node", script="c23", thorough_scale=12,
  assumptions=CLIENT + ["the command is not subject to an interactive shell's history expansion (!)"])

P("C24", "The plan on a suggest page speaks of the same steps everywhere",
  "For every plan in a report, the page lists each step once, in the server's order, followed by the summary; the time line has one bar per step with the step's title, whose place follows from the measured times and loops of the step and its parents; its tooltip holds that step's text and figures (- where there is none), as text and not as markup; and pointing at a bar marks exactly that step's line.",
  ["inputs", "histories"],
  "every tree of steps, missing or zero figure, any text, and every sequence of bars pointed at",
  "The client's tests render a page once and look for a heading.",
  ["client/src/components/ExplainText.svelte", "client/src/components/ExplainTree", "client/src/models/explain_data", "client/src/pages/suggest", "client/src/contexts/HighlightIndexContext.ts", "client/src/lib/GrChart.ts"],
  [("list of steps", "client/src/components/ExplainText.svelte"), ("time line", "client/src/components/ExplainTree"), ("tooltips", "client/src/pages/suggest")],
  ["lines of the plan, series, labels and tooltips given to the chart, marked lines"],
  "plans of more than two steps with nesting; distinct by the tree and its figures",
  "generated forests of steps with fast-check, rendered by the page's components; oracle: reference walk of the forest and reference time line",
  "plans are sampled", kind="node", script="c24", thorough_scale=12, assumptions=CLIENT)

P("C25", "A trace page lists, links and draws the report's traces",
  "Both lists hold exactly the report's traces with their figures, longest first, say so when there is none, and name the thresholds used; every link leads to that trace below JAEGER_UI_URL, whatever base path it has. The diagram opened for a trace shows its calls in order between the right services, abbreviates only runs of the same leaf call, with their number, and is never left over from another trace.",
  ["inputs", "histories"],
  "every tree of spans, figure, address and sequence of diagrams opened",
  "The client's tests convert three small trees.",
  ["client/src/pages/dig/jaeger", "client/src/models/trace_diagram", "client/src/models/OtelCompactedTrace.ts", "client/src/models/OtelTraceSpan.ts", "client/src/Mermaid.svelte", "client/src/models/JaegerData.ts"],
  [("lists", "client/src/pages/dig/jaeger/TracesTable.svelte"), ("diagram", "client/src/models/trace_diagram")],
  ["rows and links on the page, text of the diagrams given to mermaid"],
  "traces with nested calls or a run to abbreviate; distinct by the traces",
  "generated trees of spans with fast-check; the diagram is read back into a tree of calls (round trip); oracle: the report's trees with neighbouring leaf calls counted",
  "traces are sampled", kind="node", script="c25", thorough_scale=12,
  assumptions=CLIENT + ["service names have no character or word with a meaning in mermaid's diagram language"])

P("C26", "A Performance Insights page shows the report's loads, and no others",
  "Along every sequence of tabs, ticked databases and clicked bars: the time line shows for each SQL of the ticked databases its load in every hour of the report; the ranking shows the SQLs with the largest sums of load over all hours, in descending order and with those sums; the list of plain SQLs belongs to the chosen tokenized SQL (or says there is no data); tooltips and commands name the SQL and database of the chosen bar, as text and not as markup.",
  ["inputs", "histories"],
  "every set of loads (any database and SQL text, gaps, ties, names such as constructor) and every sequence of clicks",
  "The client's tests render the page once.",
  ["client/src/pages/dig/performance_insights", "client/src/models/DbLoad.ts", "client/src/models/DbLoadOfSql.ts", "client/src/models/TimeDbLoad.ts", "client/src/models/PerformanceInsightsData.ts"],
  [("time line", "client/src/pages/dig/performance_insights/util/chart"), ("ranking", "client/src/pages/dig/performance_insights/DbLoadRankingChart.ts"), ("choice of databases", "client/src/pages/dig/performance_insights/util/Databases.ts")],
  ["series, tooltips, list and commands of the page after every step"],
  "loads of more than one SQL or database, or a sequence of two or more steps; distinct by loads and steps",
  "generated loads and stateful sequences of clicks with fast-check against a model of the page's state; oracle: reference sums over the report's data",
  "loads and sequences are sampled", kind="node", script="c26", thorough_scale=10, assumptions=CLIENT)

P("C27", "A suggest page shows the query, suggestions and measured times of its report",
  "The page shows the SQL, the GraphQL text and the variables exactly as the report holds them, lists every suggested index once in the report's order, and lists every examined index once with its measured time, fastest first after the original time, with the reduction from the original time rounded to hundredths of a percent. Parts the report does not have are not shown, and no report makes the page fail.",
  ["inputs"],
  "every query, variable, set of suggestions and set of measured times (0 ms and ties included)",
  "The client's tests look for the headings of one page.",
  ["client/src/pages/suggest", "client/src/components/PlainText.svelte", "client/src/components/ExaminationResultTable.svelte", "client/src/components/IndexSuggestion.svelte", "client/src/models"],
  [("parts of the page", "client/src/pages/suggest"), ("times", "client/src/models/ExaminationIndexResult.ts")],
  ["text, list and table of the page"],
  "reports with suggestions and times of several indexes, or variables; distinct by the report",
  "generated reports with fast-check, rendered by the page's components; oracle: the report's data and reference arithmetic",
  "reports are sampled", kind="node", script="c27", thorough_scale=12, assumptions=CLIENT)

P("C28", "What a run found out is what its page shows, and the page's command works",
  "The page of every report a run writes opens without error and shows the query, the server's plan, the suggestions and exactly the indexes that were examined; running the command it offers examines exactly the indexes it suggests and writes a page that shows them. The page of a Performance Insights dig shows the total load of every SQL Performance Insights returned, and the page of a Jaeger dig lists every trace found, with its count of accesses and a link to it. Runs that found nothing give a page that opens, too.",
  ["inputs", "histories"],
  "every schema, query, plan, trace and load, with and without examination, runs without any result included",
  "The Go tests do not open the page and the client's tests use made-up data, so nothing checks that the two sides agree.",
  ["html", "html/viewmodel", "database/dmodel", "cmd/db/suggest", "cmd/db/dig", "cmd/app/dig", "client/src/main.ts", "client/src/App.svelte", "client/src/models", "client/src/pages"],
  [("data written", "html/viewmodel"), ("data read", "client/src/models")],
  ["simulated servers", "report file", "the page as rendered", "a second run started from the page's command"],
  "suggest: several indexes examined, or the offered command run; digs: several SQLs or traces; distinct by the input",
  "generated runs of the real commands against simulated servers, their reports opened by the real page components, and the offered command run again; oracle: what the servers recorded",
  "runs are sampled", pkg="c28", thorough_scale=8, assumptions=CLIENT + ["the offered command is run only when -i takes all names (letters, digits, _)"])

P("C29", "The console tells what the report holds, and no secret",
  "With --verbose the console lists exactly the suggested indexes of the report in the report's order, or says that there is none; after an examination it gives the original time and, table by table and fastest first, the time, columns and reduction (to a tenth of a percent) of every examined index; a Jaeger dig lists the slow traces of the report. "
  "Whether verbose or not, every index is named before it is created and before it is dropped, and the absolute path of the report is named exactly when it was written; without --verbose no details are printed. "
  "Neither the console, an error message nor the report ever contains the database password or the Hasura admin secret, whatever fails.",
  ["inputs", "fault_sequences"],
  "every schema, query, list of indexes, measured times, failing statement or connection, password and verbosity",
  "No test reads what is printed.",
  ["cmd/util/log.go", "cmd/root.go", "database/dservice/examiner.go", "lib/http_transport.go", "cmd/app/dig/jaeger.go", "infra/mysql/config.go", "infra/postgres/config.go"],
  [("console set-up", "cmd/root.go"), ("examination results on the console", "database/dservice/examiner.go")],
  ["standard error of the run", "the report"],
  "examiner: two or more indexes; runs: at least one index created or two suggested; passwords: connections that fail; distinct by inputs",
  "generated runs with injected failures whose standard error is captured and compared with the report and the simulated server's statement log; generated times against a reference formatting; generated passwords searched in all output of failing connections",
  "schemas, queries, times, failures and passwords are sampled",
  assumptions=["passwords are at least twelve characters long, so that a chance match with other text is excluded"])


P("C30", "A suggest run executes nothing but the SELECT it was given",
  "A query given to gr db suggest that is anything else than one SELECT (data changes, also inside WITH, SELECT .. INTO, schema changes, session commands, EXPLAIN of such a statement, several statements, whatever is hidden behind comments, quotes or letter case) is refused with an error before any of it reaches the server, so no data and no schema changes; with or without --with-examine. "
  "One SELECT is explained exactly once and, with --with-examine, run once for every time that is measured; everything else the server is sent reads its catalogue or belongs to the examination.",
  ["inputs"],
  "every text given as query: all kinds of statement, spacing, comments, letter case, quoting styles of both servers",
  "No test runs a command with anything else than a SELECT, and EXPLAIN ANALYZE executes what it explains.",
  ["cmd/db/suggest", "database/postgres/pservice", "database/mysql/mservice", "infra/postgres/db.go", "infra/mysql/db.go"],
  [("refusal before execution", "cmd/db/suggest/postgres.go"), ("refusal before execution", "cmd/db/suggest/mysql.go"), ("single statement", "database/mysql/mservice/parse.go"), ("single statement", "database/postgres/pservice/parse.go")],
  ["every statement that reaches the simulated server", "error of the run"],
  "statements of every kind and place, and texts in which the server reads several statements; distinct by the text",
  "generated statements of some sixty kinds and texts made of quotes, comments and ends of statements; oracle: a reference lexer written from the manuals of PostgreSQL and MySQL reads what the server was sent",
  "texts are sampled; functions with side effects (nextval, say) and INTO OUTFILE are not looked for", pkg="c30", thorough_scale=10)
