"""The properties as text. gen.py turns this into properties.jsonl and MANIFEST.json."""

def P(id, title, statement, over, text, why, files, mech, technique, note):
    return dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech,
                technique=technique, note=note)

SPEC = [
P("P01", "Temporary indexes never outlive an examination",
  "Whatever statement, index creation, query execution or index removal fails during an examination, the command attempts to remove every index it managed to create, never removes or alters an index that was there before, and leaves none of its own behind when the removal works. "
  "If any step of the examination fails, including a removal, the command reports failure. Without examination being requested no schema change of any kind is sent to the database.",
  ["fault_sequences", "inputs", "configurations"],
  "every fault at any create/execute/drop/catalogue request of an examination, for all three database kinds, any set of targets, any output setting",
  "The existing tests run the examination once against mocks on the success path and one failing create; a leaked or wrongly dropped index only shows after a fault at a specific step.",
  ["database/dservice/examiner.go", "database/mysql/mservice/index_examiner.go", "database/postgres/pservice/index_examiner.go", "database/hasura/hservice/index_examiner.go", "cmd/db/suggest/mysql.go", "cmd/db/suggest/postgres.go", "cmd/db/suggest/hasura/postgres.go"],
  [("drop after every successful create, also when execution failed", "database/dservice/examiner.go")],
  "online monitor of DDL events on a simulated database with fault injection at every request",
  "real command code, simulated databases; faults sampled over every request position"),
P("P02", "Examination figures belong to the index they are shown for",
  "In an examination each requested index is created, the query is run while that index is the only temporary one present, and it is removed before the next; the original timing is taken with no temporary index present. "
  "The report lists one result per examined index, in the requested (or suggested) order, with the time its own query run took, and no report is written or replaced when any step failed.",
  ["histories", "fault_sequences", "inputs"],
  "every history of requests an examination sends, with arbitrary server delays and faults",
  "Tests compare a fixed mocked sequence; they cannot see which index was live during a measured run, nor whether the figure covers the right interval.",
  ["database/dservice/examiner.go", "database/dmodel/examination_result.go", "html/build_option.go", "infra/hasura/client.go"],
  [("create, execute, drop per target and timing around execute", "database/dservice/examiner.go")],
  "offline checker over the recorded request log (ordering, isolation, timing bracket) with injected delays and faults",
  "timings bounded between server-side duration and gap to neighbouring requests"),
P("P03", "Only the intended indexes are tried and malformed ones are refused",
  "With examination on, exactly the indexes given on the command line are tried, or, when none is given, exactly the suggested ones whose table and column names consist only of letters, digits and underscores. "
  "A given index that is not of the form table:column+column over such names makes the command fail before any query execution or schema change, and no report is written. Every schema statement sent is a plain quoted one naming just that table and those columns.",
  ["inputs", "configurations"],
  "all index option texts, all catalogues including column names needing quoting, all three database kinds",
  "Tests try a few well-formed option texts; injection and near-miss texts are unbounded.",
  ["database/dmodel/index_target.go", "cmd/db/suggest/mysql.go", "cmd/db/suggest/postgres.go", "cmd/db/suggest/hasura/postgres.go", "database/mysql/mservice/index_examiner.go", "database/postgres/pservice/index_examiner.go", "database/hasura/hservice/index_examiner.go"],
  [("anchored pattern of the option and safe-name filter of suggestions", "database/dmodel/index_target.go")],
  "monitor of DDL statements on a simulated database under hostile option texts and column names",
  "generated and mutated option texts; DDL parsed by an independent strict grammar"),
P("P04", "Suggested indexes are exactly what the query's columns call for",
  "For a supported SELECT, the suggestions are, per table, exactly every ordering of every non-empty set of the columns the query uses in WHERE and join conditions and, when the query uses other columns of the table too (selected, sorted, grouped, in HAVING), every ordering of all condition columns followed by those others in name order as covering columns; left out are those made up only of primary key columns and those an existing index already has. "
  "Every column the query refers to is attributed to the table it comes from (through aliases, qualifiers, USING, and unqualified names), and letter case and quoting follow the database's own rules.",
  ["inputs", "programs"],
  "all catalogues and all supported SELECT statements of MySQL, PostgreSQL and Hasura-generated SQL",
  "About sixty fixed statements are tested; the space of clause, alias, qualification and catalogue combinations is unbounded.",
  ["database/dservice/dparser/index_target_builder.go", "database/dservice/dparser/build_table_fields.go", "database/mysql/mservice/parser/collect_stmt_scopes.go", "database/postgres/pservice/parser/collect_stmt_scopes.go", "database/mysql/mservice/index_suggester.go", "database/postgres/pservice/index_suggester.go", "database/hasura/hservice/index_suggester.go"],
  [("collect statement scopes, attribute fields to tables, combine columns", "database/dservice/dparser")],
  "differential monitor: report of the real command against an independent model evaluated on generated statements",
  "statements are generated together with the columns they use, so the oracle never parses SQL"),
P("P05", "Nothing redundant is suggested and nothing useful is filtered out",
  "No suggestion repeats another, names a column twice, consists only of primary key columns, or has the same columns in the same order as an index that already exists on that table. "
  "An index on another table or schema, with other columns, in another order, or with more columns never suppresses a suggestion.",
  ["inputs"],
  "all catalogues (composite and reordered keys, many indexes, same-named tables in other schemas) and all supported statements",
  "Tests use one or two indexes per table.",
  ["database/dservice/existing_index_remover.go", "database/dservice/dparser/index_target_builder.go", "database/mysql/mservice/index_getter.go", "database/postgres/pservice/index_getter.go", "database/hasura/hservice/index_getter.go", "infra/mysql/index_info.go", "infra/postgres/index_info.go", "infra/hasura/index_info.go"],
  [("existing index lookup and comparison", "database/dservice/existing_index_remover.go")],
  "online monitor over reports from catalogues dense in keys and look-alike indexes",
  "catalogue simulated at query level"),
P("P06", "The same command on the same database gives the same ordered report",
  "Running the same suggestion command again on an unchanged database produces a byte-identical report, whatever order the database returns unordered catalogue rows in. "
  "Suggestions are listed by table name, then by number of columns, then by column names, without repetition.",
  ["schedules", "histories", "inputs"],
  "all repetitions, all map iteration orders and all row orders of unordered catalogue queries",
  "A unit test runs once; iteration order differs from run to run.",
  ["database/dservice/dparser/index_target_builder.go", "database/dservice/existing_index_remover.go", "database/dmodel/index_target.go", "lib/uniq.go", "lib/sort.go"],
  [("sorting of targets before they are returned", "database/dservice/dparser/index_target_builder.go")],
  "repeat-run monitor with permuted catalogue answers, byte comparison of reports",
  "3 (quick) or 6 (thorough) repetitions per case"),
P("P07", "Columns are traced through subqueries and lateral joins to their tables",
  "For PostgreSQL and Hasura, a column used through derived tables, lateral joins, subqueries in conditions, field subqueries or correlated references, at any nesting, is attributed to the base table column it stands for, following SQL's scoping rules. "
  "A name that is visible only inside a subquery is never matched from outside it, and a correlated name is matched to the nearest enclosing query that offers it.",
  ["inputs", "programs"],
  "all nestings of derived tables, lateral joins, EXISTS/IN/scalar subqueries with renamed, starred and computed outputs",
  "Tests fix a few nestings one level deep.",
  ["database/dservice/dparser/build_table_fields.go", "database/dservice/dparser/stmt_scope.go", "database/postgres/pservice/parser/collect_stmt_scopes.go", "database/postgres/pservice/ast/ast_walker.go"],
  [("scope tree and resolution of names through sub-scopes", "database/dservice/dparser/build_table_fields.go")],
  "differential monitor: report of the real command against a generator that knows where each column comes from",
  "three known findings (hidden-output, leaked-name, later-join), listed in known_findings.json"),
P("P08", "MySQL plans are reproduced faithfully",
  "For every plan MySQL prints, the report's tree has one node per plan line with the same nesting and sibling order, carrying the line's exact text, its operation, the table it names, and exactly the cost, row, time and loop figures printed on it. "
  "A figure the line does not print is absent, and text inside string literals is never taken for structure, tables or figures.",
  ["inputs"],
  "all plan trees (depth, fan-out, several roots), all figures and literals",
  "Tests parse about ten captured plans.",
  ["database/mysql/mmodel/explain_analyze_result_line.go", "database/mysql/mmodel/explain_analyze_tree_node.go", "database/mysql/mservice/explainer.go", "html/viewmodel/vm_mysql_explain_analyze_node.go"],
  [("line parser and indentation based tree builder", "database/mysql/mservice/explainer.go")],
  "round-trip monitor: generated plan trees rendered in the server's format against the report",
  "whole-number row counts, as the supported server version prints them"),
P("P09", "PostgreSQL and Hasura plans are reproduced faithfully",
  "For every plan PostgreSQL prints (directly or through Hasura), the report's tree has one node per plan node with the same nesting and sibling order, carrying that node's lines exactly, its operation, the table it names, and exactly the cost, row, width, time and loop figures printed for it. "
  "The trailing summary lines form the summary text, plans without summary lose nothing, and text inside string literals is never taken for structure, tables or figures.",
  ["inputs"],
  "all plan trees with subplans, init plans and CTEs, with and without execution figures and summary",
  "Tests parse about ten captured plans.",
  ["database/postgres/pservice/explain_analyze_tree_builder.go", "database/postgres/pmodel/explain_analyze_result_node.go", "database/postgres/pmodel/explain_analyze_tree_node.go", "html/viewmodel/vm_postgres_explain_analyze_node.go"],
  [("node splitting and indentation based tree builder", "database/postgres/pservice/explain_analyze_tree_builder.go")],
  "round-trip monitor: generated plan trees rendered in the server's format against the report",
  "whole-number row counts; literals without raw line breaks"),
P("P12", "A trace is shown as its true call tree between services",
  "For every trace found in Jaeger the report shows one tree per root span (a span without a parent, or whose parent was not recorded), with exactly the root, the spans that belong to another service than their caller, and the database calls that call nothing further (shown as \"system (service)\"), each under its nearest shown ancestor, calls of one parent in order of start time, and each with its own name, id, service and times in milliseconds. "
  "The order in which spans arrive, how they are grouped by resource or library, and the kind or absence of attribute values make no difference.",
  ["inputs"],
  "all traces (any nesting, orphans, clock skew, attributes of any kind), in any arrival order",
  "Tests use a handful of traces of up to six spans in one order.",
  ["otel/jaeger/v1_converter.go", "otel/omodel/trace_compacter.go", "otel/omodel/trace_tree.go", "otel/omodel/span.go", "infra/jaeger/client.go"],
  [("building trees from spans", "otel/jaeger/v1_converter.go"), ("compaction", "otel/omodel/trace_compacter.go")],
  "offline checker of the report against generated traces served by a gRPC stand-in of Jaeger",
  "traces are generated as trees, so the oracle does not rebuild them from spans"),
P("P13", "The slow list is exactly the 100 slowest traces, slowest first",
  "The slow traces of a report are the found trace trees with the longest root durations, at most 100 of them and all of them when fewer were found, in order of falling duration, none listed twice.",
  ["inputs"],
  "all sets of found traces, of any size and with any durations",
  "Tests pick from at most a few traces with fixed durations.",
  ["otel/jaeger/trace_picker.go", "lib/limited_heap.go", "cmd/app/dig/jaeger.go"],
  [("bounded heap of the slowest", "lib/limited_heap.go")],
  "offline checker: selection and order compared with a full sort of what the stand-in sent",
  "ties in duration may be resolved either way"),
P("P14", "Exactly the traces over the threshold are listed for repeated access",
  "A trace tree is listed among the same-service ones exactly when some service (a database counts as its own service per caller) appears in its shown tree more often than the given threshold, and the access count shown with any trace is that largest number.",
  ["inputs", "configurations"],
  "all traces and all thresholds",
  "Tests use one threshold and two traces.",
  ["otel/jaeger/trace_picker.go", "otel/omodel/same_resource_count_visitor.go", "otel/omodel/trace_tree.go"],
  [("counting accesses per service", "otel/omodel/same_resource_count_visitor.go")],
  "offline checker of the report against counts taken on the generated traces",
  "thresholds around the true counts"),
P("P15", "The service named as most time-consuming is the one",
  "The service a trace names as most time-consuming is one whose shown spans have the largest total of own time: the time a span lasts during which none of the calls shown directly below it is running. This holds for overlapping, nested, skewed and asynchronous calls that start or end outside their caller.",
  ["inputs"],
  "all traces, with any overlap of calls",
  "Tests use sequential calls inside their callers.",
  ["otel/omodel/span.go", "otel/omodel/compact_info_collect_visitor.go"],
  [("own time of a span", "otel/omodel/span.go")],
  "offline checker: own times recomputed over elementary intervals",
  "any of several equal services is accepted"),
P("P16", "The whole period is searched, and each found trace counted once",
  "Every search sent to Jaeger carries the given service, minimum duration and number of traces, each spans about half an hour, and together they leave no part of the period between start and end out; every trace tree found is considered exactly once however many searches return it. "
  "If any search fails, also half way through its answer, the command reports failure and neither writes nor replaces a report.",
  ["inputs", "fault_sequences", "configurations"],
  "all periods, sub-second starts and time zones, all settings, a failure of any search",
  "Tests do one search of one window without faults.",
  ["otel/jaeger/trace_fetcher.go", "infra/jaeger/client.go", "lib/time.go", "cmd/app/dig/jaeger.go"],
  [("cutting the period into searches", "lib/time.go")],
  "monitor of the searches received by a gRPC stand-in, with failures injected at any search",
  "search bounds have whole seconds, so the last sub-second of the period is not demanded"),
P("P17", "Every measured database load is shown in its hour, once",
  "The Performance Insights report has one entry per hour from the hour of the start to the end of the seven days, without gaps, whatever time zone the start is given in. "
  "Each non-zero load point handed out by Performance Insights is counted exactly once, in the list of its own kind (statements or tokenized statements), under its hour in UTC, its database and its statement text; the figures of a statement in an hour are the largest and the sum of its points, with a tokenized id of its own. Points without value, totals and other metrics add nothing.",
  ["inputs", "configurations"],
  "all load series of any number of databases and statements, any start",
  "Tests convert one series of three points in UTC.",
  ["infra/aws/pi_sql_load_avg.go", "infra/aws/performance_insights.go", "cmd/db/dig/performance_insights.go", "html/viewmodel/vm_time_db_load.go"],
  [("hourly aggregation", "infra/aws/pi_sql_load_avg.go")],
  "conservation monitor: load points handed out by a stand-in against the figures of the report",
  "sums compared with a relative tolerance of 1e-9"),
P("P18", "Performance Insights is asked for all MySQL databases and the whole week",
  "The command asks, for every MySQL instance RDS knows (over all pages of the answer) and no other, for the load of statements and of tokenized statements, in consecutive requests of at most half a day that cover exactly the seven days from the start (given, or seven days ago), and reads all pages of every answer. "
  "If any request fails or the given start is not in RFC 3339 form, the command reports failure and neither writes nor replaces a report.",
  ["inputs", "fault_sequences", "configurations"],
  "all sets of instances, page sizes, starts, and a failure of any request",
  "Tests use one instance, one page and no failure.",
  ["infra/aws/rds.go", "infra/aws/performance_insights.go", "cmd/db/dig/performance_insights.go"],
  [("list of instances", "infra/aws/rds.go"), ("half-day requests", "cmd/db/dig/performance_insights.go")],
  "monitor of the requests received by stand-ins, with failures injected at any request",
  "stand-ins at the SDK client interface"),
P("P19", "Only a single SELECT given by the user is ever analysed or run",
  "A text that is not exactly one reading statement (writing statements of any kind, data-changing WITH clauses, SELECT INTO, several statements in one text, no statement, for Hasura anything it does not explain as exactly one query) makes the command fail without being analysed or run, without schema change and without report. "
  "A single supported SELECT is analysed exactly as given, once, whatever comments, trailing semicolons, letter case or literals looking like other statements it holds, and no other statement than the examination's own reaches the database.",
  ["inputs", "programs"],
  "all statement texts for MySQL, PostgreSQL and Hasura, with and without examination",
  "EXPLAIN ANALYZE really executes what it is given; tests only pass plain SELECTs.",
  ["cmd/db/suggest/mysql.go", "cmd/db/suggest/postgres.go", "cmd/db/suggest/hasura/postgres.go", "database/mysql/mservice/parse.go", "database/postgres/pservice/parse.go", "database/mysql/mservice/explainer.go", "database/postgres/pservice/explainer.go"],
  [("parsing before the plan is asked for", "cmd/db/suggest")],
  "monitor of every statement reaching a simulated database under refused-by-construction and acceptable-by-construction texts",
  "texts are built from classes whose answer is known; the oracle never parses SQL"),
P("P20", "Odd statements and odd answers end in an error, never in a crash",
  "Whatever the text of the statement, the plan, the catalogue rows, the HTTP answers of Hasura, the traces of Jaeger or the load series of Performance Insights, a command ends by itself, either with a readable report or with an error that says something and no report, and without crash, endless loop or a temporary index left behind.",
  ["inputs", "fault_sequences"],
  "all statement texts and all answers of the outside systems, malformed, truncated, cyclic or empty",
  "Tests feed well-formed answers only.",
  ["database/postgres/pservice/parser/collect_stmt_scopes.go", "database/mysql/mservice/parser/collect_stmt_scopes.go", "database/dservice/dparser/build_table_fields.go", "database/postgres/pservice/explain_analyze_tree_builder.go", "database/mysql/mservice/explainer.go", "infra/hasura/client.go", "infra/hasura/column_info.go", "infra/hasura/index_info.go", "otel/jaeger/v1_converter.go", "infra/aws/pi_sql_load_avg.go"],
  [("conversion of outside answers", "infra"), ("statement scopes", "database")],
  "crash, hang and leak monitor around the real commands under mutated statements, plans, rows, HTTP answers, traces and load series",
  "mutation of well-formed inputs; a process death or 240 s without end is a violation"),
P("P10", "A report page carries exactly its data and nothing else",
  "Whatever text statements, GraphQL, variables, plans, span and service names, load statements and addresses hold (closing script tags, comments, template and control characters, line separators), the written page is a single well-formed page whose data block reads back as exactly those texts and numbers, with no script other than the intended ones and the front end of that kind of report. "
  "Writing a report replaces an older file completely, touches no other file, and a report that cannot be written makes the command fail.",
  ["inputs", "fault_sequences"],
  "all texts of users and outside systems in all five kinds of report, all states of the output place",
  "Tests never open the written page; only hostile texts and full or missing places show the difference.",
  ["html/html_builder.go", "html/build_option.go", "html/viewmodel", "cmd/db/suggest/mysql.go", "cmd/db/suggest/postgres.go", "cmd/db/suggest/hasura/postgres.go", "cmd/app/dig/jaeger.go", "cmd/db/dig/performance_insights.go"],
  [("page template and data block", "html/html_builder.go")],
  "offline checker reading the page by HTML script rules and comparing with what went in, with write faults injected",
  "script end rules of HTML and JSON decoding; no browser"),
P("P11", "The command a report proposes redoes the same analysis beside it",
  "The options a suggestion report offers for examination hold the query (and, for Hasura, the variables) exactly as given, and an output that never is the report itself: the same path with _examine before its extension, or the given path when the report already is an examined one. "
  "Running the command with these options and any of the listed indexes analyses the same query with the same variables, examines just those indexes, writes its own report and leaves the first one as it was.",
  ["inputs", "histories"],
  "all queries, variables, output paths (no extension, several dots, dots in directories, odd characters) and choices of suggestions",
  "Tests check the option list of a single file name and never run what is proposed.",
  ["html/viewmodel/vm_examination_command_option.go", "cmd/db/suggest/mysql.go", "cmd/db/suggest/postgres.go", "cmd/db/suggest/hasura/postgres.go", "html/build_option.go"],
  [("output option", "html/viewmodel/vm_examination_command_option.go")],
  "two-run monitor: the proposed options are read from the first report, run, and both logs and reports compared",
  "the options are used as data; their shell quoting is the client's"),
P("P21", "Hasura is asked exactly what was given, and failing answers are noticed",
  "Every request goes by POST to the right path below the configured address (whose query is kept) with the configured admin secret; explain and execution carry the GraphQL text and variables exactly as given, numbers included; catalogue requests are read-only and table names in the SQL Hasura reports can never change what a catalogue request says. "
  "Malformed variables are refused before anything is sent. An answer with a status other than 200, a GraphQL error in the body, an unreadable, cut off or missing body, or other than one plan makes the command fail, and neither writes nor replaces a report.",
  ["inputs", "fault_sequences", "configurations"],
  "all queries, variables, addresses, secrets and table names; a failing answer to any request",
  "Tests use mocks that accept any body and always succeed.",
  ["infra/hasura/client.go", "infra/hasura/config.go", "infra/hasura/column_info.go", "infra/hasura/index_info.go", "cmd/db/suggest/hasura/postgres.go", "database/hasura/hservice/index_examiner.go"],
  [("request building and answer checks", "infra/hasura/client.go")],
  "monitor of every HTTP request on a stand-in of Hasura with failing, cut and malformed answers injected at any request",
  "redirects are not modelled"),
P("P22", "The program does what its options and environment say, or fails cleanly",
  "Each command, started as a program, uses exactly the settings it is given: it connects to the given address as the given user with the given password and database (for AWS with the given key and region), with any characters in these values, honours additional connection parameters (never sending a login unencrypted where encryption is required), and applies every option in any of its spellings with the documented default where it is left out. "
  "On success it exits with status 0, the report is at the given path (relative or absolute) and the log names that very path. "
  "A missing required setting or option, an unknown option, a malformed value, a refused login, an unreachable server, a failing request or an unwritable path makes it exit with status 1 and a message, without a crash or a report written or replaced; when settings or options are missing nothing is connected to at all.",
  ["inputs", "configurations", "fault_sequences"],
  "all five commands; all users, passwords, database names, addresses, parameters, options and their order, output paths; each kind of failure",
  "The tests call inner functions with mocked connections; no test starts the program, reads its exit status or sees a login.",
  ["main.go", "cmd", "infra/mysql/config.go", "infra/postgres/config.go", "infra/hasura/config.go", "infra/jaeger", "infra/aws", "lib/env.go", "html/html_builder.go"],
  [("connection settings", "infra/postgres/config.go"), ("connection settings", "infra/mysql/config.go"), ("exit status", "cmd/root.go"), ("path in the log", "cmd/util/log.go")],
  "process-level monitor: the built binary against wire-level stand-ins of MySQL, PostgreSQL, Hasura, Jaeger and AWS that record every login and request, with one defect injected per run",
  "user and database names include those a connection text cannot hold; the stand-ins speak only the parts of the protocols the drivers use"),
P("P23", "Passwords and admin secrets never appear in output, logs or reports",
  "Whatever happens in a run, successful or failing, verbose or not, the database password, the Hasura admin secret, the AWS secret access key and a password inside the Hasura address do not appear, plain or encoded, in what the program prints, logs or writes to files.",
  ["inputs", "configurations", "fault_sequences"],
  "all secrets, commands, verbosity settings and failures",
  "No test looks at the log or the whole report, and most failures are not provoked at all.",
  ["infra/mysql/config.go", "infra/postgres/config.go", "infra/hasura/config.go", "infra/hasura/client.go", "lib/http_transport.go", "cmd/util/log.go", "infra/mysql/db.go", "infra/postgres/db.go"],
  [("request log", "lib/http_transport.go"), ("connection text", "infra/postgres/config.go")],
  "taint monitor: each run carries a unique marked secret which is searched for, in eight encodings, in stdout, the log and every file written; Hasura addresses nobody can use are among the inputs",
  "AWS session tokens in the SDK's own verbose request log are outside"),
P("P24", "The page of a suggestion report opens and shows what the report holds",
  "Every report a suggest command writes opens in its page, whatever the statement, plan, suggestions and examination. The page shows the statement (and GraphQL query and variables) as text; every line of the plan once, in the plan's order and indentation, followed by the summary; and a timeline with one bar per plan node in that same order, labelled with the node's title. "
  "A bar begins when the last of its children ends and ends at the node's own time but not before it begins: the average actual time for MySQL and PostgreSQL, where a MySQL node run in more than one loop takes its average times its loops after its children (0.0001 ms per loop when over 1000 loops average to zero), the estimated cost for Hasura. A node that was never executed takes no time. "
  "A bar's tooltip gives the beginning of its own node's text, its table and its own figures, zeros included, with texts shown as text and never read as HTML, and pointing at a bar marks the text of its node and no other. "
  "The suggestions are listed in the report's order as table and columns; an examination is shown as the original time and one row per examined index by rising time, each with its own index, its own time and the reduction against the original.",
  ["inputs", "histories"],
  "all reports of the three suggest commands, with hostile texts, generated plans and examinations without any result; all bars",
  "The client's tests only check that sections exist for one fixed, empty data set; no test opens a report a command wrote.",
  ["client/src/App.svelte", "client/src/pages/suggest", "client/src/components", "client/src/models", "client/src/lib", "client/src/contexts", "database/dmodel/examination_result.go", "html/viewmodel"],
  [("order and times of the bars", "client/src/components/ExplainTree/ExplainTree.ts"), ("loops of MySQL", "client/src/models/explain_data/MysqlAnalyzeData.ts"), ("rows by time", "client/src/components/ExaminationResultTable.svelte"), ("lines of the plan", "client/src/components/ExplainText.svelte")],
  "the real front end is run on reports of the real commands; a monitor of the rendered tree, charts, tooltips and events compares them with the report's data",
  "third-party libraries (svelte, apexcharts, svelte-chota, class-transformer, sql-formatter) are stand-ins"),
P("P25", "Commands and statements on a page can be used as they stand",
  "The command a suggestion page proposes, pasted into a shell, calls gr with exactly the sub command of the page, examination on, one index option per ticked suggestion naming its table and columns, and the options of the report with their values unchanged, whatever characters these hold; ticking and unticking changes just that. "
  "The statement shown for an examined index makes an index on exactly that table and those columns in that order when given to the database, also for names that are reserved words, begin with digits or hold capital letters, and what \"Copy as Curl\" copies posts that statement to Hasura's run_sql with the admin secret of the environment. "
  "The command a load page proposes for a statement, pasted into a shell, calls gr db suggest mysql with the statement's database in DB_DATABASE and its text unchanged.",
  ["inputs", "histories"],
  "all statements, variables, output paths, table and column names; all choices of suggestions, bars and plain statements",
  "No test reads a command off the page, let alone runs it in a shell.",
  ["client/src/components/IndexSuggestion.svelte", "client/src/models/IndexTarget.ts", "client/src/models/PostgresIndexTarget.ts", "client/src/models/HasuraIndexTarget.ts", "client/src/models/ExaminationCommandOption.ts", "client/src/pages/suggest/hasura/ExaminationLineMenu.svelte", "client/src/pages/dig/performance_insights/util/CommandText.ts", "client/src/lib/Shell.ts"],
  [("quoting of options", "client/src/models/ExaminationCommandOption.ts"), ("the command", "client/src/components/IndexSuggestion.svelte"), ("quoting of names", "client/src/models/PostgresIndexTarget.ts"), ("command of the load page", "client/src/pages/dig/performance_insights/util/CommandText.ts")],
  "every command the page shows is run in a real shell whose gr and curl record how they were called; statements are read by an independent reader with the database's rules for names",
  "an index option naming a table or column with characters other than letters, digits and underscores is quoted right but refused by gr itself (P03)"),
P("P26", "Load pages show exactly the report's loads",
  "A load report's page offers exactly the report's databases, with the first by name chosen, on both tabs and for both charts. For the chosen databases the ranking shows the (at most 20) statements with the largest sum of loads over all hours, in falling order, each with that sum in percent; "
  "the timeline has one series per database and statement that reaches half a percent in some hour, with one point per hour of the report at that hour's own time: the largest load of that hour in percent, or zero where it stays under half a percent. "
  "A bar's tooltip names its database, load and (in the timeline) hour and shows its statement as text, never read as HTML. Clicking a tokenized statement lists the at most ten heaviest plain loads of that tokenized statement over all databases with database, load, hour and text, or says that there are none.",
  ["inputs", "histories"],
  "all load reports with hostile statements and names; all choices of databases, tabs and bars",
  "The client's tests only check that sections exist; the Go tests stop at the report's data.",
  ["client/src/pages/dig/performance_insights", "client/src/models/PerformanceInsightsData.ts", "client/src/models/TimeDbLoad.ts", "client/src/models/DbLoad.ts", "client/src/models/DbLoadOfSql.ts", "client/src/lib/GrChart.ts"],
  [("series of the timeline", "client/src/pages/dig/performance_insights/util/chart/LoadPropChartSereies.ts"), ("ranking", "client/src/pages/dig/performance_insights/DbLoadRankingChart.ts"), ("plain loads of a tokenized statement", "client/src/pages/dig/performance_insights/util/chart/TokenizedLoad.ts")],
  "the real front end is run on reports of the real command while a monitor acts on it and compares charts, tooltips and tables with the report's data (conservation, order, alignment)",
  "statements that are names of JavaScript's own object members are outside"),
P("P27", "The trace page shows exactly the report's traces",
  "A trace report's page opens and lists, under slow traces and under same service traces, each trace of the report once, by falling duration, with its own id, duration, access count and time consuming service, names the thresholds, links each to /trace/<id> below the address of the Jaeger UI, its path included, and says so when there is none. "
  "The diagram shown for a row is that trace's: it has every call between services in the order of the report, nested calls between the start and the return of their caller, each started service ended, and runs of calls to one service without calls of their own either shown one by one or shortened to a number that adds up to the run's length.",
  ["inputs", "histories"],
  "all trace reports, addresses of the UI, and rows whose diagram is shown, one after the other",
  "The client's test checks two section titles on empty lists; diagrams are never looked at.",
  ["client/src/Mermaid.svelte", "client/src/pages/dig/jaeger", "client/src/models/OtelTraceSpan.ts", "client/src/models/OtelCompactedTrace.ts", "client/src/models/JaegerData.ts", "client/src/models/trace_diagram"],
  [("runs of calls", "client/src/models/OtelTraceSpan.ts"), ("text of the diagram", "client/src/models/trace_diagram/TraceTree.ts"), ("rows and links", "client/src/pages/dig/jaeger/TracesTable.svelte")],
  "the real front end is run on reports of the real command; a checker follows each diagram's text along the report's call tree (conservation, nesting, balance)",
  "service names that are not plain words in mermaid's own grammar are outside, mermaid itself is a stand-in"),
]
