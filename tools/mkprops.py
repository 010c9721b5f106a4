#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the file stays well-formed)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=(), observe=()):
    assert len(title) <= 80, (id, len(title))
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why,
              "anchors": {"files": files,
                          "state": [dict(zip(("name", "meaning", "where"), s)) for s in state],
                          "mechanism": [dict(zip(("name", "where"), m)) for m in mech],
                          "observe_at": list(observe), "hook_needed": None}})

DBS = "the statements that reach the database / Hasura, the exit status, the report file"

prop("C01", "Temporary indexes never outlive an examination",
 "With --with-examine (MySQL, PostgreSQL, Hasura), for every index whose creation the server acknowledged, the command sends a drop of that same index (on MySQL, on that same table) before it ends, whatever fails after the creation: the measured query, the connection (as long as a new one can be made), or anything later; only killing the command prevents it. So whenever the server carries the drops out, no index the command made exists once the command has ended.",
 ["fault_sequences", "histories"], "every list of examined indexes, every backend, every position and kind of failure (SQL error, HTTP error, GraphQL error, lost connection) of every statement",
 "The examiner's tests use a mock that never fails, or fails at one place; nothing runs a command against a server that keeps state and fails at an arbitrary statement.",
 ["database/dservice/examiner.go", "database/mysql/mservice/index_examiner.go", "database/postgres/pservice/index_examiner.go", "database/hasura/hservice/index_examiner.go", "cmd/db/suggest/mysql.go", "cmd/db/suggest/postgres.go", "cmd/db/suggest/hasura/postgres.go"],
 [("deferred drop after a successful create", "IndexEfficiencyExaminer.examine"), ("DropIndex statements", "*/index_examiner.go")],
 [("temporary indexes", "indexes created and not yet dropped", "the database server")], [DBS])

prop("C02", "Each candidate is measured with exactly its own index in place",
 "In an examination the query is first run with no temporary index in place, and then once per examined index while precisely that one temporary index exists: it is created before the run and dropped after it, and two temporary indexes never coexist, and the command never drops an index it did not create.",
 ["fault_sequences", "histories", "inputs"], "every list of examined indexes (incl. several on one table, equal columns on different tables, long column names), every backend, every fault position",
 "Order and coexistence are facts about whole statement histories at the server; the unit tests assert the calls of one mocked run.",
 ["database/dservice/examiner.go", "database/mysql/mservice/index_examiner.go", "database/postgres/pservice/index_examiner.go", "database/hasura/hservice/index_examiner.go"],
 [("baseline execute, then create/execute/drop per target", "IndexEfficiencyExaminer.Run/examine"), ("name built from time and columns, shortened with a random suffix", "IndexEfficiencyExaminer.examine")],
 [], [DBS])

prop("C03", "The examination result is truthful, and absent when anything failed",
 "The report of a successful examination holds the time of the run without temporary indexes as the original time and, for each examined index in the order examined, one result with that index's table and columns and the time of the run made with that index in place. If creating, measuring or dropping any index failed, or the first run failed, the command ends with a non-zero status and writes no report.",
 ["fault_sequences", "histories", "inputs"], "every list of examined indexes, every backend, every distribution of statement durations, every fault position and kind",
 "Tests do not run the command with faults, and mocks answer instantly, so swapped, stale or wrongly attributed times are invisible.",
 ["database/dservice/examiner.go", "database/dmodel/examination_result.go", "database/dmodel/examination_index_result.go", "infra/hasura/client.go", "cmd/db/suggest/mysql.go", "cmd/db/suggest/postgres.go", "cmd/db/suggest/hasura/postgres.go"],
 [("time around each Execute", "*/index_examiner.go Execute"), ("error propagation incl. the deferred drop's", "IndexEfficiencyExaminer.examine")], [], [DBS])

prop("C04", "Nothing is modified unless an examination is asked for",
 "Without --with-examine a suggest command sends nothing but the EXPLAIN of the user's query and read-only catalog queries; with it the only additional statements are the user's query itself and the creation and removal of the temporary indexes. A text given by -q that is not one single SELECT is refused without any part of it being executed (EXPLAIN ANALYZE included).",
 ["inputs", "configurations", "fault_sequences"], "every query text (SELECT, DML, DDL, several statements), flag combination, backend, failure",
 "The tests only feed SELECT statements to components, never a data-changing text to a command.",
 ["cmd/db/suggest/mysql.go", "cmd/db/suggest/postgres.go", "cmd/db/suggest/hasura/postgres.go", "database/mysql/mservice/parse.go", "database/postgres/pservice/parse.go", "infra/mysql/db.go", "infra/postgres/db.go", "infra/hasura/client.go"],
 [("examination guarded by --with-examine", "cmd/db/suggest/*"), ("the query is parsed as a single SELECT", "mservice.Parse, pservice.Parse"), ("catalog SQL marked read_only for Hasura", "infra/hasura/client.go")], [], [DBS])

prop("C05", "Indexes given with -i are examined exactly, or refused before any change",
 "Each -i value of the form table:col1+col2+... whose names consist of word characters is examined as an index on exactly that table and exactly those columns in that order, in the order given; any other value makes the command fail before any index is created and any query is measured. With -i only the given indexes are examined, without it exactly the suggested ones (as long as their names consist of word characters).",
 ["inputs"], "every list of -i texts, including quotes, semicolons, newlines, empty parts, unicode, repeated separators; every backend",
 "The parser has a handful of table-driven cases, and none looks at the DDL that finally reaches the server.",
 ["database/dmodel/index_target.go", "database/dmodel/index_column.go", "database/mysql/mservice/index_examiner.go", "database/postgres/pservice/index_examiner.go", "database/hasura/hservice/index_examiner.go", "cmd/db/suggest/mysql.go"],
 [("syntax and word-only check of index texts", "dmodel.NewIndexTarget / NewIndexTargetsFromTexts"), ("quoted identifiers", "*/index_examiner.go"), ("choice of the targets", "cmd/db/suggest/* examine")], [], [DBS])

prop("C06", "The query analysed, measured and reported is the user's, unchanged",
 "The text that is explained and the text that is measured are byte for byte the -q text (for Hasura: the same GraphQL text with variables equal to the JSON of --json-variables, in every explain and every execution), and the report shows that same query and those same variables. The command line that the report offers for a re-run carries the same query and variables, and an output path which is the given one when an examination was made and otherwise differs from it by a suffix before the extension.",
 ["inputs", "configurations"], "every query text (quotes, comments, placeholders, unicode, newlines) and every JSON document of variables (nested values, large numbers, escapes); every backend",
 "Tests use short ASCII queries and no variables beyond one literal.",
 ["infra/mysql/db.go", "infra/postgres/db.go", "infra/hasura/client.go", "cmd/db/suggest/hasura/postgres.go", "html/build_option.go", "html/viewmodel/vm_examination_command_option.go"],
 [("query passed through", "Explain/Exec of infra/*"), ("JSON variables decoded once and forwarded", "postgresRunner.prepare")], [], [DBS])

prop("C07", "Columns are attributed to the right table, and only used columns count",
 "An index is suggested only on tables the query reads and only over columns the query itself mentions for that table, where mentions are resolved by SQL's scoping rules through aliases, joins, derived tables, functions in FROM, scalar and correlated subqueries and LATERAL (on MySQL the contents of a subquery inside an expression are not analysed). Every column mentioned in WHERE or ON can lead a suggested index of its table; columns mentioned only elsewhere are used only to complete an index after all of those.",
 ["programs", "inputs"], "every supported query over every table schema: alias, join kind, nesting, same column names in several tables, qualified and unqualified names",
 "The parsers' tests are ~50 fixed queries over two tables; nesting, shadowing and ambiguity combine without bound.",
 ["database/postgres/pservice/parser/collect_stmt_scopes.go", "database/mysql/mservice/parser/collect_stmt_scopes.go", "database/dservice/dparser/build_table_fields.go", "database/postgres/pservice/parser/collect_table_names.go", "database/mysql/mservice/parser/collect_table_names.go", "database/postgres/pservice/ast/ast_walker.go", "database/hasura/hservice/parser/index.go"],
 [("scope collection", "CollectStmtScopes"), ("field resolution", "dparser.BuildTableFields")], [], ["the report's suggested indexes"])

prop("C08", "The suggested candidates are exactly the useful orderings",
 "For each table whose query uses the set C of columns in conditions and the set R of columns otherwise, the candidates are all orderings of every non-empty subset of C, and, when R is non-empty, every ordering of the whole of C followed by all of R in name order; candidates made of primary key columns alone are left out, and nothing else is suggested. No candidate appears twice.",
 ["inputs", "programs"], "every C, R and primary key of every table of the query, every backend",
 "The tests check sets of up to three columns by hand-written lists.",
 ["database/dservice/dparser/index_target_builder.go", "database/dservice/dparser/index_target_table.go", "database/dservice/dparser/table_schema.go", "database/dmodel/index_target.go"],
 [("permutation builder", "dparser.IndexTargetBuilder"), ("primary key filter", "IndexTargetBuilder")], [], ["the report's suggested indexes"])

prop("C09", "Exactly the already existing indexes are withheld",
 "A candidate is withheld if and only if the same table already has an index with the same columns in the same order (names compared without regard to case); an index with other columns, another order, more or fewer columns, or on another table never suppresses a candidate. When no candidate is left for a query reading at least one table, the command still succeeds and reports none.",
 ["inputs", "histories"], "every set of existing indexes and every candidate set, every backend",
 "Tests cover a few fixed combinations and never the empty candidate list against a server.",
 ["database/dservice/existing_index_remover.go", "database/dmodel/index_target.go", "infra/mysql/index_info.go", "infra/postgres/index_info.go", "infra/hasura/index_info.go", "database/mysql/mservice/index_getter.go", "database/postgres/pservice/index_getter.go", "database/hasura/hservice/index_getter.go"],
 [("same-columns comparison", "IndexTarget.HasSameIdxColumns"), ("grouping of catalog rows into indexes", "toIndexInfo / parseIndexFetchResult")], [], ["the report's suggested indexes"])

prop("C10", "Suggestions are deterministic and canonically ordered",
 "The same query on the same catalog always yields the same report, no matter how often it is run, and the suggested indexes are listed by table name, then by number of columns, then by column names from left to right. Spelling a supported query differently without changing its meaning (order of conditions, aliases, case of keywords, redundant parentheses) does not change the suggestions.",
 ["histories", "programs"], "every supported query and catalog; repeated runs (map iteration order); meaning-preserving rewritings",
 "Map-iteration nondeterminism only shows up over repeated runs of ambiguous cases; tests compare unordered or single results.",
 ["database/dservice/dparser/index_target_builder.go", "database/dservice/dparser/build_table_fields.go", "lib/sort.go", "lib/set.go"],
 [("sorting of candidates", "IndexTargetBuilder / SortIndexTarget")], [], ["the report's suggested indexes"])

prop("C11", "The MySQL plan tree shows every plan line once, under its parent",
 "The analysis tree in the report contains every non-empty line of MySQL's EXPLAIN ANALYZE output exactly once, in order, and each line is a child of the nearest preceding line that is indented one level less (lines with no indentation are roots). Output whose indentation skips a level is refused rather than misplaced.",
 ["inputs"], "every sequence of plan lines and nesting depths",
 "Tests contain six fixed plans; the stack discipline matters for arbitrary up/down movements of the depth.",
 ["database/mysql/mservice/explainer.go", "database/mysql/mmodel/explain_analyze_result_line.go", "database/mysql/mmodel/explain_analyze_tree_node.go", "database/mysql/mmodel/explain_analyze_tree.go", "lib/stack.go"],
 [("node stack", "Explainer.buildExplainNode")], [], ["the report's analysis tree"])

prop("C12", "The PostgreSQL plan tree shows every plan line once, under its parent",
 "For PostgreSQL and Hasura the analysis tree in the report contains each plan node exactly once, in order, below the node that encloses it by indentation, together with all of its detail lines in order, whether or not summary lines follow the plan; the summary text holds the lines following the plan, unchanged and in order. No line of the EXPLAIN output is lost or shown twice.",
 ["inputs"], "every plan: depths, detail lines, InitPlan/SubPlan/CTE headings, summary or none",
 "Tests contain a few fixed plans, all but Hasura's with a summary.",
 ["database/postgres/pservice/explain_analyze_tree_builder.go", "database/postgres/pmodel/explain_analyze_result_node.go", "database/postgres/pmodel/explain_analyze_tree_node.go", "database/postgres/pmodel/explain_analyze_tree.go"],
 [("grouping of lines into nodes, parent search by indentation", "ExplainAnalyzeTreeBuilder")], [], ["the report's analysis tree and summary"])

prop("C13", "The figures of every plan node are the ones the database printed",
 "For every plan node the report's start-up and total cost, estimated rows (and width), actual times, actual rows and loop count equal the ones in that node's own line (row counts and loops as whole numbers, fractions rounded), and the table name, for tables whose names consist of word characters, is the one which that line names as read; a figure the database did not print is absent, never zero or taken from another node. This holds for integer, fractional and scientific notation and for never-executed nodes.",
 ["inputs"], "every node line with any subset of the cost and actual parts and any numbers the databases print",
 "Tests cover one number format per field.",
 ["database/mysql/mmodel/explain_analyze_result_line.go", "database/postgres/pmodel/explain_analyze_result_node.go", "html/viewmodel/vm_mysql_explain_analyze_node.go", "html/viewmodel/vm_postgres_explain_analyze_node.go"],
 [("line regular expressions", "Parse* of mmodel and pmodel")], [], ["the report's analysis tree"])

prop("C14", "The Jaeger search covers the whole requested period, without gaps",
 "The dig command searches the given service from the start time up to its end (24 hours later, but not past now) in consecutive windows that touch each other, each with the requested minimum duration and trace limit (numbers a request cannot hold are refused before any search), so every instant of the period (to the second) is searched by a window; only the last window may reach past the end. If any search fails, the command fails and writes no report.",
 ["configurations", "fault_sequences"], "every start time (fractional, any zone), threshold, limit and service; a failure at any search",
 "Tests mock one or two windows.",
 ["otel/jaeger/trace_fetcher.go", "infra/jaeger/client.go", "cmd/app/dig/jaeger.go", "lib/time.go"],
 [("window generation", "lib.GenerateTimeRanges, TraceFetcher"), ("query parameters", "infra/jaeger/client.go")], [], ["gRPC requests, exit status, report"])

prop("C15", "Every span of a trace is shown once, under its own parent",
 "The spans of a trace, delivered by Jaeger as one message, are assembled into the tree given by their parent ids, independently of the order and of the grouping by resource and scope in which they arrive; a trace's spans never mix with another trace's, children are ordered by start time, and each span keeps its name, id, service and times. A span whose parent was not delivered is the root of a trace of its own. No trace is lost, and none is shown twice in a list, even when several search windows deliver it.",
 ["inputs", "schedules"], "every set of traces, every arrival order, every split into chunks and resource groups, equal span ids in different traces",
 "Tests use one trace of at most six spans in two orders.",
 ["otel/jaeger/v1_converter.go", "otel/omodel/span.go", "otel/omodel/trace_tree.go", "otel/jaeger/trace_fetcher.go"],
 [("two-pass tree construction by span id", "v1Converter"), ("SortChildren", "omodel.Span")], [], ["the report's traces"])

prop("C16", "Compaction keeps exactly service entries and database calls",
 "A reported trace keeps its root, every span whose service differs from its parent's, and every childless span that calls a database (shown as 'system (service)'), and nothing else; each kept span hangs below its nearest kept ancestor, in the order of the whole tree (depth first, siblings by start time), and its other data are unchanged.",
 ["inputs"], "every span tree and labelling with services and database attributes",
 "Tests have seven fixed trees.",
 ["otel/omodel/trace_compacter.go", "otel/omodel/trace_tree.go", "otel/omodel/span.go"],
 [("visitor with a stack of kept parents", "traceCompacter")], [], ["the report's traces"])

prop("C17", "The slow and the repetitive traces reported are the right ones",
 "The slow list holds the 100 longest traces found (all, if there are fewer), longest first; the repetitive list holds, each once, exactly the traces found whose compacted trace shows one service in more spans than the threshold, and the count shown for a trace is the greatest number of spans of one service in it. A trace missing from the slow list never ranks strictly above one in the list.",
 ["inputs"], "every number of traces, durations and counts incl. ties and counts at the threshold, threshold and any arrival order",
 "Tests use a limit of one or two and a few traces.",
 ["otel/jaeger/trace_picker.go", "lib/heap.go", "cmd/app/dig/jaeger.go", "otel/omodel/same_resource_count_visitor.go"],
 [("bounded heap", "lib.LimitedHeap"), ("threshold filter", "PickSameServiceAccessTraces")], [], ["the report's trace lists"])

prop("C18", "The service blamed for a trace really consumed the most time",
 "The time-consuming service of a trace is one whose spans' own time is greatest in the shown trace, a span's own time being the part of its duration in which none of its shown children runs; overlapping children count once, and children that begin before or end after their parent take away only what they share with it. It is empty only if no service consumed any time.",
 ["inputs"], "every span tree and every placement of child intervals (overlapping, nested, asynchronous, outliving the parent)",
 "Tests only have children inside their parents.",
 ["otel/omodel/span.go", "otel/omodel/compact_info_collect_visitor.go"],
 [("interval sweep", "Span.CalcConsumedTime"), ("per-service sum and maximum", "traceInfoCollectVisitor")], [], ["timeConsumingServiceName in the report"])

prop("C19", "Performance Insights is read completely: all databases, all seven days",
 "For each MySQL instance of RDS, on whatever page of the answer it is listed, the dig command requests the load grouped by SQL and by tokenized SQL for windows that touch each other and together cover exactly the seven days from the start time, and reads every page of the answers. If any request fails (repeating it included), the command fails and writes no report.",
 ["configurations", "fault_sequences", "inputs"], "every set of instances (several result pages included), start time in any zone, failure at any request",
 "Tests exercise a single request each.",
 ["cmd/db/dig/performance_insights.go", "infra/aws/performance_insights.go", "infra/aws/rds.go"],
 [("half-day loop", "performanceInsightsRunner"), ("DescribeDBInstances", "Rds.GetDBs")], [], ["HTTP requests, exit status, report"])

prop("C20", "Hourly database load adds up to what was measured",
 "In the report every hour (UTC) of the seven days appears exactly once and in order, from the one the start lies in, and for each hour, instance and SQL text the sum and the maximum equal those of exactly the data points of that hour delivered for it; instances and statements never mix, and no non-zero data point of the period is dropped or counted twice, whatever the time zone of the start time.",
 ["inputs", "configurations"], "every set of data points (times, instances, statements, zero and missing values), every start time and zone",
 "Tests put all points into one hour of one database in UTC.",
 ["infra/aws/pi_sql_load_avg.go", "infra/aws/performance_insights.go", "lib/time.go", "html/viewmodel/vm_time_db_load.go"],
 [("hour normalisation and maps keyed by hour, database and SQL", "ConvertPiSQLLoadAvgsToVms")], [], ["the report's load lists"])

prop("C21", "Any text is shown safely and unchanged in the report",
 "Whatever strings (valid Unicode) come from the query, the plan, the catalog, the traces or the metrics (including </script>, quotes, HTML comments, U+2028, control characters), the report is one well-formed page whose only scripts are the data assignment and the bundled client, and evaluating the data assignment gives back exactly those strings.",
 ["inputs"], "every string reaching the report, every command",
 "No test renders hostile strings.",
 ["html/html_builder.go", "html/build_option.go"],
 [("contextual escaping of html/template", "html.CreateHtml")], [], ["the report file"])

prop("C22", "A report exists only if everything behind it succeeded",
 "For every command, if any step fails (configuration, connection, any request or statement, unparsable answer), the command ends with a non-zero status, prints an error, and neither creates nor alters the output file; it never crashes with a panic. When it succeeds it ends with status zero, and the output file, if one was asked for, is complete.",
 ["fault_sequences", "configurations"], "every command, every external interaction of its run as the point of failure, several kinds of failure, output file existing before or not",
 "Commands as a whole are not tested at all; only components are.",
 ["cmd/db/suggest/mysql.go", "cmd/db/suggest/postgres.go", "cmd/db/suggest/hasura/postgres.go", "cmd/db/dig/performance_insights.go", "cmd/app/dig/jaeger.go", "cmd/root.go", "html/html_builder.go"],
 [("error returns up to Execute", "cmd/root.go"), ("report creation as the last step", "each command")], [], ["exit status, stderr, output file"])

prop("C23", "Connection settings reach the server exactly as configured",
 "User name, password, database name, host and port given in the environment (admin secret and URL path for Hasura) are presented to the server unchanged, whatever characters they contain that the protocol can carry (an HTTP header carries no control characters and no outer blanks, and HASURA_URL is a valid URL); a missing required setting makes the command fail before it connects. The catalog is always read from the configured database (MySQL) or schema (PostgreSQL: the configured search path, else public).",
 ["configurations"], "every value of every setting, including spaces, quotes, backslashes, @, :, /, ?, %; every subset of missing settings",
 "Tests build connection strings from plain words and do not parse them back.",
 ["infra/mysql/config.go", "infra/postgres/config.go", "infra/hasura/config.go", "infra/hasura/client.go", "lib/env.go"],
 [("DSN building", "Config.ToConnector, Config.GetKVConnectionString"), ("required env", "lib.GetEnv")], [], ["login packets and request headers at the server"])

prop("C24", "Only the configured schema's tables influence a suggestion",
 "Columns, primary keys and indexes are taken only from ordinary tables of the configured database or schema: tables of the same name elsewhere, (for PostgreSQL and Hasura) views, and system columns never influence the suggestions. A table the query names that does not exist there makes the command fail instead of being ignored.",
 ["configurations", "inputs"], "every catalog with same-named tables in other schemas, views, system columns, several indexes per column; every backend",
 "Mocks return prepared rows whatever the catalog query filters on.",
 ["infra/mysql/column_info.go", "infra/mysql/index_info.go", "infra/postgres/column_info.go", "infra/postgres/index_info.go", "infra/hasura/column_info.go", "infra/hasura/index_info.go", "database/dservice/dparser/table_schema.go"],
 [("filters of the catalog queries", "infra/*/column_info.go, index_info.go"), ("unknown table check", "CreateTableSchemas")], [], ["the report's suggested indexes"])

prop("C25", "SQL the analyser does not support is refused, not half analysed",
 "A query using constructs outside the analyser's support (set operations, common table expressions, NATURAL JOIN, the WINDOW clause, tables and columns of another schema or database, VALUES lists, USING and columns of a function in FROM on PostgreSQL, columns of derived tables and DEFAULT(column) on MySQL, unknown tables and columns, anything but SELECT) makes the command fail with an error and no report, rather than yield suggestions computed from a part of the query. The same query is refused wherever the construct occurs: any clause of the top level, join operand, or nested subquery (only on MySQL the columns inside an expression's subquery are not looked at).",
 ["programs"], "every query containing such a construct at any position, PostgreSQL and MySQL dialects",
 "A few error cases are tested at top level only.",
 ["database/postgres/pservice/parser/collect_stmt_scopes.go", "database/mysql/mservice/parser/collect_stmt_scopes.go", "database/postgres/pservice/parser/collect_table_names.go", "database/mysql/mservice/parser/errors.go", "database/dservice/dparser/build_table_fields.go"],
 [("unsupported errors", "CollectStmtScopes"), ("missing/ambiguous column errors", "BuildTableFields")], [], ["exit status and report"])

prop("C26", "Commands the report offers can be run as they are",
 "The gr command a suggestion report offers (and, for Performance Insights, the command for the chosen statement), taken apart by a POSIX shell, calls gr for the database of the report with exactly the options and values the report was made with, --with-examine, and one -i per ticked index holding table and columns as they are (\"...\" if none is ticked); for Performance Insights with DB_DATABASE and -q equal to database and text of the clicked statement. This holds for every text in queries and names: quotes, dollars, backslashes, backticks, line breaks.",
 ["inputs"], "every query text, option value, table and column name and every selection of indexes, on every kind of suggestion report and for every clicked statement of a Performance Insights report; interactive history expansion (!) excepted",
 "The repository has no test of the client at all; the offered command is built from texts nobody tries with quotes.",
 ["client/src/models/HasuraSuggestData.ts", "client/src/models/MysqlSuggestData.ts", "client/src/models/PostgresSuggestData.ts", "client/src/models/ExaminationCommandOption.ts", "client/src/models/BaseSuggestData.ts", "client/src/models/IndexTarget.ts", "client/src/lib/components/CommandCode.svelte", "client/src/components/IndexSuggestion.svelte", "client/src/pages/dig/performance_insights/util/CommandText.ts"],
 [("command building and quoting", "ExaminationCommandOption, IndexSuggestion, IndexTarget.toGrIndexOption"), ("command for a clicked statement", "CommandText")], [], ["the command shown on the page"])

prop("C27", "SQL the report offers creates exactly the suggested index",
 "The SQL offered for a suggested index, read by the rules of the report's database (quoting, case folding, reserved words), creates an index on exactly the suggested table and columns in the suggested order; for Hasura the offered curl command, taken apart by a shell and read as JSON, sends exactly such a statement as run_sql to the server of HASURA_URL with HASURA_ADMIN_SECRET.",
 ["inputs"], "every table and column name (mixed case, quotes, reserved words, blanks, non-ASCII) on MySQL, PostgreSQL and Hasura, one or several columns",
 "The client has no tests; Go tests end where the data is written into the page.",
 ["client/src/models/MysqlSuggestData.ts", "client/src/models/PostgresIndexTarget.ts", "client/src/models/PostgresSuggestData.ts", "client/src/models/HasuraIndexTarget.ts", "client/src/models/IndexTarget.ts", "client/src/components/IndexSuggestion.svelte"],
 [("statements of the index targets", "IndexTarget.toExecutableText, PostgresIndexTarget, HasuraIndexTarget")], [], ["the SQL or curl command shown on the page"])

prop("C28", "The timeline of a plan shows the times the plan says",
 "On the report of a plan there is one bar for each plan node, in the order of the text and under the node's own name; it ends at the node's own actual time (MySQL: average times loops after its children; Hasura: its estimated cost), begins when its latest child ends and never ends before it; the text is that of the plan with its summary, pointing at a bar marks that bar's line alone, and the figures shown for it are those of the node.",
 ["inputs"], "every tree of plan nodes with and without figures (zero and missing ones included), loops, and tables, for the three kinds of suggestion report",
 "The client has no tests.",
 ["client/src/components/ExplainTree/ExplainTree.ts", "client/src/components/ExplainTree/ExplainTreeChart.ts", "client/src/components/ExplainText.svelte", "client/src/models/explain_data/MysqlAnalyzeData.ts", "client/src/models/explain_data/PostgresAnalyzeData.ts", "client/src/models/explain_data/PostgresExplainData.ts"],
 [("bars from a plan tree", "ExplainTree, ExplainTreeChart"), ("end times", "calculateEndTime of the three data classes")], [], ["bars, tool tips and text on the page"])

prop("C29", "Lists and diagrams of traces show the traces as they are",
 "Each list of traces shows every trace once with its duration, call count, blamed service and a link to exactly that trace under the Jaeger UI's address (path and all), longest first; the sequence diagram of a chosen trace shows every call of its tree between the right services, in order and properly nested, more than four equal leaf calls in a row as three and one arrow saying how many more there are.",
 ["inputs"], "every compacted trace tree (repetitions of every length, nested or not), every list of traces with equal durations, every Jaeger UI address",
 "The client has no tests.",
 ["client/src/models/trace_diagram/TraceTree.ts", "client/src/models/trace_diagram/TraceNode.ts", "client/src/models/trace_diagram/TraceRepeatNode.ts", "client/src/models/OtelCompactedTrace.ts", "client/src/models/JaegerData.ts", "client/src/pages/dig/jaeger/DigJaegerPage.svelte", "client/src/pages/dig/jaeger/TracesTable.svelte", "client/src/pages/dig/jaeger/TraceDiagram.svelte"],
 [("diagram text", "TraceTree.toMermaidDiagram, TraceNode, TraceRepeatNode"), ("list rows and links", "TracesTable")], [], ["the table rows, links and diagram source on the page"])

prop("C30", "Charts of database load show the heaviest statements with their true load",
 "For the ticked databases, the ranking shows the twenty statements with the greatest load summed over all hours, greatest first, with that load; the timeline has exactly the statements that reach 0.5% in some hour, each with its maximum at its own hour; the list of plain statements behind a clicked tokenized one holds its ten heaviest in order with database, load and hour. Databases and statements are never mixed, and a statement without plain texts breaks nothing.",
 ["inputs"], "every set of loads over hours, databases and statements (equal texts in several databases, loads below and at the limits, more than twenty or ten), every choice of databases, every clicked bar",
 "The client has no tests.",
 ["client/src/models/DbLoad.ts", "client/src/models/DbLoadOfSql.ts", "client/src/models/TimeDbLoad.ts", "client/src/models/PerformanceInsightsData.ts", "client/src/pages/dig/performance_insights/DigPerformanceInsightsPage.svelte", "client/src/pages/dig/performance_insights/HeaviestSqlRanking.svelte", "client/src/pages/dig/performance_insights/HeaviestTokenizedSqlRanking.svelte", "client/src/pages/dig/performance_insights/HeavySqlTimeline.svelte", "client/src/pages/dig/performance_insights/HeavyTokenizedSqlTimeline.svelte", "client/src/pages/dig/performance_insights/DbLoadChart.ts", "client/src/pages/dig/performance_insights/DbLoadRankingChart.ts", "client/src/pages/dig/performance_insights/DbTokenizedLoadChart.ts", "client/src/pages/dig/performance_insights/DbTokenizedLoadRankingChart.ts"],
 [("summing and ranking", "Performance Insights components"), ("0.5% limit", "the timeline chart"), ("plain statements", "list beside the chart")], [], ["series and rows on the page"])

prop("C31", "The table of an examination shows every measured index truly",
 "The page of an examined report shows the original time and every examined index once, with its table, columns and measured time, fastest first, and the reduction of each against the original correctly rounded to hundredths of a percent (negative if it became slower).",
 ["inputs"], "every original time and every list of results (equal times, zero, slower than the original), reduction with an original time of 0 excepted",
 "The client has no tests.",
 ["client/src/components/ExaminationResultTable.svelte", "client/src/models/ExaminationResult.ts", "client/src/models/ExaminationIndexResult.ts"],
 [("reduction and sorting", "ExaminationIndexResult.toReductionPercent, ExaminationResultTable")], [], ["the table on the page"])

prop("C32", "Every report gr writes opens and has the sections of its data",
 "Every report a command of gr writes, opened in a browser, shows its page without an error, with exactly the sections that belong to its data (query, variables, plan, suggestions, examination, each only if the data has it), and these show the query and suggested indexes the run was about. In particular no failure of an index or lack of indexes makes the report unusable.",
 ["inputs", "fault_sequences"], "every run of every command that succeeds: with and without plan, suggestions and examination, failing examined indexes, empty results of Jaeger and Performance Insights",
 "No test joins the Go side, which writes the data, with the client, which reads it.",
 ["html/viewmodel", "client/src/main.ts", "client/src/App.svelte", "client/src/models/SuggestData.ts", "client/src/models/DigData.ts", "client/src/models/BaseSuggestData.ts", "client/src/pages/dig/performance_insights/DigPerformanceInsightsPage.svelte", "client/src/pages/dig/jaeger/DigJaegerPage.svelte", "client/src/pages/suggest/mysql/SuggestMysqlPage.svelte", "client/src/pages/suggest/postgres/SuggestPostgresPage.svelte", "client/src/pages/suggest/hasura/SuggestHasuraPage.svelte"],
 [("the data's members, written by Go and read by the client", "html/viewmodel, client/src/models"), ("choice of the page", "client/src/App.svelte")], [], ["the page of a report written by the real command"])

prop("C33", "Names and statements are never taken for markup on the page",
 "Wherever the pages put texts of the input into markup (tool tips of charts) or show them in place, the text appears literally: the same page over plain words and over any other texts has the same elements, and differs only in those texts, whatever characters (<, >, &, quotes) they contain.",
 ["inputs"], "every text of a statement, table, column, database name, plan text, at every place of the pages",
 "The client has no tests.",
 ["client/src/components/ExplainTree/ExplainTreeChart.ts", "client/src/components/ExplainText.svelte", "client/src/components/PlainText.svelte", "client/src/lib/GrChart.ts", "client/src/pages/dig/performance_insights/util/LoadTooltip.ts"],
 [("tool tips as HTML strings", "ExplainTreeChart and the charts of PerformanceInsights")], [], ["tool tips and texts of the page"])

prop("C34", "What gr tells on the terminal is what happened",
 "The lines a command of gr logs tell what it did. The steps it announces (reading from Hasura, Jaeger or AWS with the searched period or half day, creating an index under its name, running the examined query, dropping the index) are the steps it really takes, each once and in order, and 'Start examination' comes once before the first of them. 'Result html is at: P' is told exactly when a report was written, and P is the absolute path of that report, also if --output names it by an absolute path or through '..'. With -v the listed candidates, the result of the examination (original time, per table the indexes fastest first with the measured time and the reduction against the original) and the listed slow traces are those of the report or of the measurements; without -v no line of the level debug is shown.",
 ["inputs", "fault_sequences"], "every command, with and without -v and --with-examine, every kind of failure at every step, every way of naming the output",
 "No test looks at the log at all; the announced and the taken steps differ only in runs with failures, several tables or several windows.",
 ["lib/http_transport.go", "cmd/util/log.go", "database/dservice/examiner.go", "database/dmodel/index_target.go", "database/dmodel/examination_result.go", "cmd/db/suggest/mysql.go", "cmd/db/suggest/postgres.go", "cmd/db/suggest/hasura/postgres.go", "cmd/db/dig/performance_insights.go", "cmd/app/dig/jaeger.go", "infra/hasura/client.go"],
 [("announcing the steps of an examination", "dservice.IndexEfficiencyExaminer"), ("listing candidates and results with -v", "cmd/db/suggest, log"), ("place of the report", "cmd/util.LogResultOutputPath")], [], ["standard error of gr, beside the requests the servers received and the report"])

prop("C35", "Secrets appear nowhere but where they belong",
 "The password of the database (DB_PASSWORD) and the admin secret of Hasura (HASURA_ADMIN_SECRET), and a password in a valid HASURA_URL, are used only to log in at the configured server. They appear in no line on the terminal (not with -v and not in an error message, whatever fails), not in the report or another file, not in a statement or request other than the login or the header, and are not sent to a host other than that of HASURA_URL, also if Hasura redirects. Two runs that differ only in a secret both servers accept tell and write the same.",
 ["inputs", "fault_sequences"], "every command with a secret, every writing of the secret (special characters, blanks, quotes, other alphabets), every kind of failure at every step, redirects, -v",
 "Tests use one fixed password and no failures; an error message of a driver or a redirect that carries the secret shows only in a run failing in that way.",
 ["infra/mysql/db.go", "infra/postgres/db.go", "infra/hasura/client.go", "infra/hasura/config.go", "infra/mysql/config.go", "infra/postgres/config.go", "lib/http_transport.go", "cmd/util/log.go", "html/html_builder.go"],
 [("login of the databases", "infra/mysql, infra/postgres"), ("the header of the admin secret", "infra/hasura.Client"), ("logging of requests with -v", "lib.HttpTransport")], [], ["terminal, report and every request that reached a server"])

prop("C36", "Performance Insights of the configured AWS account and region is read",
 "Without --use-mock, db dig performance-insights sends every request, over TLS, to the RDS and Performance Insights endpoints of the configured region (AWS_REGION, AWS_DEFAULT_REGION, then the profile's), signed for that service and region with the configured access key (environment, then the files' profile chosen by AWS_PROFILE) and its session token if there is one; nobody else is contacted, in particular not the mock. With --use-mock everything goes to http://localhost:8080 and nowhere else, and no region or credentials are needed. Without a region or credentials the command fails, with no request and no report. The report depends on the data only: it is the same from the mock and from AWS, with or without -v. The secret access key is never shown or written.",
 ["configurations", "inputs", "fault_sequences"], "every combination of settings in the environment and in the files of profiles, with and without --use-mock and -v, any request failing",
 "Tests replace the AWS clients; no test makes the real configuration or sends a request.",
 ["infra/aws/aws.go", "infra/aws/rds.go", "infra/aws/performance_insights.go", "cmd/db/dig/performance_insights.go", "cmd/root.go"],
 [("choice between the mock and AWS", "aws.NewAwsConfig"), ("log mode with -v", "aws.verboseMode")], [], ["requests at a proxy standing for AWS, the report, the terminal"])

with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P))
