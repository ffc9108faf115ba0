"""Single source of properties.jsonl and MANIFEST.json (python3 tools/gen.py)."""

P = []


def prop(id, title, statement, over, text, why, files, mechanism, observe, technique, note, level="model_checking"):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files,
                  mechanism=mechanism, observe=observe, technique=technique, note=note, level=level))


AGG = "syncanysql/calculaters/aggregate_calculater.py"
QT = "syncanysql/taskers/query.py"
CO = "syncanysql/compiler.py"

prop("C01", "Aggregates do not depend on batching or on how partial results merge",
     "For every table, GROUP BY and aggregate expression, the grouped result read from the source in batches of any size and merged "
     "group by group equals the aggregate of the whole group: COUNT, SUM, AVG, MIN, MAX, GROUP_CONCAT, GROUP_ARRAY, GROUP_UNIQ_ARRAY, "
     "GROUP_BIT_AND/OR/XOR, JSON_ARRAYAGG and JSON_OBJECTAGG skip NULLs as documented and lose, duplicate or reorder nothing. "
     "It also holds for aggregates inside expressions and for several aggregates in one SELECT.",
     ["inputs", "histories"], "every table up to the row bound over the value alphabet, every batch size from 1 to more than the row count "
     "and without batching, every aggregate and combinations of aggregates",
     "Tests aggregate one fixed file without batching; partial-merge code only runs when a source is read in batches and groups straddle batches.",
     [AGG, QT], [{"name": "aggregate / reduce / final value of each aggregate", "where": AGG},
                 {"name": "batch reduce of an aggregate query", "where": QT + " (run_batch, compile_reduce_config)"}],
     ["rows of SELECT ... GROUP BY ... with and without @batch"],
     "exhaustive bounded enumeration of tables x batch splits x aggregates on the real engine",
     "Complete within the row/value bound; trusts the reference aggregate functions in mc/checks/c01.py.")

prop("C02", "DISTINCT returns every distinct row exactly once, in any batching",
     "SELECT DISTINCT returns exactly the set of distinct result rows, each once and in first-occurrence order, whatever the batch size; "
     "COUNT(DISTINCT ...) equals the number of distinct non-NULL values of the group whatever the batch size.",
     ["inputs", "histories"], "every table up to the row bound, every batch size, several select lists",
     "Tests use one fixed table and no batches; deduplication across batches depends on state carried between batches.",
     [AGG, QT, CO], [{"name": "distinct keys, distinct aggregate state", "where": AGG},
                     {"name": "distinct compile", "where": CO + " (compile_select distinct handling)"}],
     ["rows of SELECT DISTINCT, COUNT(DISTINCT)"],
     "exhaustive bounded enumeration of tables x batch splits on the real engine",
     "Complete within the row/value bound. SUM(DISTINCT) is refused by the engine and not claimed; NULLs inside multi-column COUNT(DISTINCT) are not claimed.")

prop("C03", "WHERE keeps exactly the rows that satisfy the predicate",
     "For every boolean combination (AND, OR, NOT, parentheses with SQL precedence) of comparisons, IN, BETWEEN, LIKE, IS NULL, "
     "function and CASE predicates over non-NULL values, the rows returned are exactly the rows for which the predicate is true, in source order. "
     "It does not matter which part of the predicate is evaluated by the data source and which by the engine, nor how often a column occurs in it.",
     ["programs", "inputs"], "every predicate tree up to the stated number of atoms, on a table holding every combination of column values",
     "Tests contain a few fixed predicates; which conditions are pushed to the loader, merged or evaluated later depends on the shape of the whole tree.",
     [CO, QT, "syncanysql/calculaters/mysql_funcs/logical_funcs.py"],
     [{"name": "split of WHERE into source conditions and calculated conditions", "where": CO + " (compile_where_condition, parse_condition)"},
      {"name": "comparison functions", "where": "syncanysql/calculaters/mysql_funcs/logical_funcs.py"}],
     ["row set of SELECT ... WHERE"],
     "exhaustive enumeration of predicate trees x full row-state table on the real engine",
     "Complete for the atom grammar and tree bound; NULL operands only where the statement says (=, IN, IS NULL, IFNULL, COALESCE).")

prop("C04", "Joins return the relational join",
     "LEFT JOIN, INNER JOIN, RIGHT JOIN (as first join), comma joins and chains of them over aliased tables return exactly the multiset of the "
     "relational join: every matching combination once, unmatched preserved rows once with NULLs, ON conditions deciding matches only and WHERE "
     "filtering the joined rows. This holds for any ON conjunction that has an equality on a plain column of the joined table, with any further "
     "conditions on either side, any row multiplicities along a chain, tables joined independently of each other, and tables joined to themselves.",
     ["inputs", "programs"], "every joined-table content up to the row bound x join kinds x ON/WHERE condition combinations; chains of three tables",
     "Tests run a dozen fixed joins over fixed files whose rows nearly all match; which condition becomes key, loader condition or post-filter depends on the whole ON/WHERE.",
     [CO], [{"name": "ON classification", "where": CO + " (parse_on_condition, compile_join_column)"},
            {"name": "join rewriting", "where": CO + " (optimize_rewrite_*)"}],
     ["rows of SELECT over joins"],
     "exhaustive enumeration of join queries x table contents on the real engine against a nested-loop join",
     "Complete within the bound. JOIN alone is this engine's LEFT JOIN; join keys are non-NULL; LEFT JOIN without key equality is outside (DESIGN.md).")

prop("C05", "Subqueries, derived tables and CTEs mean what they say, row by row",
     "A query with subqueries returns exactly what evaluating each subquery where it stands would give: IN / NOT IN, comparison with a scalar "
     "subquery, EXISTS / NOT EXISTS, scalar subqueries in the select list and inside expressions, derived tables in FROM and in joins (nested, "
     "grouped, DISTINCT, ordered and limited, UNION ALL), subqueries in HAVING and in correlated form (re-evaluated for each outer row, which may be a row of a join), and common "
     "table expressions. This holds for all table contents including empty and duplicate rows, in any combination with AND / OR / NOT, and again when "
     "the statement is executed a second time in the same session.",
     ["programs", "inputs"], "every content of the inner table up to the row bound x every subquery form x position x boolean combination",
     "Tests contain a few fixed subqueries; which of them are run once, per key or per row, and when their results are released, is decided by the shape of the statement.",
     [CO, QT, "syncanysql/calculaters/query_tasker_calculater.py"],
     [{"name": "subquery compilation", "where": CO + " (parse_subquery, compile_subquery, compile_query_condition, compile_with)"},
      {"name": "per-row execution of correlated subqueries", "where": "syncanysql/calculaters/query_tasker_calculater.py"}],
     ["rows of SELECT"],
     "exhaustive enumeration of subquery programs x table contents on the real engine against direct evaluation",
     "Complete within the bound. Correlated aggregates over an inequality, correlated LIMIT (known findings) and correlated COUNT over nothing (NULL, pinned by a test) are not claimed.")

prop("C06", "ORDER BY, LIMIT and OFFSET return the sorted slice of the full result",
     "A SELECT with ORDER BY returns the same rows as without it, sorted by its keys in order (each ascending or descending, NULLs lowest), "
     "and LIMIT n OFFSET m returns exactly rows m+1..m+n of that order. This holds when a key is a selected column, a result alias, the expression or "
     "aggregate of a selected column, or an unselected column of the one source table, and whatever else the query has: WHERE, DISTINCT, GROUP BY, HAVING, aggregates, "
     "window functions, joins, derived tables, and both with and without an ORDER BY in front of the LIMIT.",
     ["programs", "inputs"], "every table content up to the row bound x query forms x key lists x every LIMIT/OFFSET up to more than the rows",
     "Tests order a few fixed results by one key; where the sort and the cut happen (source, engine, pipeline, second pass) depends on the other clauses.",
     [CO, QT], [{"name": "ORDER BY compilation", "where": CO + " (compile_order, compile_order_column)"},
                {"name": "LIMIT/OFFSET placement", "where": CO + " (compile_select: @limit or array::slice)"}],
     ["row sequence of SELECT ... ORDER BY ... LIMIT"],
     "exhaustive enumeration of queries x table contents x LIMIT/OFFSET on the real engine against sort-and-slice",
     "Complete within the bound. LIMIT 0 means no limit here and is not claimed; with @batch each batch is sorted separately and is not claimed.")

prop("C07", "Window functions see exactly their partition, in their order",
     "Each window function returns, for every source row and in source row order, the value its definition gives over exactly the rows of the same partition "
     "sorted by all keys of the window's ORDER BY in their directions: ROW_NUMBER, LAG, LEAD, FIRST/LAST/NTH_VALUE, evenly filled NTILE, and aggregates "
     "(whole partition, or row by row with ORDER BY). This holds for any number of different windows in one SELECT, named windows, window functions inside "
     "expressions with other columns, next to WHERE, joins, derived tables, DISTINCT, HAVING, ORDER BY and LIMIT, and whatever the batch size.",
     ["programs", "inputs", "histories"], "every table content up to the row bound x every window x every function; every ordered pair of windows; every batch size",
     "Tests run fixed queries over one file; partitions, order keys and values of all windows of a query share one state whose layout depends on the combination.",
     [CO, "syncanysql/calculaters/window_calculater.py", QT],
     [{"name": "window compilation", "where": CO + " (compile_window_column, compile_window_order, compile_window_key)"},
      {"name": "window functions", "where": "syncanysql/calculaters/window_calculater.py"}],
     ["rows of SELECT ... OVER (...)"],
     "exhaustive enumeration of windows x functions x table contents on the real engine against the definitions",
     "Complete within the bound. RANK/DENSE_RANK with ties, PERCENT_RANK, CUME_DIST and uneven NTILE are known findings (values pinned by the tests).")

prop("C08", "INSERT and DELETE leave exactly the rows their mode says, nothing else",
     "Over any history of INSERT (VALUES or SELECT, with and without a column list), its merge modes I, U, UI, UDI and DI given as table<MODE> or by @use_output_type, "
     "and DELETE: the target holds afterwards exactly the rows the statement's documented meaning gives, with the values as written (type included) under the "
     "columns listed, by position; no other table changes, also not through rows copied from it before. A statement that is refused (DELETE with a condition "
     "the source cannot evaluate, value or column counts that do not match, computed VALUES) changes nothing.",
     ["histories"], "every sequence of statements up to the depth bound, both tables compared after every statement",
     "Tests run single INSERTs from fixed files into printed output; what a merge mode touches depends on what earlier statements left in the target.",
     [CO, "syncanysql/taskers/delete.py", QT],
     [{"name": "INSERT compilation: modes, column list, VALUES", "where": CO + " (compile_insert_into, rewrite_insert_columns)"},
      {"name": "DELETE compilation and run", "where": CO + " (compile_delete), syncanysql/taskers/delete.py"}],
     ["rows of every table after each statement"],
     "exhaustive enumeration of statement sequences on the real engine against a reference store",
     "Complete within the bound. UDI/DI with a WHERE the source cannot evaluate treats the whole target as matched and is not claimed; merge modes need unique keys.")

prop("C09", "A script is split into exactly its statements, whatever its quotes and comments",
     "A script (string, .sql file) is split into exactly the statements separated by the ; outside quotes, backticks and comments, in order, each with its "
     "complete text and the line it starts on; no comment, quote, escape or backtick hides, merges, splits or drops a statement, and a script with an unclosed "
     "quote or block comment is refused as a whole. The interactive prompt asks for more lines exactly while no such ; has been typed.",
     ["inputs"], "every token sequence up to the bound; every combination of comment/quote fragments around the statements of a script",
     "Tests split a handful of scripts; the scanner's outcome depends on every preceding character.",
     ["syncanysql/parser.py", "syncanysql/prompt.py", "syncanysql/executor.py"],
     [{"name": "statement scanner", "where": "syncanysql/parser.py (SqlParser.split, skip_escape, skip_comment, read_util)"},
      {"name": "prompt completeness", "where": "syncanysql/prompt.py (check_complete)"}],
     ["statement texts and line numbers; rows inserted by the statements of a script; whether the prompt continues"],
     "exhaustive enumeration of token sequences through the real scanner against an independent state machine, plus execution of every fragment combination",
     "Complete within the bound.")

prop("C10", "Literals and quoted names mean exactly what is written, wherever they stand",
     "A string literal in single or double quotes denotes exactly its characters (after the escapes), a number, hex, bit, boolean or negated literal or variable "
     "its value and type, and a backtick-quoted name names exactly that column or alias. This holds in every place: VALUES, select list, WHERE evaluated by the "
     "source or the engine, IN, CASE, functions, aggregates, derived tables, joins, HAVING, GROUP BY, ORDER BY, windows, INSERT columns. Separators, comment "
     "openers, other quotes and non-ASCII characters inside never change what the statement does.",
     ["inputs"], "every literal and name of up to the stated number of pieces x every context",
     "Tests use plain words; a literal passes tokenizer, escape decoder, SQL regeneration and a config language with its own separators.",
     [CO, "syncanysql/parser.py"],
     [{"name": "literals", "where": CO + " (CompilerDialect.Tokenizer, parse_const, compile_const)"}, {"name": "quoted names", "where": CO + " (parse_mapping, parse_column)"}],
     ["rows of statements containing the literal or name"],
     "exhaustive enumeration of literal and name texts x contexts on the real engine",
     "Complete within the bound. Names with . [ ] < > | : + ? * $ have a meaning of their own and are not claimed.")

prop("C11", "A failing statement fails loudly, stops its script and leaves nothing behind",
     "When anything inside a statement fails - any operation of a source or target, a user function, an interruption or terminate, at any point of any kind of "
     "statement (nested subqueries, unions, grouping, windows, joins, SELECT INTO, batched or streamed reading, a nested .sql file) - execute() raises, no later "
     "statement of the script runs, then or with a later execute(), no temporary table and no change of a source stays, and the session afterwards gives for every "
     "script what a fresh session gives. A script with a statement that does not compile runs none of its statements.",
     ["crash_points", "histories"], "every script x every operation failing x kind of failure x session; every pair of failures in consecutive runs",
     "Tests never fail an operation; what is left behind depends on exactly where inside which statement the failure strikes.",
     ["syncanysql/__init__.py", "syncanysql/executor.py", QT, "syncanysql/taskers/into.py", "syncanysql/calculaters/query_tasker_calculater.py"],
     [{"name": "statement queue", "where": "syncanysql/__init__.py (ExecuterContext.execute), syncanysql/executor.py (run, execute)"},
      {"name": "temporary tables", "where": QT + " (run, run_tasker, check_free_temporary_memory_collection), syncanysql/taskers/into.py"}],
     ["exception of execute(), every table of the in-memory database, what the following scripts do"],
     "fault injection at every operation of every script on the real engine, checked against the fault-free run",
     "Complete for the scripts listed. Rows a failing statement has already written to its target may stay.")

prop("C12", "UNION and UNION ALL combine selects by position",
     "A union of any number of selects with named columns returns the rows of its selects, columns matched by position under the names of the first select; UNION ALL keeps "
     "every row, UNION removes the duplicates of everything before it (chains left to right, parenthesised unions first); an ORDER BY, LIMIT or OFFSET after the last "
     "select applies to the whole union, one inside parentheses to its own select. This holds for selects of every form (constants, filters, grouping, DISTINCT, windows, "
     "joins, derived tables, nested unions), for unions in SELECT, INSERT with or without a column list, derived tables, CTEs and IN, and for batched sources. "
     "Selects with different column counts, INTERSECT and EXCEPT are refused.",
     ["programs", "inputs"], "every pair (and chains of a core) of the selects x operators x endings x places x table contents",
     "Tests contain two unions of equally named columns; column order, duplicates and the scope of ORDER BY only show with unequal names and several selects.",
     [CO], [{"name": "union rewriting and compilation", "where": CO + " (rewrite_union, compile_union)"}], ["rows (and order) of the union"],
     "exhaustive enumeration of union programs x table contents on the real engine against list concatenation",
     "Complete for the arms listed; SELECT * in a union contributes by name and is not claimed.")

prop("C13", "Variables hold what was assigned last, in the session that assigned them",
     "A variable read - in a select list, WHERE (source or engine), IN, CASE, HAVING, ON, subqueries, derived tables, VALUES, DELETE, ${} text, get_variable - has the value last "
     "assigned by SET (constant, expression, subquery), SELECT INTO (value, list of values, row), := row by row, or set_variable, type included. A child context and a "
     "nested .sql file see the variables of their parent as they are at that moment, and their own assignments stay their own; new contexts see only the parent's.",
     ["histories"], "every history of assignments and reads up to the bound x cuts into scripts x sessions",
     "Tests run one script of a few assignments; values depend on which statements were compiled, executed and in which session before.",
     ["syncanysql/executor.py", "syncanysql/taskers/set.py", "syncanysql/taskers/into.py", "syncanysql/taskers/execute.py", "syncanysql/calculaters/env_variable_calculater.py", CO],
     [{"name": "scopes and ${} text", "where": "syncanysql/executor.py (EnvVariables, compile_variable)"}, {"name": "assignments", "where": "syncanysql/taskers/set.py, syncanysql/taskers/into.py"}],
     ["rows written by reads, variables of root, child and new sessions"],
     "exhaustive enumeration of statement histories on the real engine against a scope model",
     "Complete within the bound. A SET of a constant counts for the whole script it stands in (known finding set-constant-order).")

prop("C14", "Sessions keep their variables, functions and settings to themselves",
     "A context sees the variables, use() functions and settings (@config) of the root session as they are at that moment and SET GLOBAL values; what is assigned, used or set in it stays in it, "
     "and the same holds for the session of an EXECUTEd file. A script executed by a function of a running query - in any session, at any depth, failing or not - leaves that query in its own "
     "session. current_context() is the innermost with block; tables are shared by all contexts.",
     ["histories"], "every history of session operations up to the bound over a root and two contexts",
     "Tests use one context once; which session a statement sees depends on which were created, cached, entered and left before.",
     ["syncanysql/__init__.py", "syncanysql/executor.py", "syncanysql/config.py", "syncanysql/taskers/execute.py", "syncanysql/taskers/set.py"],
     [{"name": "session settings", "where": "syncanysql/config.py (SessionConfig)"}, {"name": "current session", "where": "syncanysql/executor.py (Executor.__enter__, __exit__, current)"},
      {"name": "contexts", "where": "syncanysql/__init__.py (ExecuterContext, ScriptEngine)"}],
     ["variables, function results, formats and ${} text seen by every session after each history, rows written inside"],
     "exhaustive enumeration of operation histories on the real engine against a model of nested sessions",
     "Complete within the bound.")

prop("C15", "Threads with contexts of their own do not disturb each other",
     "Scripts executed at the same time by different threads, each in its own context of one engine and writing to its own tables, give the rows, variables, function results and settings they give "
     "when executed one after the other; so do threads that create contexts, change the root session, or are the first to use the engine.",
     ["schedules"], "every schedule of two threads up to the preemption bound",
     "Tests use one thread; a lost or mixed up value needs a switch at one particular line.",
     ["syncanysql/__init__.py", "syncanysql/executor.py", "syncanysql/config.py", "syncanysql/calculaters/query_tasker_calculater.py", "syncanysql/calculaters/env_variable_calculater.py", QT],
     [{"name": "current session of a thread", "where": "syncanysql/executor.py (Executor._thread_local)"}, {"name": "merging settings", "where": "syncanysql/config.py (SessionConfig.get)"},
      {"name": "engine set-up", "where": "syncanysql/__init__.py (ScriptEngine.setup, context)"}],
     ["rows, variables, settings and errors of both threads"],
     "stateless exploration of the real code: two real threads under a controlled scheduler, every schedule with one preemption (lines), and with two (calls of session code)",
     "Complete within the preemption bound; the library is not preempted.")

prop("C16", "HAVING keeps exactly the result rows that satisfy its condition",
     "A query with HAVING returns exactly the rows it returns without HAVING for which the condition holds - comparisons, arithmetic, AND, OR, NOT, parentheses, IN, BETWEEN, LIKE, IS NULL, "
     "IF/CASE/IFNULL, and scalar and IN subqueries over the columns of the result, named by alias or by the aggregate as it is written in the select list - before ORDER BY, LIMIT and DISTINCT, "
     "whether the query is grouped or not, reads in batches, filters, joins, uses windows or is a derived table. A condition on anything that is not in the result is refused.",
     ["programs", "inputs"], "every condition up to the bound over a table holding every group state of the bound x query shapes",
     "Tests contain three conditions; a wrong one only shows on groups that tell its value from the neighbouring conditions, and in batches.",
     [CO, QT], [{"name": "HAVING compilation", "where": CO + " (rewrite_having_aggregate, compile_having_condition)"}, {"name": "HAVING after the reduction", "where": QT + " (compile_reduce_config, run_reduce)"}],
     ["rows of the query"], "exhaustive enumeration of conditions x query shapes on the real engine over a table of all group states, against a filter of the model's rows",
     "Complete for the grammar and group states listed; conditions whose value depends on comparing NULL are not claimed.")

prop("C17", "The command line runs every statement it is given once and in order",
     "syncany-sql given a script - as a file (.sql, .sqlx, any case), through a pipe (with or without arguments or quotes), typed at the prompt (one statement per line, several on a line, broken "
     "over lines), by EXECUTE, or split between initialising scripts of the configuration and the main script - does what executing its statements one after the other does: same files, same "
     "printed rows, same variables, --name=value arguments as variables; a failing statement ends the script with exit status 1 (at the prompt: ends that input only) and runs nothing after it; "
     "a script that does not compile runs nothing.",
     ["programs", "inputs"], "every script up to the bound x every way of giving it; argument values; prompt sessions",
     "No test starts the command line; each way of giving a script is a different path through splitting, compiling and executing.",
     ["syncanysql/main.py", "syncanysql/prompt.py", "syncanysql/parser.py", "syncanysql/executor.py", "syncanysql/taskers/execute.py"],
     [{"name": "entry", "where": "syncanysql/main.py (main)"}, {"name": "prompt", "where": "syncanysql/prompt.py (CliPrompt)"}, {"name": "arguments", "where": "syncanysql/executor.py (EnvVariables.build_global)"}],
     ["files written, rows printed, exit status"], "exhaustive enumeration of scripts x ways of giving them; each run is the real main() in a forked process, compared with the model of the script",
     "Complete within the bound; terminals are stand-ins.")

prop("C18", "Settings are layered: the last layer that gives one decides",
     "The settings an engine works with are those of the home's config files (including what they extend), then the working directory's, then those given to the engine, then SET @config: for a plain "
     "setting the last layer that gives it decides, falsy values included; entries of imports, sources, defines, variables, options and arguments and attributes of databases and caches of one name "
     "are merged one by one in that order; initialising scripts of all layers run in order, each looked up in the working directory, then the home. The encoding and the formats reach every database of text files and no other; every extension that can be "
     "loaded is. Queries use the merged settings. Settings given to "
     "an engine are not changed by it, and engines given the same settings do not share them.",
     ["inputs", "histories"], "every assignment of contents to the layers up to the bound; every sequence of SETs up to the bound",
     "Tests use one configuration; which layer wins depends on what every other layer holds.",
     ["syncanysql/config.py", "syncanysql/__init__.py", "syncanysql/taskers/set.py"],
     [{"name": "loading and merging", "where": "syncanysql/config.py (GlobalConfig.load, load_config, merge_config, set; SessionConfig.get)"}],
     ["settings after loading and after SET; rows of queries reading configured databases, modules and formats"],
     "exhaustive enumeration of layer contents and SET histories on the real loading code against a fold of the layers",
     "Complete within the bound; a json and a yaml file of one directory are not given different values.")

prop("C19", "A path in place of a table names exactly that file",
     "A file path used as a table (relative, through .., absolute, file:// with escapes, through a variable; json, csv, text, excel with sheets) names exactly that file: reading it gives its rows - text cut at the "
     "separator of that path -, writing changes that file and no other, in every position of a query together with any other file (same names in directories that differ in a letter or separator, several formats "
     "of one directory, several separators), in any order of reads, writes, copies, deletes and changes from outside.",
     ["inputs", "histories"], "every pair of paths in every position; every history up to the bound over real files",
     "Tests read one file per query; confusion needs two paths whose internal names collide.",
     [CO, QT, "syncanysql/taskers/delete.py"], [{"name": "table names", "where": CO + " (parse_table)"}],
     ["rows read, contents of every file"], "exhaustive enumeration of path pairs x query positions and file histories on the real engine and file system, against a model of the files",
     "Complete within the bound; rows hold text only.")

prop("C20", "Variables and raw SQL in a script's text are replaced exactly",
     "${name} in a script is replaced by the text of the variable of exactly that name of the innermost session that has it (then outer sessions, global, --name arguments, environment and the preset home, cwd, "
     "platform, syncany_home), else of its lower-case name, else by the default, which is computed if it is a call of a function and otherwise stands as written; the script then does what it does with that text "
     "written there; the text is not searched again. A block /* raw(db.name) */ ( SQL ) /* endraw */ stands for the rows the database gives for exactly that SQL, wherever a table can stand, and its name for them "
     "from then on in that session, next to the views that are configured.",
     ["inputs", "programs"], "every value x position x spelling, every set of definitions, every default and call up to the bound; every raw text x form x query shape, histories over names",
     "Tests replace two variables; which value is found depends on all layers, and what is replaced on the characters around it.",
     ["syncanysql/executor.py", "syncanysql/utils.py", "syncanysql/config.py", "syncanysql/parser.py"],
     [{"name": "replacing", "where": "syncanysql/executor.py (Executor.compile_variable, ENV_VARIABLE_RE, FUNC_RE)"}, {"name": "lookup", "where": "syncanysql/executor.py (EnvVariables)"},
      {"name": "raw blocks", "where": "syncanysql/executor.py (Executor.run, RAW_SQL_RE), syncanysql/config.py (virtual_views)"}],
     ["rows written by the script"], "exhaustive enumeration on the real engine against the engine given the replaced text (values), a model of the layers (lookup) and sqlite itself (raw SQL)",
     "Complete within the bound.")

prop("C21", "A converted column behaves like a column of converted values",
     "`c[type]`, convert_type(c) and cast(c as type) give the value of c in that type (what is not one: 0, '', false, NULL), several conversions one after the other; a query over a converted column - in select lists, "
     "expressions, aggregates, GROUP BY, DISTINCT, windows, ORDER BY of a selected column, HAVING, UNION, derived tables, correlated subqueries, keys of joins, and for functions and casts conditions - gives exactly "
     "what it gives over a column that holds the converted values.",
     ["inputs", "programs"], "every value x type x spelling x place, every chain, every table x query shape up to the bound",
     "Tests convert in the select list; a place that forgets a conversion is visible only where the order or equality of stored and converted values differ.",
     [CO], [{"name": "conversions", "where": CO + " (TYPE_FILTERS, parse_column, compile_column, parse_cast_typing_filter)"}],
     ["rows returned"], "exhaustive enumeration on the real engine against the same query over a column of values converted by an independent oracle",
     "Annotations in conditions (they say how values are stored), LEFT JOIN on a converted column of the joined table and ORDER BY of a converted column that is not selected are not claimed.")
prop("C22", "An expression has the value its operators give, nested any way, in any place",
     "Arithmetic, comparisons, AND / OR / NOT, IS NULL / TRUE / FALSE, IN, BETWEEN, LIKE, IF, CASE, IFNULL, COALESCE and CONCAT give the SQL value for every combination of operand values including NULL; an expression built from them has the value "
     "its tree gives, with SQL's precedence of operators, whichever operators are nested in which operands; and the same expression gives the same value as a column, in a join, a derived table, a union, a window, an argument, a condition "
     "of WHERE, HAVING, IF and CASE, a GROUP BY or ORDER BY key, an aggregate, and over constants and variables.",
     ["inputs", "programs"], "every expression tree x row x place up to the bound",
     "Tests evaluate a few expressions over a few rows; which operator inside which operand goes wrong, for which NULL or zero, in which clause, is a product no sample covers.",
     [CO, "syncanysql/calculaters/mysql_funcs/logical_funcs.py"], [{"name": "expression compiler", "where": CO + " (compile_calculate, compile_having_condition, CompilerDialect.Parser)"}],
     ["rows returned"], "exhaustive enumeration of expression trees on the real engine against an independent evaluator",
     "How AND, OR, BETWEEN and IN of one value count NULL (as false), comparisons of numbers with texts, and NULL in WHERE conditions are not claimed.")
prop("C23", "Date and time functions follow the calendar, the clock and the time zone",
     "The parts of a date, its names, day and week numbers, the sum of a date and an interval in any unit and spelling, of any sign and of a computed amount, the difference of two dates in any unit, comparisons of dates, datetimes and texts, "
     "seconds of the day and Unix times in the configured time zone are those of the Gregorian calendar, for every day and moment, however the date is given (text, DATE, DATETIME, CAST) and wherever it is used; NULL and what is no date give NULL.",
     ["inputs", "programs"], "every day, moment, pair, interval and form of the bound",
     "Calendar errors sit on few days: ends of months, December, leap days, week 53, another time zone; tests of these functions only check the type of the result.",
     ["syncanysql/calculaters/mysql_funcs/datetime_funcs.py", "syncanysql/calculaters/mysql_funcs/logical_funcs.py", CO], [{"name": "date functions", "where": "syncanysql/calculaters/mysql_funcs/datetime_funcs.py"}, {"name": "intervals", "where": CO + " (compile_calculate: Interval, TimestampDiff)"}],
     ["rows returned"], "exhaustive enumeration on the real engine against an independent calendar of day numbers",
     "The format letters of DATE_FORMAT are Python's; ADDTIME of numbers and functions of the current time are not claimed.")
prop("C24", "Text, number and pattern functions give their definition's value",
    "The text functions (lengths, cases, parts by position from either end, search, replacement, lists, joining, codes and encodings), the number functions and operators (rounding, powers, logarithms, trigonometry, remainder, bits, GREATEST and LEAST) "
    "and REGEXP with its functions, positions, occurrences and flags give the value of MySQL's (or the documented) definition for every argument: empty texts, positions and counts at, below and past the ends, negative numbers, numbers given as texts and texts "
    "given as numbers, several bytes per character; NULL for NULL except where the definition skips it; nested in one another, as columns or literals, and in every clause.",
    ["inputs", "programs"], "every function x the product of its argument domains x nesting x place up to the bound",
    "The example tests call a handful of these functions with one ordinary argument each; off-by-one errors sit at the last, the first, the zeroth and the negative position.",
    ["syncanysql/calculaters/mysql_funcs/string_funcs.py", "syncanysql/calculaters/mysql_funcs/number_funcs.py", "syncanysql/calculaters/mysql_funcs/regexp_funcs.py", "syncanysql/calculaters/mysql_calculater.py"],
    [{"name": "functions", "where": "syncanysql/calculaters/mysql_funcs/ (string_funcs.py, number_funcs.py, regexp_funcs.py)"}, {"name": "call", "where": "syncanysql/calculaters/mysql_calculater.py, " + CO + " (compile_calculate)"}],
    ["rows returned"], "exhaustive enumeration on the real engine against definitions written out in the check",
    "Halves in ROUND, negative numbers in HEX and BIN, texts without any number used as numbers, empty matches and groups in replacements are not claimed.")
prop("C25", "JSON functions touch exactly the value at the path, and nothing that is stored",
    "JSON_EXTRACT, -> and ->> give the value at the path, or NULL; JSON_SET gives the document with exactly that value set (an index past the end appends; a path whose parent is missing changes nothing), JSON_REMOVE the document without it, several paths one "
    "after the other; JSON_CONTAINS_PATH, JSON_KEYS, JSON_LENGTH, JSON_DEPTH and JSON_VALID agree with the document; whether the document is a value or a text, and the path written down or in a column; and no query with any of them changes a stored document.",
    ["inputs", "programs"], "every document x path x function, every pair of paths, up to the bound",
    "The example calls each function on a constant document with one or two paths; that JSON_SET changed the stored row of a table, and that JSON_REMOVE below an array element removed the element, needs a stored document and a deeper path.",
    ["syncanysql/calculaters/mysql_funcs/json_funcs.py"], [{"name": "JSON functions", "where": "syncanysql/calculaters/mysql_funcs/json_funcs.py"}],
    ["rows returned", "rows stored"], "exhaustive enumeration on the real engine against a model of documents; the stored rows are compared after every query",
    "An index into what is no array, JSON_CONTAINS, .* and the path $ in JSON_SET and JSON_REMOVE are not claimed.")

prop("C26", "Functions of one's own get exactly the row's values, and yield exactly its rows",
    "A Python function imported with USE or by the configuration, under its name or an alias, with attributes found whatever their case and as snake_case, and a registered function is called once per row and place, in the order of the rows, with exactly the values of its arguments, and gives exactly its "
    "result, in any place of a query; an exception gives NULL for that row alone, an unknown name is refused; a registered aggregate sees every value of its group once in any batching; a function that yields gives one row per value (shorter columns end in NULL), on which HAVING, DISTINCT, ORDER BY and LIMIT act; row_index numbers the rows read, row_last gives the row before, pyeval its expression.",
    ["inputs", "programs"], "every list of arguments x place, every table x function x query shape, up to the bound",
    "The examples call each kind of function once with constants; that LIMIT counted the rows before they were yielded, that DISTINCT gave generators and that imported generator functions were never expanded, needs other shapes around the function.",
    ["syncanysql/calculaters/__init__.py", "syncanysql/calculaters/row_calculater.py", "syncanysql/calculaters/generate_calculater.py", "syncanysql/calculaters/pyeval_calculater.py", "syncanysql/compiler.py", "syncanysql/taskers/use.py"],
    [{"name": "function calls and yields", "where": "Compiler.compile_calculate"}, {"name": "own kinds of functions", "where": "find_generate_calculater, find_aggregate_calculater, find_window_aggregate_calculater"}],
    ["rows returned", "calls received by the functions"], "exhaustive enumeration on the real engine; the functions write down their calls, which are compared, like the rows, with a model",
    "A yield inside of another function or operator is not claimed; LIMIT, ORDER BY and DISTINCT of yielded rows are checked without @batch.")

prop("C27", "A view of a database is its SQL with the query's parameters in place",
     "A view configured in a database, or SET in a session (SET @config.databases.D.virtual_views.V = 'SQL'), stands for the rows the database gives for its SQL, each #{column__operator:default} in it "
     "replaced by the value the query's conditions give for that column with that operator (none and eq is =, neq, gt, gte, lt, lte), else by the default: a JSON value, or the text as it stands, colons "
     "included; the other conditions apply to the rows. This holds in every shape of query, for parameters in several places, for views defined again (nothing of the earlier definition stays), taken back "
     "(null) or changed in parts (.query, .args); every view is reached by its own name and database only, next to those the layers of configuration give, of which the last that has the name counts.",
     ["inputs", "histories"], "every view text x parameter x default x conditions x query shape, every history of SETs over views, every choice of contents per layer, up to the bound",
     "No test uses parameters of views; which value takes which place depends on the whole text and on all conditions.",
     ["syncanysql/config.py", "syncanysql/taskers/set.py", "syncanysql/compiler.py"],
     [{"name": "parameters", "where": "syncanysql/config.py (GlobalConfig.parse_virtual_view_args)"}, {"name": "setting and merging views", "where": "syncanysql/config.py (GlobalConfig.set, merge_config)"}],
     ["rows of queries over the views"], "exhaustive enumeration on the real engine against sqlite given the view's SQL with the values bound",
     "Complete within the bound; parameters of IN and NULLs are left out (library).")

prop("C28", "EXPLAIN, SHOW and tuning settings change no result",
     "EXPLAIN in front of a query or an INSERT, SHOW DATABASES and SHOW IMPORTS anywhere between statements, and the session's settings of verbosity and of how work is cut into pieces (@verbose, @timeout, "
     "@recovery, @join_batch, @insert_batch, @primary_order) leave every row returned, its order, every table and file written, every variable and whether a statement fails as they are without them; EXPLAIN prints the plan.",
     ["programs", "histories"], "every statement x set of settings x kind of table, every script x subset of its statements explained, up to the bound",
     "No test runs a statement twice, explained and not; what a setting reaches depends on the statement.",
     ["syncanysql/taskers/explain.py", "syncanysql/taskers/show.py", "syncanysql/executor.py", "syncanysql/taskers/query.py"],
     [{"name": "EXPLAIN and SHOW", "where": "syncanysql/taskers/explain.py, show.py"}, {"name": "settings", "where": "syncanysql/executor.py (Executor.compile), syncanysql/taskers/query.py (compile_tasker)"}],
     ["rows, tables and files, errors, variables; that a plan is printed"], "exhaustive enumeration on the real engine: the statement or script as it stands is the reference",
     "Complete within the bound; @batch, @limit and @streaming are left out: they change by design which rows a step sees.")

prop("C29", "A recursive table holds exactly what its rule reaches; names go by position",
     "WITH RECURSIVE x AS (first select UNION [ALL] rule) holds the rows of the first select and every row the rule gives for a row already there, again and again until it gives no more: under UNION ALL once per way it is "
     "reached, under UNION once; it ends whenever those rows are finite, cycles included, whatever query reads the table, in any @batch, beside other tables of the statement, and leaves nothing behind. WITH x(a, b) AS "
     "(select) and (select) x(a, b) stand for the select with its columns named by position, whatever names it has itself. What cannot be done - a rule that reaches its table through a join or a subquery, a wrong number of "
     "names - is refused, not answered with something else.",
     ["inputs", "programs"], "every graph x rule, every first select x rule x kind of union x query over the table, every select x naming of its columns x place, up to the bound",
     "One example counts up with one rule; cycles, several ways to a row, rules that join, and names that collide with the selected ones need every graph and every naming.",
     ["syncanysql/compiler.py", "syncanysql/taskers/query.py"],
     [{"name": "recursive tables", "where": "Compiler.compile_with, QueryTasker (@loop, DistinctRowsHooker)"}, {"name": "column names", "where": "Compiler.rewrite_alias_columns"}],
     ["rows returned", "temporary tables left", "refusals"], "exhaustive enumeration on the real engine against sqlite given the same statement",
     "Two recursive rules in one table and LIMIT inside the recursive union are known findings; an aggregate inside the rule is not claimed.")

prop("C30", "A path into a document stands for the value it leads to, in any place",
     "A quoted name with dots, `o.a.b`, get_value(o, 'a', 'b'), get_value(o, 'a.b') and get_value(`o.a`, 'b') all stand for the value at that path of each row's document - keys, indexes from either end (.:0, .:-1) and slices (.:0:2) of "
     "lists -, NULL where the path leads nowhere, and so does a column whose own name has a dot. This holds wherever a column can stand: selected, in WHERE and ON whatever the operator, keys of joins, GROUP BY, DISTINCT, aggregates, HAVING, "
     "ORDER BY, windows, subqueries and unions, for tables in memory, JSON databases and JSON files alike, in any @batch; and a subquery that selects an expression without a name gives that expression's values.",
     ["inputs", "programs"], "every document x path x spelling x query shape x kind of source, every pair of paths, up to the bound",
     "The example selects paths; that a condition on one kept no row, or gave NULL beside a join, needs the path in other places.",
     ["syncanysql/compiler.py"], [{"name": "get_value", "where": "Compiler.compile_calculate"}, {"name": "columns at a path", "where": "Compiler.parse_column, is_path_column, compile_order"}],
     ["rows returned"], "exhaustive enumeration on the real engine; sqlite answers the query over a table that has the values at the paths as columns",
     "An equality of a join on a path of the joined table is a known finding; ORDER BY and LIMIT under @batch and keys of lists are not claimed.")
