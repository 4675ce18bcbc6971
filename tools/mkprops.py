#!/usr/bin/env python3
"""Writes properties.jsonl (one source for the property texts)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=(), observe=()):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                     mechanism=[dict(name=a, where=b) for a, b in mech],
                     observe_at=list(observe) or ["str(query)"], hook_needed=None)))
QP = "sqlpuzzle/_queryparts/"; QU = "sqlpuzzle/_queries/"; CO = "sqlpuzzle/_common/"; BE = "sqlpuzzle/_backends/"

p("C01", "String values stay inside one literal and decode to the same text",
  "Whatever string is passed in a value position (conditions, IN lists, inserted or updated values, outfile options, separators, the explicit value wrapper), the generated SQL holds it as exactly one string literal which decodes, by the active backend's escaping rules, to exactly the same characters. No character of it ends the literal early or shows up outside it. The only exception is a string that as a whole (ignoring surrounding whitespace) is a quoted column reference of the active backend, which renders as that reference.",
  ["inputs", "configurations"], "all strings, all value positions, all four backends",
  "The tests try about ten strings (one quote, one backslash, one newline, one injection); the claim is over all strings, positions and backends, e.g. a backslash directly before a quote, or a string that only almost looks like a reference.",
  [CO + "sqlvalue.py", BE + "sql.py", BE + "sqlite.py", BE + "postgresql.py"],
  [("string escaping", CO + "sqlvalue.py:_escape_value, SqlValue._string"), ("reference recognition", BE + "sql.py:SqlBackend.is_reference")])
p("C02", "Table, column and alias names are always confined to quoted identifiers",
  "A name given as table, column or alias renders as a dot-separated chain of identifiers in the active backend's quote character, split only at dots outside quotes, each decoding to exactly that part of the name (a bare * stays *). Whatever characters the name contains, quote characters included, it cannot end an identifier early or add SQL outside the chain.",
  ["inputs", "configurations"], "all name strings, all name positions (columns, tables, aliases, conditions, joins, order, group, values, functions), all backends",
  "Tests use plain names plus two with dots inside quotes; no test has a quote character inside a name and only one test uses the backtick dialect.",
  [BE + "sql.py", BE + "mysql.py", CO + "sqlvalue.py"],
  [("reference quoting", BE + "sql.py:SqlBackend.reference"), ("reference values", CO + "sqlvalue.py:SqlReference")])
p("C03", "Typed Python values render as literals denoting the same value",
  "Integers of any size, booleans, finite floats and decimals (rounded to five decimal places), bytes, dates, datetimes and None render as the active backend's literal for that very value wherever a value is accepted, and nested collections wrapped as values render all elements in order in parentheses. A boolean is never rendered as an integer kind or the reverse where the backend distinguishes them.",
  ["inputs", "configurations"], "all values of the supported types, all value positions, all backends",
  "Tests sample one or two values per type; rounding, carries, signs, huge integers, microseconds, high bytes and per-backend variants are not reached.",
  [CO + "sqlvalue.py", BE + "sql.py", BE + "postgresql.py"],
  [("type dispatch", CO + "sqlvalue.py:SqlValue._get_convert_method"), ("backend literals", BE + "sql.py, postgresql.py: boolean, bytes")])
p("C04", "DELETE/UPDATE without a condition never renders unless currently allowed",
  "After any sequence of builder calls, copies and renderings, a DELETE or UPDATE that holds no condition raises its confirmation error on every rendering unless the most recent of the allow/forbid calls on it was allow. With at least one condition it renders, with a WHERE part, whatever the flag; empty condition arguments (no arguments, empty dict or list, empty Q) do not count as a condition.",
  ["histories", "inputs"], "all call histories over allow, forbid, where in every style, set, joins, options, copy, render",
  "The tests only check one allow call and one render; nothing exercises forbid after allow, copies, empty conditions or repeated rendering.",
  [QU + "delete.py", QU + "update.py", QP + "queryparts.py", QP + "conditions.py"],
  [("guard in rendering", QU + "delete.py:Delete.__str__, update.py:Update.__str__"), ("is_set", QP + "queryparts.py:QueryParts.is_set")],
  [("allow flag", "last allow/forbid call", QU + "delete.py, update.py"), ("where parts", "conditions given so far", QP + "conditions.py")])
p("C05", "No condition given to WHERE, HAVING or ON is ever lost or invented",
  "The WHERE, HAVING and each ON part of the rendered query is the AND of exactly the conditions added to that part over all calls, in the order given; only a repeat of an equal condition (same column, relation and value, for ON also the mirrored form) may be left out. Conditions never move to another part, and every item of a call contributes even when several argument styles are mixed in that call. Raw SQL fragments are kept verbatim.",
  ["histories", "inputs"], "all sequences of where/having/on calls with all argument styles, relations and value types",
  "Tests add at most four fixed conditions; de-duplication against look-alike values, mixed styles and long histories are not covered.",
  [QP + "conditions.py", QP + "tables.py", QP + "queryparts.py", CO + "argsparser.py"],
  [("unique append", QP + "queryparts.py:append_unique_part, __contains__"), ("condition equality", QP + "conditions.py:Condition.__eq__, tables.py:OnCondition.__eq__"), ("argument parsing", CO + "argsparser.py:Parser.parse")])
p("C06", "Q combinations keep their boolean meaning in the generated SQL",
  "For any tree built from Q objects, &, |, Not and nesting, the generated condition, read with SQL precedence, is logically equivalent to that tree, also when combined with further conditions by repeated calls. Empty Q objects are neutral and never produce dangling operators.",
  ["inputs", "programs"], "all Q expression trees and all truth assignments of their atoms",
  "Tests check nine fixed small trees by text; precedence errors only show in particular nestings.",
  [QP + "conditions.py"],
  [("brackets", QP + "conditions.py:ConditionsOfConditions.__str__, _needs_brackets"), ("negation", QP + "conditions.py:Not")])
p("C07", "IN and NOT IN over collections keep membership meaning including NULL",
  "A column compared with a collection (list, tuple, range, generator or several arguments; by default, IN or NOT IN) selects by SQL three-valued logic: IN matches rows equal to a listed value, and NULL rows exactly when None is listed; NOT IN excludes listed values, and NULL rows never match it. Every non-None element is rendered once per occurrence in order, and an empty collection raises an invalid-argument error, at the call or at the latest on rendering, and never renders.",
  ["inputs"], "all collections of values, any number and placement of None, all three forms, WHERE/HAVING/ON",
  "Tests use [0,1,2], the same plus a trailing None, and [None]; other placements, repeats, generators with None and ON/HAVING are untested.",
  ["sqlpuzzle/relations.py", CO + "sqlvalue.py", QP + "conditions.py"],
  [("NULL split", "sqlpuzzle/relations.py:IN._format_condition, NOT_IN._format_condition"), ("generator copy", "sqlpuzzle/relations.py:IN.__init__"), ("empty check", CO + "sqlvalue.py:SqlValue._list")])
p("C08", "Each relation renders its own operator and rejects other value types",
  "A condition renders as column, operator, value with exactly the operator of the relation used; a bare value gets = , a collection IN, None IS, also through the explicit value wrapper. A relation given a value of a type it does not support raises an invalid-argument error when it is created, and supported types and SQL objects are accepted.",
  ["inputs"], "all relations and aliases x all value types x all condition positions",
  "Tests pair each relation with one value and check a handful of rejections; the full relation x type matrix is not covered.",
  ["sqlpuzzle/relations.py", QP + "conditions.py", QP + "tables.py"],
  [("relation classes", "sqlpuzzle/relations.py"), ("default relation", QP + "conditions.py:Condition.value")])
p("C09", "Multi-row INSERT keeps every value under its own column",
  "The column list of an INSERT holds every column named in any row exactly once in sorted order, rows appear in call order, and each row has for every listed column the value given for it in that row (the last one if given twice, exact repeats not counting), or NULL if it has none.",
  ["inputs", "histories"], "all sequences of values() calls with any column subsets, styles and values",
  "Tests insert rows with one identical column; rows with different or overlapping column sets are only shown in a docstring.",
  [QP + "values.py", QU + "insert.py"],
  [("column union and alignment", QP + "values.py:MultipleValues.all_columns, values; Values.values")])
p("C10", "All argument styles of a call are equivalent and none of their items is dropped",
  "For every method that accepts several argument styles, the same items given as positional arguments, tuples or lists, a dict or keyword arguments produce the same SQL (a lone positional tuple is the list of items); items of a plain dict or keywords are taken in sorted key order, those of an OrderedDict in its own order. When styles are mixed in one call every item takes effect; too few or too many parts in an item raise an invalid-argument error.",
  ["inputs"], "all item lists x all styles x all methods that take them",
  "The parser tests use one or two scalar items per style and never mix a dict with keywords or use OrderedDict.",
  [CO + "argsparser.py"],
  [("argument parser", CO + "argsparser.py:Parser.parse, _parse_dictionary, _create_batch")])
p("C11", "Observing a query never changes it",
  "Rendering (str, repr, tosql), comparing, asking has(), or copying a query any number of times, at any point while it is being built, never changes what it or any other query renders later. Rendering the same query again without changes in between gives the same text. The same holds when an observation is made by another thread in the middle of another one, or is cut off by an exception at any point.",
  ["histories", "schedules", "crash_points"], "all interleavings of building calls and observations, including joins, subqueries, unions and generator values; every line at which an observation can be preempted or interrupted",
  "Tests render once at the end; only one test renders twice.",
  [QP + "tables.py", CO + "sqlvalue.py", "sqlpuzzle/relations.py", QU + "query.py"],
  [("join minimisation", QP + "tables.py:Table._minimize_joins"), ("generator materialisation", "sqlpuzzle/relations.py:IN.__init__, " + CO + "sqlvalue.py")])
p("C12", "Copies and separate queries never influence each other",
  "A copy renders exactly like its original, and afterwards no call on either (or on objects nested in either) changes what the other renders, for every kind of query and nested subquery, union or condition object. Queries built separately share no state: what one renders depends only on calls made on it, on objects passed into it, and on the active backend, also when several threads build and render separate queries at the same time.",
  ["histories", "schedules"], "all histories over several queries of all kinds with copies at any point",
  "Tests copy once and change one clause of one side.",
  [CO + "object.py", QU + "query.py", QU + "union.py"],
  [("deep copy", CO + "object.py:Object.copy"), ("per-instance parts", QU + "query.py:Query.__init__")])
p("C13", "Query equality reflects content",
  "A query equals its copy and any query of the same kind built by the same calls; it is unequal to a query of another kind and to one whose content differs in any clause (columns, tables, joins, conditions, values, options, grouping, order, limit, outfile, locking, upsert). Equality is symmetric, != is its negation, and comparing queries that can be rendered never raises.",
  ["inputs", "histories"], "all pairs of queries of the same or different kinds",
  "Tests compare a copy before and after one extra call per query kind; most clauses never differ in any test.",
  [QU + "query.py", QU + "union.py", QU + "options.py", QP + "queryparts.py"],
  [("clause-wise equality", QU + "query.py:Query.__eq__; __eq__ of every part class")])
p("C14", "Joins keep their order, kind, target and ON conditions",
  "Each join renders after the table that was last added when it was made, in call order, with its kind, table, alias and exactly the ON conditions given between it and the next join. Several joins of the same table and alias with equal conditions on one table become one join: inner if any of them is inner, else their common kind; different outer kinds are all kept. A join without a table or a condition without a join raises an invalid-query error.",
  ["histories", "inputs"], "all sequences of from, join kinds, on calls on SELECT, UPDATE, DELETE",
  "Tests have at most two joins of a single table; multiple tables with joins, three-way repeats and mixed kinds are not covered.",
  [QP + "tables.py"],
  [("join list", QP + "tables.py:Table.join, on, _minimize_joins"), ("last table", QP + "tables.py:Tables.last_table")])
p("C15", "A statement has each clause once, in grammar order, whatever the call order",
  "The rendered statement consists of the clauses that were set, each exactly once and in the SQL order of its kind, independent of the order in which calls touching different clauses were made. Every builder call affects only its own clause and returns the query it was called on.",
  ["histories"], "all permutations of calls touching different clauses, all statement kinds",
  "Tests make calls mostly in SQL order and set few clauses at once.",
  [QU + "select.py", QU + "insert.py", QU + "update.py", QU + "delete.py", QU + "query.py", QP + "intooutfile.py"],
  [("template", QU + "query.py:Query.__str__; _query_template of each kind")])
p("C16", "Statement option flags toggle independently and exclude each other correctly",
  "After any sequence of option calls each option shows in the statement exactly if it is on: cache/no-cache and all/distinct/distinctrow are exclusive groups where the last call on the group decides (off if its argument was false), every other option follows only its own last call. Options appear once each, in alphabetical order, right after the statement keyword.",
  ["histories"], "all sequences of option calls with true or false arguments on all statement kinds",
  "Tests switch one option on or on and off again, and one combination.",
  [QU + "selectoptions.py", QU + "options.py", QU + "insert.py", QU + "update.py", QU + "delete.py"],
  [("option map", QU + "options.py:Options; selectoptions.py:SelectOptions")],
  [("options", "current setting per option group", QU + "options.py")])
p("C17", "LIMIT and OFFSET always reflect the latest settings",
  "After any sequence of limit and offset calls the query shows the last limit set (zero included) and the last non-zero offset set; limit(None) clears both, offset(None) or offset(0) clears the offset, and limit with one argument leaves the offset alone. Integers render exactly whatever their size.",
  ["histories", "inputs"], "all sequences of limit/offset calls over all integers and None",
  "Tests make one or two calls with positive numbers; clearing, zero and re-setting are untested.",
  [QP + "limit.py"],
  [("limit state", QP + "limit.py:Limit.limit, offset")],
  [("limit, offset", "current values", QP + "limit.py")])
p("C18", "ORDER BY and GROUP BY list each column once with its latest direction",
  "Columns in ORDER BY and GROUP BY appear in order of first mention, each once; naming a column again only replaces its direction by the newly given one (ascending when none is given). Directions are case-insensitive asc or desc, anything else raises an invalid-argument error, and the two clauses are independent of each other.",
  ["histories", "inputs"], "all sequences of order_by/group_by calls in all styles",
  "Tests repeat one column once in one call; re-direction over several calls and columns is untested.",
  [QP + "order.py", QP + "orderby.py", QP + "groupby.py"],
  [("order list", QP + "order.py:Orders.order")])
p("C19", "The configured backend alone decides the dialect",
  "After any sequence of configure calls (names case-insensitive, made by whatever thread) every rendering, in every thread, uses the identifier quoting, boolean, bytes and string forms of the most recently configured supported backend, also for queries built before; an unknown name raises and leaves the backend as it was. Upsert calls use the upsert form of the backend active at the call (MySQL ON DUPLICATE KEY UPDATE, PostgreSQL ON CONFLICT, SQLite REPLACE without arguments, none for plain SQL), and FULL JOIN is accepted exactly where the backend supports it.",
  ["configurations", "histories"], "all interleavings of configure, building and rendering over all backends",
  "Tests switch the backend once before building one query and always reset it.",
  [BE + "__init__.py", BE + "sql.py", BE + "mysql.py", BE + "postgresql.py", BE + "sqlite.py", QU + "insert.py", QP + "onconflictdoupdate.py"],
  [("global backend", BE + "__init__.py:set_backend, get_backend"), ("upsert dispatch", QU + "insert.py:Insert.on_duplicate_key_update")],
  [("active backend", "last successfully configured", BE + "__init__.py")])
p("C20", "Arguments of the wrong type are rejected, right ones accepted",
  "Passing a value of an unsupported type as table, column, alias, condition column or value, inserted or updated value, limit, offset, sort direction, outfile option, join target or union operand raises an invalid-argument error at the call, booleans not being accepted as names or numbers; it never turns into SQL. Every supported type is accepted.",
  ["inputs"], "all argument positions x all Python types",
  "Tests cover about twenty of the position/type pairs.",
  [CO + "utils.py", QP + "columns.py", QP + "tables.py", QP + "conditions.py", QP + "values.py", QP + "limit.py", QP + "order.py", QU + "union.py"],
  [("type check decorator", CO + "utils.py:check_type_decorator"), ("per-part setters", QP + "*.py")],
  observe=["exception of the call"])
p("C21", "Subqueries and unions nest without changing their meaning",
  "A SELECT or UNION used as column, table, join target, condition side, function argument or list element appears in parentheses with exactly the text it renders on its own at that time. A union renders its operands in order with UNION for | and UNION ALL for &, chained left to right, and embedding a query never alters it.",
  ["programs", "histories"], "all nestings of selects and unions in all positions",
  "Tests nest one level in five positions and chain at most three operands.",
  [QU + "union.py", QU + "select.py", CO + "sqlvalue.py", QP + "tables.py"],
  [("subselect rendering", CO + "sqlvalue.py:_subselect"), ("union rendering", QU + "union.py:Union.__str__")])
p("C22", "SQL function helpers keep every operand, in order",
  "avg, sum, min, max, count, concat, group_concat, convert, exists and Not render their function name with all operands in the order given, repeats included; DISTINCT, ORDER BY, SEPARATOR (also an empty one) and the target type show exactly when requested. count without an argument is COUNT(*), concat without one raises an invalid-argument error.",
  ["inputs", "histories"], "all functions x operand lists (names, values, subqueries, raw SQL, other functions) x modifiers",
  "Tests use one or two distinct plain columns per function.",
  [QP + "functions.py", QP + "where.py", "sqlpuzzle/__init__.py"],
  [("function rendering", QP + "functions.py")])
p("C23", "Arguments passed by the caller are never modified",
  "No builder call, rendering, comparison or copy modifies lists, dicts, tuples, sets or other objects passed in by the caller; the same argument object can be reused for any number of queries with the same result. Changing a list or dict after it was passed directly (not inside a value wrapper) as condition, values, columns or tables does not change the query.",
  ["histories", "inputs"], "all container arguments to all methods",
  "No test looks at an argument after the call.",
  [QP + "tables.py", CO + "argsparser.py", "sqlpuzzle/relations.py"],
  [("join argument", QP + "tables.py:Table.join"), ("list copy", "sqlpuzzle/relations.py:IN.__init__")],
  observe=["caller's argument after the call", "str(query)"])
p("C24", "has() tells truthfully what a query contains",
  "has(clause) is true exactly if that clause of the query is currently set (a SELECT always has columns), has(clause, word) exactly if in addition the clause's SQL contains the word as a whole word, taken literally whatever characters it has, and has(option) works for SELECT options. Unknown names give False, and asking a query that can be rendered never raises. Words of options and of FOR UPDATE are matched case-insensitively.",
  ["inputs", "histories"], "all query states x clause names x words",
  "Tests ask about a dozen fixed pairs; words with special characters or appearing as part of another word are mostly untested.",
  [QU + "query.py", QU + "select.py", QU + "options.py", QP + "queryparts.py"],
  [("has", QU + "query.py:Query.has; " + QP + "queryparts.py:has")],
  observe=["query.has(...)"])
p("C25", "The select list and table list hold exactly what was asked for",
  "The column list shows every column with its alias in order of first mention over all calls, an exact repeat (same column and alias) only once, and * exactly when no column was given. The same holds for the tables of SELECT, UPDATE, DELETE and INSERT, where a repeat of a table without joins is dropped and different aliases are kept apart.",
  ["histories", "inputs"], "all sequences of columns/from calls with names, aliases, expressions, repeats",
  "Tests repeat one column or table once within one call.",
  [QP + "columns.py", QP + "tables.py"],
  [("unique columns", QP + "columns.py:Columns.columns"), ("unique tables", QP + "tables.py:Tables.set")])
p("C26", "UPDATE and upsert assignments are complete and in order",
  "SET of an UPDATE, and the assignments of an upsert, list every column = value pair given over all calls in the order given, only an exact repeat being left out, and raw SQL fragments verbatim. No assignment is attached to another column and none leaks into the condition or the inserted rows.",
  ["histories", "inputs"], "all sequences of set/upsert calls with all styles and value types",
  "Tests set at most four fixed pairs in a single call.",
  [QP + "values.py", QU + "update.py", QP + "onconflictdoupdate.py", QP + "onduplicatekeyupdate.py"],
  [("assignment list", QP + "values.py:Values.set")])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        f.write(json.dumps(x, ensure_ascii=False) + "\n")
