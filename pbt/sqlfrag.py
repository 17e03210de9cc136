r"""Queries assembled from SQL fragments with random literals and names (features beyond the sqlgen grammar).

Fragments of the SUPPORTED lists must be parsed and kept.  EXOTIC fragments may be rejected with an error, but must
never be changed silently.  Holes: {i} integer, {n} decimal number, {s} string literal, {t} relation r's column.
"""
from __future__ import annotations


EXPR = [
    "ARRAY[{i}, {i}, {t}]", "ARRAY[{s}, {s}]", "r.arr[{i}]", "r.arr[{i}:{i}]", "r.arr[:{i}]", "r.arr[{i}:]",
    "r.arr[{i}][{i}]", "{t}::numeric(10, 2)", "{t}::char", "{t}::char(3)", "{t}::bpchar", "{t}::varchar(3)[]",
    "{t}::int[]", "{t}::int[][]", "{t}::timestamp", "{t}::timestamp(3)", "{t}::timestamptz",
    "{t}::timestamp with time zone", "{t}::time(2) with time zone", "{t}::interval", "{t}::bit(3)",
    "{t}::bit varying", "{t}::bit varying(4)", "{t}::boolean", "{t}::real", "{t}::float", "{t}::double precision",
    "{t}::smallint", "{t}::bigint", "{t}::mytype", "{t}::pg_catalog.int4", "{t}::text", "{t}::date",
    "CAST({t} AS int)", "CAST({t} + {i} AS text)", "date '2020-01-01'", "interval '1 day'", "{n}", "-{n}", "{i}", "-{i}",
    "- {t}", "+ {t}", "- (- {t})", "-(-{i})", "{t} - -{i}", "(-{i})::int", "-{i}::int", "- ({i}::int)", "{s}",
    "TRUE", "FALSE", "NULL", "count(*)", "count(DISTINCT {t})", "sum(DISTINCT {t})",
    "sum({t}) FILTER (WHERE {t} > {i})", "string_agg(DISTINCT r.t, {s})", "myschema.myfunc({t})", "now()", "mode()",
    "coalesce({t}, {i})", "lower(r.t)", "left(r.t, {i})", "extract(year FROM r.d)",
    "substring(r.t FROM {i} FOR {i})", "trim(r.t)", "trim(BOTH {s} FROM r.t)", "position({s} IN r.t)",
    "overlay(r.t placing {s} from {i})", "r.d AT TIME ZONE 'UTC'", "r.*",
    "sum({t}) OVER (ORDER BY {t} RANGE UNBOUNDED PRECEDING)", "sum({t}) OVER (PARTITION BY {t} ORDER BY {t} DESC)",
    "sum({t}) OVER (PARTITION BY {t}, {t} ORDER BY {t} ASC NULLS FIRST, {t} DESC NULLS LAST)",
    "row_number() OVER ()", "rank() OVER (ORDER BY {t})", "sum({t}) FILTER (WHERE {t} > {i}) OVER (ORDER BY {t})",
    "CASE WHEN {t} = {i} THEN {i} END", "CASE WHEN {t} = {i} THEN {s} WHEN {t} > {i} THEN {s} ELSE {s} END",
    "CASE {t} WHEN {i} THEN {i} ELSE {i} END", "CASE {t} WHEN {i} THEN CASE WHEN {t} = {i} THEN {i} END END",
    "(SELECT {i})", "(SELECT max(s.c) FROM s WHERE s.c = {t})", "{t} = {i}", "{t} IS NULL", "{t} IN ({i}, {i})",
    "NOT r.flag", "r.flag AND {t} = {i}", "r.t || {s} || {s}", "r.t || (r.t || {s})", "{t} + {t} * {i}",
    "({t} + {t}) * {i}", "{t} - ({t} - {i})", "{t} / ({t} * {i}) % {i}", "({t} - {i}) - {t}", "{t} * ({i} - {t}) + {i}",
    "{t} % ({i} % {t})", "ARRAY[ARRAY[{i}], ARRAY[{i}]]", "(ARRAY[{i}, {i}])[{i}]", "f(g({t}), {s})",
    "abs(({t} + {i})::int)", "({t} + {i})::numeric / {n}", "EXISTS (SELECT {i} FROM s)",
]
EXPR_EXOTIC = [
    'r.a::"char"', "{t}::interval day", "{t}::interval(3)", "{t}::bit", "{t}::myschema.mytype", '{t}::"MyType"',
    '{t}::"select"', "{t}::int[3]", "interval '1' day", "B'101'", "X'1F'", "string_agg(r.t, {s} ORDER BY r.t)",
    "percentile_cont(0.5) WITHIN GROUP (ORDER BY {t})", "count(DISTINCT ({t}, {t}))", '"MyFunc"({t})',
    '"select"({t})', '"My Schema".myfunc({t})', "f(VARIADIC ARRAY[{i}])", "f(a => {i})", "nullif({t}, {i})",
    "greatest({t}, {i})", "least({t}, {i}, {n})", "current_date", "current_timestamp", "current_timestamp(2)", "current_user",
    'r.t COLLATE "C"', "ROW({t}, {i})", "({t}, {i})", "(r.x).y", "(r.x).*", "public.r.a",
    "sum({t}) OVER (ORDER BY {t} ROWS BETWEEN {i} PRECEDING AND CURRENT ROW)",
    "sum({t}) OVER (ORDER BY {t} ROWS UNBOUNDED PRECEDING EXCLUDE TIES)", "count(DISTINCT {t}) OVER ()",
    "ARRAY(SELECT {i})", "|/ {t}", "@ {t}", "{t} << {i}", "{t} & {i}", "{t} | {i}", "{t} # {i}", "~ {t}", "~ -{i}", "@ -{i}", "|/ -{n}", "+ -{i}", "- -{n}", "- (-'{i}'::int)", "{t} ^ {i}",
    "XMLELEMENT(NAME foo)", "JSON_OBJECT({s}: {i})", "GROUPING({t})", "{t} OPERATOR(pg_catalog.+) {i}", "{t} !",
    "r.t -> {s}", "r.t ->> {s}", "r.t #> {s}", "{t} <-> {i}", "({t} = {i}) IS TRUE", "$1", "{t} IS NOT UNKNOWN",
    "r.t LIKE {s} ESCAPE '!'", "sum(ALL {t})", "nth_value({t}, {i}) OVER (ORDER BY {t})", "{t} = ANY({t})",
    "(CASE {t} WHEN {i} THEN {i} END) IS NULL", "(SELECT ARRAY[{i}])[{i}]", "count(*) FILTER (WHERE NOT r.flag)",
    "{t} = {t} = TRUE", "COALESCE(VARIADIC {t})", "row_number() OVER w", "E'a\\nb'", "U&'d\\0061t'", "$$dollar 'q'$$",
]
PRED = [
    "r.arr @> ARRAY[{i}]", "r.arr <@ ARRAY[{i}, {i}]", "r.arr && ARRAY[{i}, {i}]", "{t} = ANY(r.arr)",
    "{t} = ANY(ARRAY[{i}, {i}])", "{t} < ALL(ARRAY[{i}, {i}])", "({t} = {i}) = ({t} = {i})",
    "{t} BETWEEN {i} AND {i}", "{t} BETWEEN {t} AND {t} + {i}", "r.t ILIKE {s}", "r.t NOT LIKE {s}", "r.t LIKE {s}",
    "{t} IN ({i}, {i})", "{t} NOT IN ({i}, {i})", "{t} IN ({i})", "{t} IN (SELECT s.c FROM s)",
    "{t} NOT IN (SELECT s.c FROM s)", "{t} = ANY(SELECT s.c FROM s)", "{t} = SOME(SELECT s.c FROM s)",
    "{t} <> ALL(SELECT s.c FROM s)", "{t} < ANY(SELECT s.c FROM s WHERE s.c > {i})", "EXISTS (SELECT {i} FROM s)",
    "NOT EXISTS (SELECT {i} FROM s WHERE s.c = {t})", "NOT {t} IS NULL", "{t} IS NOT NULL", "r.flag", "NOT r.flag",
    "f({t})", "TRUE", "NOT TRUE", "{t} = {i} AND {t} = {i} OR {t} = {i}", "{t} = {i} AND ({t} = {i} OR {t} = {i})",
    "NOT ({t} = {i} AND {t} = {i})", "NOT (NOT ({t} = {i}))", "(SELECT TRUE)", "{t} = (SELECT max(s.c) FROM s)",
    "{t} + {i} > {t} * {i}", "r.t = {s}", "{s} = r.t", "{i} < {t}", "{t} <> {n}", "{t} >= {n}", "r.d > date '2020-01-01'",
    "lower(r.t) = {s}", "{t}::text = {s}", "(CASE WHEN {t} = {i} THEN {i} ELSE {i} END) = {i}",
    "({t} = {i} OR {t} = {i}) AND ({t} < {i} OR {t} > {i})", "coalesce({t}, {i}) = {i}", "{t} IS NULL OR r.t IS NULL",
]
PRED_EXOTIC = [
    "{t} IS TRUE", "({t} = {i}) IS NOT TRUE", "({t} = {i}) IS UNKNOWN", "{t} BETWEEN SYMMETRIC {i} AND {i}",
    "{t} NOT BETWEEN {i} AND {i}", "r.t LIKE {s} ESCAPE '!'", "r.t LIKE ANY(ARRAY[{s}])", "r.t SIMILAR TO {s}",
    "r.t ~ {s}", "r.t !~ {s}", "r.t ~* {s}", "{t} & {i} = {i}", "({t}, {t}) IN (SELECT s.c, s.sid FROM s)",
    "({t}, {t}) = ({i}, {i})", "({t}, {t}) < ({i}, {i})", "r.t LIKE ANY(SELECT s.u FROM s)",
    "{t} IS DISTINCT FROM {i}", "{t} IS NOT DISTINCT FROM NULL", "{t} = ARRAY(SELECT {i})", "r.t NOT ILIKE {s}",
    "(r.d, r.d) OVERLAPS (r.d, r.d)", "CURRENT OF x", "r.t IS DOCUMENT", "{t} = {i} IS NULL", "NOT {t} BETWEEN {i} AND {i}",
    "{t} IN ({t}, {t} + {i}, (SELECT {i}))", "{i} IN ({t}, {t})", "r.t || {s} LIKE {s}", "NOT r.t LIKE {s}",
    "r.t IS NORMALIZED", "{t} = ALL(r.arr)", "{t} NOT IN ({t}, NULL)", "{t} OPERATOR(pg_catalog.=) {i}",
    "(r.x).y = {i}", "r.flag = TRUE", "r.flag IS NOT TRUE", "{t} != {i}", "{t} ISNULL", "{t} NOTNULL",
]
FROM = [
    "", " JOIN s ON {t} = s.c", " LEFT JOIN s ON {t} = s.c", " RIGHT JOIN s ON {t} = s.c AND s.c > {i}",
    " FULL JOIN s ON {t} = s.c", " CROSS JOIN s", ", s", ", LATERAL (SELECT * FROM s WHERE s.c = {t}) AS l",
    " JOIN LATERAL (SELECT * FROM s WHERE s.c = {t}) AS l ON TRUE", ", LATERAL generate_series({i}, {t}) AS g",
    ", generate_series({i}, {i}) AS g", ", (VALUES ({i}, {s}), ({i}, {s})) AS v(x, y)", ", (VALUES ({i}), ({i})) AS v",
    ", (SELECT s.c FROM s WHERE s.c > {i}) AS d", " JOIN (s JOIN u ON s.c = u.id) ON {t} = s.c",
    " LEFT JOIN (s LEFT JOIN u ON s.c = u.id) ON {t} = s.c", " JOIN s ON {t} = s.c JOIN u ON u.id = s.c, w",
    ', public.s AS p', ', "My Schema"."My Table" AS m', ', "Select" AS "From"',
]
FROM_EXOTIC = [
    " JOIN s USING (a)", " NATURAL JOIN s", " NATURAL LEFT JOIN s", ", ONLY s", ", s TABLESAMPLE SYSTEM (10)",
    ", s AS x(p, q)", ", (SELECT {i} AS a) AS x(p)", ", generate_series({i}, {i}) AS g(x)",
    ", generate_series({i}, {i}) WITH ORDINALITY", ", ROWS FROM (generate_series(1, 3), generate_series(1, 2))",
    ", (s JOIN u ON s.c = u.id) AS j", ", f({i}) AS (x int, y text)", " JOIN s USING (a, b) AS k",
    " LEFT JOIN s USING (a)", ", XMLTABLE('/x' PASSING r.t COLUMNS a int)", ", db.public.s",
]
TAIL = [
    "", "", "", " GROUP BY {t}", " GROUP BY DISTINCT {t}", " GROUP BY DISTINCT {t}, r.t, {t} + {i}", " GROUP BY {t}, r.t HAVING count(*) > {i}",
    " HAVING count(*) > {i}",
    " ORDER BY {t}", " ORDER BY {t} DESC NULLS LAST, r.t ASC NULLS FIRST", " ORDER BY {t} LIMIT {i} OFFSET {i}",
    " LIMIT {i}", " OFFSET {i}", " FETCH FIRST {i} ROWS ONLY", " OFFSET {i} ROWS FETCH NEXT {i} ROWS ONLY",
    " FETCH FIRST ROW ONLY", " LIMIT ALL", " LIMIT 0", " ORDER BY {t} + {i}, lower(r.t) DESC",
]
TAIL_EXOTIC = [
    " FOR UPDATE", " FOR SHARE OF r NOWAIT", " WINDOW w AS (ORDER BY {t})", " GROUP BY ROLLUP ({t})", " GROUP BY CUBE ({t}, r.t)",
    " GROUP BY GROUPING SETS (({t}), ())", " GROUP BY ()", " ORDER BY {t} USING <",
    " ORDER BY {t} FETCH FIRST {i} ROWS WITH TIES", " LIMIT {i} + {i}", " LIMIT $1", " LIMIT (SELECT {i})",
    " LIMIT NULL", " OFFSET {i} + {i}", " ORDER BY {i}", " GROUP BY {i}", " LIMIT {i}::bigint",
]
SET_OPS = [
    " UNION SELECT s.c FROM s", " UNION ALL SELECT s.c FROM s", " INTERSECT SELECT s.c FROM s", " EXCEPT SELECT s.c FROM s",
    " UNION SELECT s.c FROM s ORDER BY x LIMIT {i}", " UNION SELECT s.c FROM s EXCEPT SELECT {i}",
    " UNION (SELECT s.c FROM s INTERSECT SELECT {i})", " EXCEPT (SELECT s.c FROM s EXCEPT SELECT {i})",
    " UNION ALL (SELECT s.c FROM s ORDER BY s.c LIMIT {i})", " UNION (WITH q AS (SELECT {i} AS z) SELECT q.z FROM q)",
    " EXCEPT (WITH q AS (SELECT {i} AS z), q2 AS (SELECT q.z AS zz FROM q) SELECT q2.zz FROM q2) UNION ALL SELECT s.c FROM s",
]
SET_OPS_EXOTIC = [" INTERSECT ALL SELECT s.c FROM s", " EXCEPT ALL SELECT s.c FROM s", " UNION TABLE s",
                  " UNION VALUES ({i}), ({i})"]
PREFIX = [
    "", "", "", "SET enable_nestloop TO 'off'; ", "SET enable_nestloop = off; SET enable_hashjoin = on; ",
    "SET work_mem = {i}; ", "SET random_page_cost = {n}; ", "SET LOCAL enable_nestloop = off; ",
    "SET search_path TO a, b; ", "SET x.y TO {s}; ",
]
PREFIX_EXOTIC = ["SET work_mem TO DEFAULT; ", "RESET work_mem; ", "SET TIME ZONE 'UTC'; ", "SET SESSION x = on; ",
                 "SET \"MyVar\" TO {i}; ", "BEGIN; ", "SELECT {i}; "]
EXPLAIN = ["", "", "", "EXPLAIN ", "EXPLAIN ANALYZE ", "EXPLAIN (ANALYZE) ", "EXPLAIN (ANALYZE true, FORMAT JSON) ",
           "EXPLAIN (ANALYZE false) ", "EXPLAIN (ANALYZE 0) ", "EXPLAIN (ANALYZE off, FORMAT TEXT) ", "EXPLAIN (FORMAT JSON) "]
EXPLAIN_EXOTIC = ["EXPLAIN VERBOSE ", "EXPLAIN (ANALYZE, BUFFERS) ", "EXPLAIN (COSTS off) ", "EXPLAIN (FORMAT YAML) "]
WITH = [
    "", "", "", "", "WITH w AS (SELECT {i} AS x) ", "WITH w(x, y) AS (VALUES ({i}, {s})) ", "WITH w AS (VALUES ({i}, {i})) ",
    "WITH w AS MATERIALIZED (SELECT {i} AS x), v2 AS NOT MATERIALIZED (SELECT * FROM w) ",
    "WITH RECURSIVE w AS (SELECT 1 AS n UNION ALL SELECT w.n + 1 FROM w WHERE w.n < {i}) ",
]
WITH_EXOTIC = [
    "WITH w(x) AS (SELECT {i} AS a) ", "WITH RECURSIVE w(n) AS (SELECT 1 UNION ALL SELECT n + 1 FROM w WHERE n < 5) ",
    "WITH RECURSIVE w AS (SELECT 1 AS n UNION ALL SELECT w.n + 1 FROM w) SEARCH DEPTH FIRST BY n SET o ",
    "WITH w AS (DELETE FROM r RETURNING *) ", "WITH w AS (TABLE s) ", "WITH w AS ((SELECT {i})) ",
]
DISTINCT = ["", "", "", "DISTINCT ", "ALL ", "DISTINCT ON ({t}) ", "DISTINCT ON ({t}, r.t) "]
COLUMNS = ["r.a", "r.b", "r.id"]
STRINGS = ["", "x", "it's", "a%", "/* c */", "-- d", "l1\nl2", "l1\n  -- x\nl2", "\\", "a\\b", '"q"', "ünïcödé ☃", ";", "$$",
           "{}", "%s", "\t", "SELECT", "a''b", "/*", "*/", "FROM r WHERE"]
NUMBERS = ["1.0", "1.50", ".5", "1e10", "1e400", "12345678901234567890", "0.1234567890123456789012345",
           "9223372036854775807", "2147483648", "2147483647", "0.1", "1e-7", "100000000000000000000.5", "3.", "0.30000000000000004",
           "4.35", "1e22", "123456789.123456789", "0.000001", "1E5", "0.0"]
HINTS = ["", "", "", "", "/*+ HashJoin(r s) */ ", "/*=pg_lab= JoinOrder(r) */\n", "/* c1 */ /* c2 */ ", "-- line hint\n",
         "/* x */ -- y\n", "-- a\n-- b\n", "/*+\n NestLoop(a b)\n SeqScan(r)\n*/\n"]


def _fill(d, text):
    out, i = [], 0
    while i < len(text):
        hole = text[i:i + 3]
        if hole == "{i}":
            out.append(str(d.int(0, 99) if d.flag(80) else d.choice([2147483647, 2147483648, 99999999999999999999])
                           if "LIMIT" not in text and "OFFSET" not in text and "FETCH" not in text else d.int(0, 50)))
        elif hole == "{n}":
            out.append(d.choice(NUMBERS) if d.flag(60) else f"{d.int(0, 10**6)}.{d.int(0, 10**9)}")
        elif hole == "{s}":
            s = d.choice(STRINGS)
            if d.flag(30):
                s += d.choice(STRINGS)
            out.append("'" + s.replace("'", "''") + "'")
        elif hole == "{t}":
            out.append(d.choice(COLUMNS))
        else:
            out.append(text[i])
            i += 1
            continue
        i += 3
    return "".join(out)



def query(d):
    """A query with a flag that tells whether it uses exotic features, and the labels of its parts."""
    exotic = d.flag(40)
    budget = [d.int(1, 2) if exotic else 0]
    used = []

    def pick(normal, special, what):
        if budget[0] and d.flag(30):
            budget[0] -= 1
            used.append(what)
            return _fill(d, d.choice(special))
        return _fill(d, d.choice(normal))

    hint = d.choice(HINTS)
    prefix = pick(PREFIX, PREFIX_EXOTIC, "prefix")
    explain = pick(EXPLAIN, EXPLAIN_EXOTIC, "explain")
    with_ = pick(WITH, WITH_EXOTIC, "with")
    distinct = _fill(d, d.choice(DISTINCT))
    setop = d.flag(15)
    outputs = []
    for i in range(1 if setop else d.int(1, 3)):
        e = pick(EXPR, EXPR_EXOTIC, "expression")
        if e != "r.*" and d.flag(40):
            e += " AS " + ("x" if i == 0 else d.choice(["y", '"a b"', '"Y"', '"select"', "z"]) + "")
        outputs.append(e)
    if not setop and d.flag(15):
        outputs.insert(d.int(0, len(outputs)), "*")
    frm = " FROM r" + pick(FROM, FROM_EXOTIC, "from")
    where = ""
    if d.flag(60):
        preds = [pick(PRED, PRED_EXOTIC, "predicate") for _ in range(d.int(1, 3))]
        if len(preds) == 1:
            where = preds[0]
        else:
            where = d.choice([" AND ", " OR "]).join(f"({p})" for p in preds)
        where = " WHERE " + where
    if setop:
        tail = pick(SET_OPS, SET_OPS_EXOTIC, "set operation")
    else:
        tail = pick(TAIL, TAIL_EXOTIC, "tail")
    body = f"SELECT {distinct}{', '.join(outputs)}{frm}{where}{tail}"
    nested = d.flag(15)
    if nested:
        if "x" not in body or setop or with_:
            nested = False
        else:
            body = f"SELECT * FROM ({body}) AS sub WHERE {_fill(d, '{s}')} <> 'zz'"
    return {"sql": f"{prefix}{hint}{explain}{with_}{body}" if "--" not in hint and d.flag(50) else f"{hint}{prefix}{explain}{with_}{body}",
            "exotic": used, "hint": hint, "nested": nested,
            "parts": [p for p, on in (("set", prefix), ("hint", hint), ("explain", explain), ("with", with_),
                                      ("where", where), ("tail", tail.split()[0:1] if tail else "")) if on and isinstance(on, str)]}
