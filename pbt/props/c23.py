"""C23: EXPLAIN output of DuckDB and Postgres becomes a faithful query plan."""
from __future__ import annotations

import atexit
import json
import math
import warnings

from pbt import pb, pgnorm, sqlgen, stubdb
from pbt.draw import composite
from pbt.engine import Facet, fail, require
from postbound import Cardinality, TableReference, qal, transform
from postbound import duckdb as dd
from postbound import postgres as pg
from postbound._hints import IntermediateOperator, JoinOperator, ScanOperator, jointree_from_plan
from postbound._qep import QueryPlan

ASSUMPTIONS = ["the EXPLAIN (FORMAT JSON) layout of Postgres 12-17: node types, parent relationships, per-loop row counts",
               "plans with several subplans on one node are a documented limitation and not generated"]
DUCK_OPS = {"HASH_JOIN": JoinOperator.HashJoin, "NESTED_LOOP_JOIN": JoinOperator.NestedLoopJoin, "BLOCKWISE_NL_JOIN": JoinOperator.NestedLoopJoin,
            "PIECEWISE_MERGE_JOIN": JoinOperator.SortMergeJoin}


def same(a, b):
    """numbers, NaN equals NaN"""
    a, b = float(a), float(b)
    return (math.isnan(a) and math.isnan(b)) or abs(a - b) <= 1e-9 * max(1.0, abs(a), abs(b))


def num(card):
    return float(card)


# ---------------------------------------------------------------- DuckDB

_DBS = {}


def duck_db(variant):
    if variant not in _DBS:
        original = atexit.register
        atexit.register = lambda f, *a, **k: f
        try:
            db = dd.DuckDBInterface(":memory:", cache_enabled=False)
        finally:
            atexit.register = original
        cur = db.cursor()
        cur.execute("SET threads = 1")
        data = sqlgen.data_rows(variant)
        for name, cols in {**sqlgen.SCHEMA, **sqlgen.QUOTED}.items():
            key = cols[0][0]
            cur.execute(f"CREATE TABLE {sqlgen.q(name)} (" + ", ".join(f"{sqlgen.q(c)} {sqlgen.DUCK_TYPES[t]}" for c, t in cols) + ")")
            for r in data[name] * 7:
                cur.execute(f"INSERT INTO {sqlgen.q(name)} VALUES ({', '.join('?' for _ in cols)})", list(r))
            cur.execute(f"CREATE INDEX idx_{len(name)}_{name.lower()} ON {sqlgen.q(name)} ({sqlgen.q(key)})")
        _DBS[variant] = db
    return _DBS[variant]


@composite
def duck_plans(d):
    g = sqlgen.Gen(d)
    return {"q": g.query(), "variant": d.int(0, 1), "flat": d.weighted([(2, None), (3, flat_query(d))])}


def flat_query(d):
    """joins with all kinds of conditions over the base tables, to see all join operators"""
    tables = d.some(["r", "s", "w", "m"], 1, 4)
    aliases = [(t, d.choice(["", f"{t}1"])) for t in tables]
    if d.flag(20):
        aliases.append((tables[0], "again"))
    cols = {t: [c for c, typ in sqlgen.SCHEMA[t] if typ == "int"] for t in tables if t in sqlgen.SCHEMA}
    aliases = [(t, a) for t, a in aliases if t in cols]
    conds = []
    for k, (t, a) in enumerate(aliases):
        if k and d.flag(85):
            o, oa = aliases[d.int(0, k - 1)]
            for _ in range(d.weighted([(4, 1), (1, 2)])):
                conds.append([f"{oa or o}.{d.choice(cols[o])}", d.choice(["=", "=", "<", ">=", "<>"]), f"{a or t}.{d.choice(cols[t])}", d.flag(15)])
        if d.flag(40):
            conds.append([f"{a or t}.{d.choice(cols[t])}", d.choice(["=", ">", "<="]), str(d.int(0, 5)), False])
    return {"from": aliases, "where": conds, "head": d.choice(["*", "COUNT(*)", "first"]), "tail": d.choice(["", "", "order", "limit"])}


def flat_sql(f):
    first = f"{f['from'][0][1] or f['from'][0][0]}.{sqlgen.SCHEMA[f['from'][0][0]][0][0]}" if f["from"] else "1"
    head = first if f["head"] == "first" else f["head"]
    conds = [f"({a} {op} {b} OR {b} {op} {a} + 1)" if either and not b.isdigit() else f"{a} {op} {b}" for a, op, b, either in f["where"]]
    tail = {"": "", "order": f" ORDER BY {first}", "limit": " LIMIT 3"}[f["tail"] if f["head"] != "COUNT(*)" else ""]
    return f"SELECT {head} FROM " + ", ".join(f"{t} AS {a}" if a else t for t, a in f["from"]) + (" WHERE " + " AND ".join(conds) if conds else "") + tail


def unwrap(raw):
    """skips the wrapper nodes of EXPLAIN ANALYZE"""
    while True:
        raw = raw[0] if isinstance(raw, list) else raw
        name = raw.get("name") or raw.get("operator_name")
        if name and not name.startswith("EXPLAIN"):
            return raw
        raw = raw["children"]


def check_duck_node(raw, plan, tables, analyzed, path="root"):
    require(isinstance(plan, QueryPlan), "%s is %s", path, type(plan))
    name = (raw.get("name") or raw.get("operator_name")).strip()
    extras = raw.get("extra_info") or {}
    at = f"{path}/{name}"
    if name == "SEQ_SCAN":
        want = {"Sequential Scan": ScanOperator.SequentialScan, "Index Scan": ScanOperator.IndexScan}[extras["Type"]]
        require(plan.operator == want and plan.is_scan(), "%s: operator is %s instead of %s", at, plan.operator, want)
        if tables is None:
            require(plan.base_table is None, "%s: table %s without a query", at, plan.base_table)
        else:
            candidates = [t for t in tables if t.full_name == extras["Table"]]
            if len(candidates) == 1:
                require(plan.base_table == candidates[0], "%s: base table is %s instead of %s", at, plan.base_table, candidates[0])
            else:
                require(plan.base_table is None or plan.base_table in candidates, "%s: base table %s is none of %s", at, plan.base_table, candidates)
    elif name in DUCK_OPS:
        require(plan.operator == DUCK_OPS[name] and plan.is_join(), "%s: operator is %s instead of %s", at, plan.operator, DUCK_OPS[name])
    elif "JOIN" not in name and "PRODUCT" not in name and "SCAN" not in name:
        require(plan.operator is None and plan.is_auxiliary() and plan.base_table is None, "%s became %s", at, plan)
        require(plan.node_type.strip() == name, "%s: node type is %s", at, plan.node_type)
    est, act = plan.estimated_cardinality, plan.actual_cardinality
    require(isinstance(est, Cardinality) and same(num(est), extras.get("Estimated Cardinality", "nan")), "%s: estimated cardinality is %s instead of %s", at, est, extras)
    require(isinstance(act, Cardinality), "%s: the actual cardinality %r is no Cardinality", at, act)
    require(same(num(act), raw.get("operator_cardinality", "nan")), "%s: actual cardinality is %s instead of %s", at, act, raw.get("operator_cardinality"))
    require(plan.is_analyze() == analyzed, "%s: is_analyze() is %s", at, plan.is_analyze())
    require(len(plan.children) == len(raw["children"]), "%s: %s children instead of %s", at, len(plan.children), len(raw["children"]))
    total = raw.get("operator_timing", math.nan)
    for k, (r, p) in enumerate(zip(raw["children"], plan.children)):
        total += check_duck_node(r, p, tables, analyzed, f"{at}/{k}")
    require(same(total, plan.execution_time), "%s: execution time is %s instead of %s", at, plan.execution_time, total)
    return total


def check_duck(spec):
    pb.reset()
    db = duck_db(spec["variant"])
    sql = flat_sql(spec["flat"]) if spec["flat"] and spec["flat"]["from"] else sqlgen.rq(spec["q"])
    query = pb.parse(sql, pb.gen_schema())
    if not isinstance(query, qal.SqlQuery):
        return      # set operations cannot be explained
    sql = db.hinting().format_query(query)
    cur = db.cursor()
    try:
        raw = json.loads(cur.execute("EXPLAIN (FORMAT JSON) " + sql).fetchall()[0][1])
        analyzed = cur.execute("EXPLAIN (ANALYZE, FORMAT JSON) " + sql).fetchall()[0][1]
    except Exception:
        return      # quacklab does not support the query
    tables = [t for t in query.tables() if not t.virtual]
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        opt = db.optimizer()
        check_duck_node(unwrap(raw), opt.query_plan(query), tables, False)
        check_duck_node(unwrap(raw), opt.query_plan(sql), None, False)
        forms = {"text": analyzed, "dict": json.loads(analyzed), "list": [json.loads(analyzed)], "row": ("analyzed_plan", analyzed), "rows": [("analyzed_plan", analyzed)]}
        for form, value in forms.items():
            for given in (query, None):
                try:
                    plan = opt.parse_plan(value, query=given)
                    check_duck_node(unwrap(json.loads(analyzed)), plan, tables if given is not None else None, True)
                except (AttributeError, TypeError, KeyError) as e:
                    fail(f"parse_plan() of the {form} form fails: {type(e).__name__}: {e}")
        check_duck_node(unwrap(json.loads(analyzed)), dd.parse_duckdb_plan(analyzed, query=query), tables, True)
        explain = transform.as_explain(query)
        for kw in ({}, {"raw": True}):
            result = db.execute_query(explain, cache_enabled=False, **kw)
            for parser in (opt.parse_plan, dd.parse_duckdb_plan):
                try:
                    plan = parser(result, query=query)
                except (AttributeError, TypeError, KeyError) as e:
                    fail(f"{parser.__name__} fails for the result of execute_query({kw}): {type(e).__name__}: {e}: {str(result)[:80]}")
                check_duck_node(unwrap(raw), plan, tables, False)
        live = opt.analyze_plan(query)
        require(live is not None and live.is_analyze(), "analyze_plan() returns %s", live)
        compare_shape(unwrap(json.loads(analyzed)), live)
        est = (unwrap(raw).get("extra_info") or {}).get("Estimated Cardinality", "nan")
        require(same(num(opt.cardinality_estimate(query)), est), "cardinality_estimate() is %s instead of %s", opt.cardinality_estimate(query), est)
        if spec["flat"] and len({t.full_name for t in tables}) == len(tables):
            names = operators(unwrap(raw))
            scans = [n for n in names if n == "SEQ_SCAN"]
            if len(scans) == len(tables) and not any(("JOIN" in n or "PRODUCT" in n) and n not in DUCK_OPS for n in names):
                tree = jointree_from_plan(opt.query_plan(query))
                require(tree.tables() == set(tables), "the join tree %s does not contain the tables %s", tree, tables)


def operators(raw):
    return [(raw.get("name") or raw.get("operator_name")).strip()] + [n for c in raw["children"] for n in operators(c)]


def compare_shape(raw, plan):
    require(len(plan.children) == len(raw["children"]), "analyze_plan(): %s children instead of %s", len(plan.children), len(raw["children"]))
    require(same(num(plan.estimated_cardinality), (raw.get("extra_info") or {}).get("Estimated Cardinality", "nan")), "analyze_plan(): estimate is %s", plan.estimated_cardinality)
    for r, p in zip(raw["children"], plan.children):
        compare_shape(r, p)


# ---------------------------------------------------------------- Postgres

SCANS = {"Seq Scan": ScanOperator.SequentialScan, "Index Scan": ScanOperator.IndexScan, "Index Only Scan": ScanOperator.IndexOnlyScan, "Bitmap Heap Scan": ScanOperator.BitmapScan}
JOINS = {"Nested Loop": JoinOperator.NestedLoopJoin, "Hash Join": JoinOperator.HashJoin, "Merge Join": JoinOperator.SortMergeJoin}
INTER = {"Materialize": IntermediateOperator.Materialize, "Memoize": IntermediateOperator.Memoize, "Sort": IntermediateOperator.Sort}
TABLES = ["r", "s", "t", "u", "title", "movie_info", "Order"]


class PgGen:
    def __init__(self, d, analyze, buffers):
        self.d, self.analyze, self.buffers, self.n = d, analyze, buffers, 0

    def node(self, typ, rel, children=(), **extra):
        d = self.d
        n = {"Node Type": typ, "Parallel Aware": False, "Async Capable": False}
        if rel:
            n["Parent Relationship"] = rel
        n.update({k.replace("_", " "): v for k, v in extra.items()})
        rows = d.choice([0, 1, 10, 999, d.int(0, 100000)])
        n.update({"Startup Cost": 0.42, "Total Cost": d.int(1, 500000) / 100, "Plan Rows": rows, "Plan Width": d.int(0, 40)})
        if self.analyze:
            loops = d.weighted([(4, 1), (1, 0), (2, d.int(2, 50))])
            n.update({"Actual Startup Time": 0.01, "Actual Total Time": d.int(0, 900000) / 1000 if loops else 0.0, "Actual Rows": d.int(0, 5000) if loops else 0, "Actual Loops": loops})
        if self.buffers:
            n.update({"Shared Hit Blocks": d.int(0, 900), "Shared Read Blocks": d.int(0, 900), "Temp Read Blocks": 0, "Temp Written Blocks": 0})
        if children:
            n["Plans"] = [c for c in children if c is not None]
        return n

    def table(self):
        self.n += 1
        t = self.d.choice(TABLES)
        return {"Relation_Name": t, "Alias": f"{t}_{self.n}" if self.d.flag(50) or self.n > 1 else t}

    def scan(self, rel, depth):
        d = self.d
        kind = d.weighted([(4, "Seq Scan"), (2, "Index Scan"), (2, "Index Only Scan"), (2, "Bitmap Heap Scan"), (1, "CTE Scan"), (1 if depth else 0, "Subquery Scan"), (1, "Function Scan"), (1, "Result")])
        extra, sub = {}, []
        if kind in SCANS:
            extra = self.table()
            if kind in ("Index Scan", "Index Only Scan"):
                extra |= {"Index_Name": f"idx_{d.int(1, 9)}", "Index_Cond": "(id = 3)", "Scan_Direction": "Forward"}
            if kind == "Bitmap Heap Scan":
                extra["Recheck_Cond"] = "(id = 3)"
                leaves = [self.node("Bitmap Index Scan", "Outer", Index_Name=f"idx_{k}", Index_Cond="(id > 1)") for k in range(d.weighted([(2, 1), (2, 2), (1, 3)]))]
                if len(leaves) > 1:
                    for leaf in leaves:
                        leaf["Parent Relationship"] = "Member"
                    leaves = [self.node(d.choice(["BitmapAnd", "BitmapOr"]), "Outer", leaves)]
                sub = leaves
            if d.flag(30):
                extra["Filter"] = "(val > 3)"
        elif kind == "CTE Scan":
            extra = {"CTE_Name": "cte1", "Alias": "cte1" if d.flag(50) else "c"}
        elif kind == "Subquery Scan":
            extra, sub = {"Alias": "sub"}, [self.tree("Subquery", depth - 1)]
        elif kind == "Function Scan":
            extra = {"Function_Name": "generate_series", "Alias": "g"}
        return self.node(kind, rel, sub, **extra)

    def tree(self, rel, depth, parallel=True):
        d = self.d
        if depth <= 0 or d.flag(15):
            return self.scan(rel, depth)
        kind = d.weighted([(6, "join"), (2, "unary"), (1 if parallel else 0, "gather"), (1, "append"), (1, "sub")])
        if kind == "join":
            op = d.choice(["Nested Loop", "Hash Join", "Merge Join"])
            outer, inner = self.tree("Outer", depth - 1, parallel), None
            if op == "Nested Loop" and d.flag(50):
                inner = self.node(d.choice(["Materialize", "Memoize"]), "Inner", [self.tree("Outer", depth - 2, parallel)])
            elif op == "Hash Join":
                inner = self.node("Hash", "Inner", [self.tree("Outer", depth - 1, parallel)], Hash_Buckets=1024)
            else:
                inner = self.tree("Inner", depth - 1, parallel)
            if op == "Merge Join" and d.flag(60):
                outer = self.node("Sort", "Outer", [outer], Sort_Key=["r.id"])
            cond = {"Hash Join": "Hash_Cond", "Merge Join": "Merge_Cond", "Nested Loop": "Join_Filter"}[op]
            pair = [outer, inner] if d.flag(85) else [inner, outer]
            return self.node(op, rel, pair, Join_Type=d.choice(["Inner", "Left", "Semi"]), **{cond: "(a.id = b.id)"})
        if kind == "unary":
            op = d.choice(["Aggregate", "Sort", "Limit", "Unique", "Incremental Sort", "Group", "WindowAgg", "Materialize"])
            return self.node(op, rel, [self.tree("Outer", depth - 1, parallel)], **({"Sort_Key": ["r.id", "s.x DESC"]} if "Sort" in op else {}))
        if kind == "gather":
            w = d.int(1, 6)
            extra = {"Workers_Planned": w}
            if self.analyze:
                extra["Workers_Launched"] = d.int(0, w)
            return self.node(d.choice(["Gather", "Gather Merge"]), rel, [self.tree("Outer", depth - 1, False)], **extra)
        if kind == "append":
            return self.node(d.choice(["Append", "Merge Append"]), rel, [self.tree("Member", depth - 2, parallel) for _ in range(d.int(2, 4))])
        sub = self.tree(d.choice(["InitPlan", "SubPlan"]), depth - 1, False)
        sub["Subplan Name"] = d.choice(["CTE cte1", "InitPlan 1 (returns $0)", "SubPlan 1"])
        main = self.tree("Outer", depth - 1, False)
        return self.node(d.choice(["Aggregate", "Limit", "Result", "Sort"]), rel, [sub, main] if d.flag(60) else [main, sub])


@composite
def pg_plans(d):
    analyze = d.flag(50)
    g = PgGen(d, analyze, d.flag(60 if analyze else 10))
    doc = {"Plan": g.tree("", d.int(0, 4))}
    if analyze:
        doc |= {"Planning Time": d.int(1, 9000) / 1000, "Execution Time": d.int(1, 9000000) / 1000, "Triggers": []}
    return {"doc": doc, "analyze": analyze, "form": d.choice(["dict", "list", "raw", "tuple"]), "query": d.int(0, 3)}


def check_pg_node(n, plan, adjust, path="root"):
    typ = n["Node Type"]
    at = f"{path}/{typ}"
    require(plan.node_type == typ, "%s: node type is %s", at, plan.node_type)
    op = {**SCANS, **JOINS, **INTER}.get(typ)
    require(plan.operator == op, "%s: operator is %s instead of %s", at, plan.operator, op)
    require(plan.is_scan() == (typ in SCANS) and plan.is_join() == (typ in JOINS), "%s: is_scan()=%s, is_join()=%s", at, plan.is_scan(), plan.is_join())
    name, alias = n.get("Relation Name"), n.get("Alias")
    table = TableReference(name, alias if alias != name else "") if name else None
    require(plan.base_table == table, "%s: base table is %s instead of %s", at, plan.base_table, table)
    require(plan.params.index == n.get("Index Name") or (not plan.params.index and "Index Name" not in n), "%s: index is %s instead of %s", at, plan.params.index, n.get("Index Name"))
    require(same(plan.estimated_cost, n["Total Cost"]), "%s: cost is %s instead of %s", at, plan.estimated_cost, n["Total Cost"])
    est, act = plan.estimated_cardinality, plan.actual_cardinality
    want = n["Plan Rows"] * adjust
    require(isinstance(est, Cardinality) and same(num(est), want), "%s: estimated cardinality is %s instead of %s", at, est, want)
    want = n["Actual Rows"] * n["Actual Loops"] if "Actual Rows" in n and typ not in ("BitmapAnd", "BitmapOr") else math.nan
    require(isinstance(act, Cardinality) and same(num(act), want), "%s: actual cardinality is %s instead of %s", at, act, want)
    if n.get("Actual Loops", 1) == 1:
        require(same(plan.execution_time, n.get("Actual Total Time", math.nan) / 1000), "%s: execution time is %s instead of %s", at, plan.execution_time, n.get("Actual Total Time"))
    require(plan.measures.cache_hits == n.get("Shared Hit Blocks") and plan.measures.cache_misses == n.get("Shared Read Blocks"), "%s: cache hits/misses are %s/%s", at, plan.measures.cache_hits, plan.measures.cache_misses)
    workers = n.get("Workers Launched") or n.get("Workers Planned") or 0
    require((plan.parallel_workers or 0) == workers, "%s: parallel workers are %s instead of %s", at, plan.parallel_workers, workers)
    below = adjust if adjust > 1 else n.get("Workers Planned", 0) + 1
    groups = {"main": [], "sub": []}
    for c in n.get("Plans", []):
        groups["sub" if c["Parent Relationship"] in ("SubPlan", "InitPlan", "Subquery") else "main"].append(c)
    main = sorted(groups["main"], key=lambda c: c["Parent Relationship"] == "Inner")     # outer before inner
    require(len(plan.children) == len(main), "%s: %s children instead of %s", at, len(plan.children), len(main))
    for k, (c, p) in enumerate(zip(main, plan.children)):
        check_pg_node(c, p, below, f"{at}/{k}")
    if typ in JOINS:
        require(plan.outer_child is plan.children[0] and plan.inner_child is plan.children[1], "%s: outer and inner child are swapped", at)
    sub = groups["sub"]
    require(bool(sub) == (plan.subplan is not None), "%s: subplan is %s", at, plan.subplan)
    if sub:
        check_pg_node(sub[0], plan.subplan.root, below, f"{at}/sub")


def forms(doc, form):
    return {"dict": doc, "list": [doc], "raw": [([doc],)], "tuple": ([doc],)}[form]


QUERIES = ["SELECT * FROM r, s WHERE r.id = s.id AND r.x > 3", "SELECT count(*) FROM r AS a LIMIT 3", "WITH q AS (SELECT * FROM s) SELECT q.id FROM q ORDER BY q.id", "SELECT r.id FROM r WHERE r.x IN (1, 2)"]


def check_pg(spec):
    pb.reset()
    doc = json.loads(json.dumps(spec["doc"]))
    plan = pg.PostgresExplainPlan(forms(doc, spec["form"] if spec["form"] in ("dict", "list") else "dict"))
    require(plan.is_analyze() == spec["analyze"], "is_analyze() is %s", plan.is_analyze())
    require(same(plan.planning_time, doc.get("Planning Time", math.nan) / 1000) and same(plan.execution_time, doc.get("Execution Time", math.nan) / 1000),
            "planning and execution time are %s and %s", plan.planning_time, plan.execution_time)
    qep = plan.as_qep()
    check_pg_node(doc["Plan"], qep, 1)
    require(doc == spec["doc"] and plan.__json__() == spec["doc"], "the EXPLAIN data is changed")
    require(plan == pg.PostgresExplainPlan(json.loads(json.dumps(doc))) and hash(plan) == hash(pg.PostgresExplainPlan(json.loads(json.dumps(doc)))), "equal plans differ")
    str(plan), plan.inspect()
    walk(plan.root, doc["Plan"])
    opt, sent = optimizer(doc)
    check_pg_node(doc["Plan"], opt.parse_plan(forms(doc, spec["form"])), 1)
    sql = QUERIES[spec["query"]]
    query = pb.parse(sql)
    for given in (sql, query):
        for fn in (opt.query_plan, opt.cardinality_estimate, opt.cost_estimate) + ((opt.analyze_plan,) if given is query else ()):
            sent.clear()
            result = fn(given)
            require(len(sent) == 1, "%s sends %s queries", fn.__name__, len(sent))
            text, kwargs = sent[0]
            check_sent(sql, text, fn.__name__ == "analyze_plan")
            require(kwargs.get("cache_enabled") is False, "%s is answered from the cache", fn.__name__)
            if fn.__name__ == "cardinality_estimate":
                require(isinstance(result, Cardinality) and same(num(result), doc["Plan"]["Plan Rows"]), "cardinality_estimate() is %s", result)
            elif fn.__name__ == "cost_estimate":
                require(same(result, doc["Plan"]["Total Cost"]), "cost_estimate() is %s", result)
            else:
                check_pg_node(doc["Plan"], result, 1)
    raises(ValueError, pg.PostgresExplainPlan, {"Planning Time": 3})
    require(qep == plan.as_qep(), "as_qep() differs between calls")


def raises(exc, fn, *args):
    try:
        r = fn(*args)
    except exc:
        return
    fail(f"{getattr(fn, '__name__', fn)}{args} returns {r} instead of raising {exc.__name__}")


def walk(node, raw):
    require(node.node_type == raw["Node Type"] and node.is_scan() == (raw["Node Type"] in SCANS) and node.is_join() == (raw["Node Type"] in JOINS), "explain node %s", node)
    kids = raw.get("Plans", [])
    require(len(node.children) == len(kids), "children of %s", node)
    if raw["Node Type"] in JOINS:
        inner, outer = node.inner_outer_children()
        for got, rel in ((inner, "Inner"), (outer, "Outer")):
            want = next(k for k, c in enumerate(kids) if c["Parent Relationship"] == rel)
            require(got is node.children[want], "%s child of %s is %s", rel, node, got)
    conds = {k: raw[k] for k in ("Filter", "Index Cond", "Join Filter", "Hash Cond", "Recheck Cond") if k in raw}
    require(node.filter_conditions() == conds, "conditions of %s are %s", node, node.filter_conditions())
    for n, r in zip(node.children, kids):
        walk(n, r)


def check_sent(sql, text, analyze):
    text = text if isinstance(text, str) else qal.format_quick(text, flavor="postgres")
    head, _, body = text.partition(")")
    options = [o.strip().upper() for o in head.partition("(")[2].split(",")]
    require(head.strip().upper().startswith("EXPLAIN") and "FORMAT JSON" in options, "no EXPLAIN: %s", text)
    require(("ANALYZE" in options) == analyze, "EXPLAIN options %s", options)
    require(pgnorm.normal_form(body.strip().rstrip(";")) == pgnorm.normal_form(sql), "the explained query %s differs from %s", body, sql)


def optimizer(doc):
    db = stubdb.StubPostgres({"HashJoin"}, None)
    db._hinting_backend = pg.PostgresHintService.__new__(pg.PostgresHintService)
    db._hinting_backend._postgres_db, db._hinting_backend._inactive, db._hinting_backend._backend = db, False, "pg_lab"
    sent = []

    def execute_query(query, **kwargs):
        sent.append((query, kwargs))
        return [json.loads(json.dumps(doc))]
    db.execute_query = execute_query
    return pg.PostgresOptimizer(db), sent


def pg_labels(n):
    out = {n["Node Type"]}
    if n.get("Parent Relationship"):
        out.add("rel:" + n["Parent Relationship"])
    for c in n.get("Plans", []):
        out |= pg_labels(c)
    return out


FACETS = [
    Facet("postgres", pg_plans, check_pg, 1500, 40000, "a plan with at least three node types", lambda s: len([x for x in pg_labels(s["doc"]["Plan"]) if ":" not in x]) >= 3,
          lambda s: sorted(pg_labels(s["doc"]["Plan"])) + ["analyze" if s["analyze"] else "estimates only", "form:" + s["form"]]),
    Facet("duckdb", duck_plans, check_duck, 500, 15000, "a query over at least two tables", lambda s: len(s["flat"]["from"]) > 1 if s["flat"] else len(sqlgen.labels(s["q"])) > 3,
          lambda s: ["flat" if s["flat"] else "generated"] + (["op:" + c[1] for c in s["flat"]["where"]] if s["flat"] else sqlgen.labels(s["q"]))),
]
