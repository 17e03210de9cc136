"""C37: the MySQL back end reads EXPLAIN documents faithfully and requests exactly the given plan."""
from __future__ import annotations

import json
import math
import os
import re
import sqlite3
import sys
import tempfile
import types
import warnings

from pbt import graphlib as gl
from pbt import pb
from pbt.draw import composite
from pbt.engine import Facet, fail, require
from pbt.planlib import gen_shape, joins_post, leaves, linear, same_num
from postbound import TableReference, transform
from postbound._core import BoundColumnReference, ColumnReference, JoinOperator, ScanOperator
from postbound._hints import JoinTree, PhysicalOperatorAssignment, PlanParameterization
from postbound._qep import QueryPlan
from postbound.db import UnsupportedDatabaseFeatureError
from postbound.qal import Explain

ASSUMPTIONS = ["the connector (mysql.connector) is a stand-in that records statements and answers with prepared rows and EXPLAIN documents",
               "EXPLAIN documents contain one query block: nested loops over base tables below grouping, ordering, duplicate and buffer nodes",
               "the order of JOIN_ORDER is judged for left-deep join orders; bushy orders have to be rejected",
               "queries contain no derived tables, no backslashes and no identifiers that need quotes"]


class _Cursor:
    def __init__(self):
        self.log, self.rows, self.mode, self.doc = [], [], "", None

    def execute(self, sql, *params, **kw):
        self.log.append(sql)
        if "@@session.sql_mode" in sql:
            self.cur = [(self.mode,)]
        elif sql.startswith("EXPLAIN"):
            self.cur = [(json.dumps(self.doc),)]
        elif sql.startswith(("SELECT", "WITH")):
            self.cur = list(self.rows)
        else:
            self.cur = []

    def fetchone(self):
        return self.cur[0] if self.cur else None

    def fetchall(self):
        return self.cur

    def close(self):
        pass


class _Connection:
    last, cursors = None, None

    def __init__(self, **kw):
        _Connection.last, self.cur = kw, _Connection.cursors or _Cursor()

    def cursor(self, *args, **kw):
        return self.cur

    def close(self):
        pass


def _module():
    root, con = types.ModuleType("mysql"), types.ModuleType("mysql.connector")
    root.__path__ = []
    root.connector, con.connect = con, _Connection
    sys.modules["mysql"], sys.modules["mysql.connector"] = root, con
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        from postbound import mysql
    return mysql


mysql = _module()


def database(mode=""):
    db = mysql.MysqlInterface(mysql.MysqlConnectionArguments("user", "db"), cache_enabled=False)
    db.cursor().mode = mode
    return db


# ---------------------------------------------------------------- EXPLAIN

ACCESS = {"system": None, "const": None, "eq_ref": "IndexScan", "ref": "IndexScan", "fulltext": "IndexScan", "ref_or_null": "IndexScan",
          "index_merge": "BitmapScan", "unique_subquery": "IndexScan", "index_subquery": "IndexScan", "range": "IndexScan", "index": "IndexScan",
          "ALL": "SequentialScan"}
BUFFER = {"": "NestedLoopJoin", "Block Nested Loop": "NestedLoopJoin", "Batched Key Access": "NestedLoopJoin",
          "Batched Key Access (unique)": "NestedLoopJoin", "hash join": "HashJoin"}
WRAP = ["grouping_operation", "ordering_operation", "duplicate_removal", "buffer_result"]


@composite
def explain_strategy(d):
    g = gl.gen_graph(d, 1, 5)
    n = len(g["tabs"])

    def cost(hi=9999):
        return f"{d.int(1, hi) / 100:.2f}"
    nodes = []
    for i in d.permutation(range(n)):
        t = {"table_name": gl.name(g, i), "access_type": d.choice([*ACCESS, "ALL", "ref"])}
        if nodes and d.flag(50):
            t["using_join_buffer"] = d.choice([b for b in BUFFER if b] + ["hash join"])
        if d.flag(90):
            t["rows_examined_per_scan"] = d.choice([0, 1, d.int(0, 50), d.int(0, 10**6)])
        if d.flag(90):
            t["filtered"] = d.choice(["100.00", "10.00", "33.33", "0.00", f"{d.int(0, 100)}.00"])
        if d.flag(90):
            t["rows_produced_per_join"] = d.choice([0, 1, d.int(0, 10**6)])
        if d.flag(90):
            info = {"read_cost": cost(), "eval_cost": cost(), "prefix_cost": cost(10**6), "data_read_per_join": "8K"}
            t["cost_info"] = {k: v for k, v in info.items() if d.flag(90)}
        keys = [*t, "possible_keys", "attached_condition"] if d.flag(30) else list(t)
        nodes.append([i, {k: t.get(k, "x") for k in (d.permutation(keys) if d.flag(30) else keys)}])
    return {"g": g, "nodes": nodes, "wrap": d.some(WRAP, 1, 3) if d.flag(45) else [], "loop": d.flag(30), "query_cost": cost() if d.flag(80) else None,
            "explain": d.flag(20), "how": d.choice(["query_plan", "query_plan", "dict", "text"])}


def document(spec):
    tabs = [{"table": t} for _, t in spec["nodes"]]
    inner = {"nested_loop": tabs} if len(tabs) > 1 or spec["loop"] else tabs[0]
    for w in reversed(spec["wrap"]):
        inner = {w: {"using_filesort": False, "using_temporary_table": True, **inner}}
    head = {"select_id": 1, **({"cost_info": {"query_cost": spec["query_cost"]}} if spec["query_cost"] else {})}
    return {"query_block": {**head, **inner}}


def want_scan(t):
    info = t.get("cost_info")
    cost = math.nan if info is None else float(info.get("read_cost", 0)) + float(info.get("eval_cost", 0)) or math.nan
    card = t["rows_examined_per_scan"] * float(t["filtered"]) / 100 if "rows_examined_per_scan" in t and "filtered" in t else math.nan
    return cost, card


def want_join(t):
    return float(t.get("cost_info", {}).get("prefix_cost", "nan")), t.get("rows_produced_per_join", math.nan)


def same_card(card, want):
    if math.isnan(want):
        return card.is_unknown()
    return not card.is_unknown() and abs(float(card) - want) <= 0.5 + 1e-6


def check_explain(spec):
    pb.reset()
    g, doc = spec["g"], document(spec)
    query = pb.parse(gl.sql(g))
    if spec["explain"]:
        query = transform.as_explain(query, Explain.explain_analyze())
    db = database()
    cur = db.cursor()
    cur.doc = doc
    if spec["how"] == "query_plan":
        plan = db.optimizer().query_plan(query)
        sent = [s for s in cur.log if s.startswith("EXPLAIN")]
        require(len(sent) == 1 and "ANALYZE" not in sent[0] and sent[0].count("EXPLAIN") == 1, "the plan is requested with %s", sent)
        body = re.sub(r"^EXPLAIN\s+FORMAT\s*=\s*JSON\s+", "", sent[0])
        require(pb.parse(body) == pb.parse(gl.sql(g)), "the plan of %s is requested for %s", query, body)
    else:
        plan = db.optimizer().parse_plan(doc if spec["how"] == "dict" else json.dumps(doc), query=query)

    def scan(p, i, t):
        op = ACCESS[t["access_type"]]
        require(p.operator == (ScanOperator[op] if op else None), "operator %s of access type %s", p.operator, t["access_type"])
        require(p.base_table == gl.tab(g, i) and not p.children, "scan of %s: %s", gl.tab(g, i), p)
        cost, card = want_scan(t)
        require(same_num(round(p.estimated_cost, 6), round(cost, 6)), "scan cost %s instead of %s", p.estimated_cost, cost)
        require(same_card(p.estimated_cardinality, card), "scan cardinality %s instead of %s", p.estimated_cardinality, card)

    p = plan
    for w in spec["wrap"]:
        require(p.node_type == w.replace("_", " ").title() and len(p.children) == 1, "%s is shown as %s", w, p)
        require(p.operator is None and p.estimated_cardinality.is_unknown(), "%s: %s, %s rows", w, p.operator, p.estimated_cardinality)
        p = p.children[0]
    for i, t in reversed(spec["nodes"][1:]):
        require(len(p.children) == 2, "join with %s has %s children", t["table_name"], len(p.children))
        require(p.operator == JoinOperator[BUFFER[t.get("using_join_buffer", "")]], "operator %s for %s", p.operator, t.get("using_join_buffer"))
        cost, card = want_join(t)
        require(same_num(p.estimated_cost, cost), "join cost %s instead of %s", p.estimated_cost, cost)
        require(same_card(p.estimated_cardinality, card), "join cardinality %s instead of %s", p.estimated_cardinality, card)
        outer, inner = p.children
        scan(inner, i, t)
        p = outer
    scan(p, *spec["nodes"][0])
    require(set(plan.tables()) == {gl.tab(g, i) for i, _ in spec["nodes"]}, "tables of the plan: %s", plan.tables())
    opt = db.optimizer()
    require(same_num(opt.cost_estimate(query), plan.estimated_cost), "cost_estimate differs from the plan")
    a, b = opt.cardinality_estimate(query), plan.estimated_cardinality
    require(a.is_unknown() == b.is_unknown() and (a.is_unknown() or a == b), "cardinality_estimate differs from the plan: %s, %s", a, b)


# ---------------------------------------------------------------- hints and formatting

HINTS = {"NestedLoopJoin": "NO_BNL", "HashJoin": "BNL", "SequentialScan": "NO_INDEX", "IndexScan": "INDEX", "IndexOnlyScan": "INDEX", "BitmapScan": "INDEX_MERGE"}
TEXTS = ["abc", "it's", "q\"r", "", "a\"\"b'c", "%x_", "None", "2020-01-01"]
TYPES = ["int", "date", "numeric(10, 2)", "varchar(5)"]


@composite
def hint_strategy(d):
    g = gl.gen_graph(d, 1, 5)
    n = len(g["tabs"])
    t = gen_shape(d, d.permutation(range(n)), lambda d: None, d.choice([None, "left", "left"]))
    plan = d.flag(40)
    scans = {str(i): d.choice(["NestedLoopJoin", *HINTS][3:]) for i in range(n) if plan or d.flag(40)}
    ops = [[sorted(leaves(j)), d.choice(["NestedLoopJoin", "HashJoin"])] for j in joins_post(t) if plan or d.flag(40)]
    literals = []
    for _ in range(d.choice([0, 0, 1, 2, 3])):
        c = f"{gl.name(g, d.int(0, n - 1))}.{d.choice(gl.COLS)}"
        text = "'%s'" % d.choice(TEXTS).replace("'", "''")
        literals.append(d.choice([f"{c} = {text}", f"{c} IN ({text}, 3)", f"{c} = NULL", f"{c} > 2.5", f"{c} BETWEEN 1 AND 7", f"{c} IS NOT NULL",
                                  f"CAST({c} AS {d.choice(TYPES)}) = {text}", f"{c} LIKE {text}", f"{c} = TRUE", f"{c} <> {text} OR {c} = {text}",
                                  f"{c} < -3", f"{c} = CAST({text} AS {d.choice(TYPES)})"]))
    settings = [[d.choice(["max_seeks_for_key", "sort_buffer_size", "x_mode"]), d.choice([1, 0, 2.5, "abc"])] for _ in range(d.choice([0, 0, 1, 2]))]
    return {"g": g, "tree": t, "plan": plan, "order": plan or d.flag(60), "scans": scans, "ops": ops, "literals": literals, "global": d.choice([None, None, True, False]),
            "settings": [] if plan else [list(x) for x in dict(map(tuple, settings)).items()], "mode": d.choice(["", "STRICT_ALL_TABLES", "REAL_AS_FLOAT,ANSI_QUOTES,ANSI"]),
            "explain": d.choice([None, None, "explain", "analyze", "json"]), "select": d.choice(["*", "COUNT(*)", None])}


def join_tree(g, t):
    return JoinTree.scan(gl.tab(g, t[1])) if t[0] == "s" else JoinTree.join(join_tree(g, t[1]), join_tree(g, t[2]))


def build_plan(spec, t):
    g = spec["g"]
    if t[0] == "s":
        return QueryPlan(ScanOperator[spec["scans"][str(t[1])]], base_table=gl.tab(g, t[1]))
    return QueryPlan(JoinOperator[dict((tuple(k), v) for k, v in spec["ops"])[tuple(sorted(leaves(t)))]], children=[build_plan(spec, t[1]), build_plan(spec, t[2])])


def hint_set(text):
    """[(hint, arguments)] of a hint block; the arguments of joins are sorted, those of the join order are not."""
    out = []
    body = re.fullmatch(r"/\*\+(.*)\*/", text.strip(), re.S)
    require(body is not None, "not a hint block: %s", text)
    for name, args in re.findall(r"(\w+)\(([^()]*)\)", body[1]):
        args = [a.strip() for a in args.split(",")]
        out.append((name, tuple(args if name == "JOIN_ORDER" else sorted(args))))
    require(re.sub(r"\w+\([^()]*\)|\s", "", body[1]) == "", "unknown content in the hint block %s", text)
    return sorted(out)


def unmysql(text, ansi):
    """Double-quoted literals of a MySQL text as standard literals."""
    if ansi:
        return text
    return re.sub(r"'(?:[^']|'')*'|\"((?:[^\"]|\"\")*)\"",
                  lambda m: m[0] if m[1] is None else "'" + m[1].replace('""', '"').replace("'", "''") + "'", text)


def check_hints(spec):
    pb.reset()
    g, t = spec["g"], spec["tree"]
    sel = spec["select"] or f"{gl.name(g, 0)}.id, CAST({gl.name(g, 0)}.x AS int)"
    plain = pb.parse(gl.sql(g, spec["literals"], select=sel))
    query = plain
    if spec["explain"]:
        query = transform.as_explain(plain, {"explain": Explain(), "analyze": Explain(True), "json": Explain(True, "JSON")}[spec["explain"]])
    before = str(query)
    db = database(spec["mode"])
    svc = db.hinting()
    want, prep = [], set()
    if spec["order"]:
        want.append(("JOIN_ORDER", tuple(gl.name(g, i) for i in leaves(t))))
    want += [(HINTS[o], (gl.name(g, int(i)),)) for i, o in spec["scans"].items()]
    want += [(HINTS[o], tuple(sorted(gl.name(g, i) for i in m))) for m, o in spec["ops"]]
    kw = {}
    if spec["plan"]:
        kw["plan"] = build_plan(spec, t)
    else:
        kw["join_order"] = join_tree(g, t) if spec["order"] else None
        ops = PhysicalOperatorAssignment()
        for i, o in spec["scans"].items():
            ops.add(ScanOperator[o], [gl.tab(g, int(i))])
        for m, o in spec["ops"]:
            ops.add(JoinOperator[o], [gl.tab(g, i) for i in m])
        if spec["global"] is not None:
            ops.set_operator_enabled_globally(JoinOperator.HashJoin, spec["global"])
            prep.add(f"SET @@optimizer_switch='block_nested_loop={'on' if spec['global'] else 'off'}'")
        kw["physical_operators"] = ops
        params = PlanParameterization()
        for k, v in spec["settings"]:
            params.set_system_settings(k, v)
            prep.add(f"SET {k}='{v}'" if isinstance(v, str) else f"SET {k}={v}")
        kw["plan_parameters"] = params
    if spec["order"] and not linear(t):
        try:
            hinted = svc.generate_hints(query, **kw)
        except UnsupportedDatabaseFeatureError:
            require(str(query) == before, "the query was changed")
            return
        fail(f"bushy join order is accepted: {hinted}")
    hinted = svc.generate_hints(query, **kw)
    require(str(query) == before, "the query was changed")
    require(transform.drop_hints(hinted) == query, "the hinted query changed: %s instead of %s", hinted, query)
    block = hinted.hints.query_hints if hinted.hints else ""
    got = hint_set(block) if block else []
    deep = spec["order"] and all(j[2][0] == "s" for j in joins_post(t))
    norm = (lambda hs: sorted(h if deep or h[0] != "JOIN_ORDER" else (h[0], tuple(sorted(h[1]))) for h in hs))
    require(norm(got) == norm(want), "hints %s instead of %s", got, want)
    got_prep = [re.sub(r"\s*=\s*", "=", s.strip()) for s in (hinted.hints.preparatory_statements if hinted.hints else "").split(";") if s.strip()]
    require(sorted(got_prep) == sorted(prep), "preparatory statements %s instead of %s", got_prep, prep)

    # formatting
    ansi = "ANSI_QUOTES" in spec["mode"]
    text = svc.format_query(hinted)
    raw_prep = [s.strip() for s in (hinted.hints.preparatory_statements if hinted.hints else "").split(";") if s.strip()]
    pos = 0
    for s in raw_prep:
        require(s in text, "%s is missing in %s", s, text)
        pos = max(pos, text.index(s) + len(s))
    body = text[pos:].lstrip(" ;\n")
    if block:
        m = re.search(r"SELECT\s+(/\*\+.*?\*/)", body, re.S)
        require(m and norm(hint_set(m[1])) == norm(want), "hint block of %s in %s", want, text)
        body = body.replace(m[1], "")
    require("/*" not in body, "hints in %s", text)
    if spec["explain"]:
        m = re.match(r"EXPLAIN(\s+ANALYZE)?(?:\s+FORMAT\s*=\s*(\w+))?\s+(?=SELECT)", body)
        require(m is not None, "not an EXPLAIN statement of MySQL: %s", body)
        require(bool(m[1]) == (spec["explain"] != "explain") and (m[2] or "").upper() == ("JSON" if spec["explain"] == "json" else ""), "EXPLAIN clause %s", m[0])
        body = body[m.end():]
    again = pb.parse(unmysql(body, ansi))
    require(again == pb.parse(str(plain)), "formatted as %s instead of %s", body, plain)

    # execution
    cur = db.cursor()
    cur.rows, cur.log = [[1, 2], [3, 4]], []
    if not spec["explain"]:
        rows = db.execute_query(hinted, raw=True)
        require(rows == cur.rows, "result %s", rows)
        sent = "\n".join(s for s in cur.log[:-1] if "sql_mode" not in s)
        require(all(s in sent for s in raw_prep) and (prep or not sent), "%s: statements before the query: %s", prep, sent)
        last = re.sub(r"/\*\+.*?\*/", "", cur.log[-1], flags=re.S)
        require(pb.parse(unmysql(last, ansi)) == pb.parse(str(plain)), "executed query %s instead of %s", last, plain)
        m = re.match(r"SELECT\s+(/\*\+.*?\*/)", cur.log[-1], re.S)
        require(not block or m and norm(hint_set(m[1])) == norm(want), "hints of the executed query: %s", cur.log[-1])


# ---------------------------------------------------------------- configuration files

OPTIONS = {"Password": ("password", ["", "pw 1"]), "Host": ("host", ["localhost", "10.0.0.1"]), "Port": ("port", [3306, 12345]), "UseUnicode": ("use_unicode", [True, False]),
           "Charset": ("charset", ["utf8"]), "AutoCommit": ("autocommit", [True, False]), "SqlMode": ("sql_mode", ["ANSI", "STRICT_ALL_TABLES"])}


@composite
def config_strategy(d):
    return {"opts": {k: d.choice(v[1]) for k, v in OPTIONS.items() if d.flag(50)}, "missing": d.choice(["", "", "", "", "User", "Database", "section"]),
            "user": d.choice(["me", "root"]), "db": d.choice(["imdb", "stats"])}


def check_config(spec):
    pb.reset()
    lines = {"User": spec["user"], "Database": spec["db"], **spec["opts"]}
    lines.pop(spec["missing"], None)
    with tempfile.TemporaryDirectory(prefix="c37-") as tmp:
        path = os.path.join(tmp, "mysql.cfg")
        with open(path, "w") as f:
            f.write("[OTHER]\n" if spec["missing"] == "section" else "[MYSQL]\n")
            f.writelines(f"{k} = {v}\n" for k, v in lines.items())
        try:
            db = mysql.connect(config_file=path, private=True)
        except ValueError:
            require(spec["missing"], "configuration %s is rejected", lines)
            return
    require(not spec["missing"], "configuration without %s is accepted", spec["missing"])
    want = {"user": spec["user"], "database": spec["db"], "password": "", "host": "127.0.0.1", "port": 3306, "use_unicode": True, "charset": "utf8mb4",
            "autocommit": True, "sql_mode": "ANSI", **{OPTIONS[k][0]: v for k, v in spec["opts"].items()}}
    got = db.connection_args.parameters()
    require(got == want and _Connection.last == want and all(type(got[k]) is type(want[k]) for k in want), "connection parameters %s instead of %s", got, want)


# ---------------------------------------------------------------- catalog

NAMES = ["id", "a", "b", "Mixed"]
DATA = ["int", "varchar(20)", "decimal(10,2)", "enum('x','y')"]


@composite
def catalog_strategy(d):
    tabs = {}
    for t in d.some(["r", "s", "t", "R2"], 1, 4):
        cols = []
        for c in d.some(NAMES, 1, 4):
            cols.append({"name": c, "type": d.choice(DATA), "null": d.flag(50), "idx": d.choice([0, 0, 1, 2]), "distinct": d.int(0, 100), "uni": d.flag(30), "fk": []})
        tabs[t] = {"cols": cols, "pk": d.int(0, len(cols) - 1) if d.flag(70) else None, "rows": d.int(0, 10**6)}
    for t in tabs:
        for c in tabs[t]["cols"]:
            for u in tabs:
                if d.flag(20):
                    c["fk"].append([u, d.choice(tabs[u]["cols"])["name"]])
    return {"tabs": tabs, "alias": d.flag(40), "ask": d.permutation(list(tabs))}


class _Catalog:
    """information_schema as sqlite tables; parameters are checked like the connector does."""

    def __init__(self, spec):
        con = self.con = sqlite3.connect(":memory:")
        con.execute("ATTACH ':memory:' AS information_schema")
        con.execute("CREATE TABLE information_schema.tables (table_name, table_rows)")
        con.execute("CREATE TABLE information_schema.columns (table_name, column_name, column_type, is_nullable, column_key)")
        con.execute("CREATE TABLE information_schema.statistics (table_name, column_name, index_name, cardinality)")
        con.execute("CREATE TABLE information_schema.key_column_usage (table_name, column_name, referenced_table_name, referenced_column_name)")
        for t, i in spec["tabs"].items():
            con.execute("INSERT INTO information_schema.tables VALUES (?, ?)", (t, i["rows"]))
            for k, c in enumerate(i["cols"]):
                pk = k == i["pk"]
                key = "PRI" if pk else "UNI" if c["idx"] and c["uni"] else "MUL" if c["idx"] else ""
                con.execute("INSERT INTO information_schema.columns VALUES (?, ?, ?, ?, ?)", (t, c["name"], c["type"], "YES" if c["null"] else "NO", key))
                for n in index_names(t, i, k):
                    con.execute("INSERT INTO information_schema.statistics VALUES (?, ?, ?, ?)", (t, c["name"], n, c["distinct"]))
                if pk:
                    con.execute("INSERT INTO information_schema.key_column_usage VALUES (?, ?, NULL, NULL)", (t, c["name"]))
                for u, v in c["fk"]:
                    con.execute("INSERT INTO information_schema.key_column_usage VALUES (?, ?, ?, ?)", (t, c["name"], u, v))
        self.cur, self.asked = con.cursor(), 0

    def execute(self, sql, params=(), **kw):
        if not isinstance(params, (tuple, list, dict)):
            raise TypeError(f"Could not process parameters: {params!r}, it must be of type list, tuple or dict")
        if "information_schema" not in sql:
            self.asked += 1
            self.cur.execute("SELECT 4711")
            return
        self.cur.execute(sql.replace("%s", "?"), tuple(params))

    def fetchone(self):
        return self.cur.fetchone()

    def fetchall(self):
        return self.cur.fetchall()

    def close(self):
        pass


def index_names(t, info, k):
    c = info["cols"][k]
    return (["PRIMARY"] if k == info["pk"] else []) + [f"ix_{t}_{c['name']}_{j}" for j in range(c["idx"])]


def check_catalog(spec):
    pb.reset()
    cat = _Catalog(spec)
    _Connection.cursors = cat
    try:
        db = database()
        schema, stats = db.schema(), db.statistics()
        stats.emulated, stats.enable_emulation_fallback = False, False
        refs = {t: TableReference(t, f"x{i}" if spec["alias"] else "") for i, t in enumerate(spec["tabs"])}
        for t, info in spec["tabs"].items():
            require(stats.total_rows(refs[t]) == info["rows"], "rows of %s: %s", t, stats.total_rows(refs[t]))
            for k, c in enumerate(info["cols"]):
                col = BoundColumnReference(c["name"], refs[t])
                names = index_names(t, info, k)
                got = {"primary key": bool(schema.is_primary_key(col)), "secondary index": bool(schema.has_secondary_index(col)), "indexes": set(schema.indexes_on(col)),
                       "foreign keys": {(x.table.full_name, x.name) for x in schema.foreign_keys_on(col)}, "type": schema.datatype(col), "nullable": schema.is_nullable(col)}
                want = {"primary key": k == info["pk"], "secondary index": k != info["pk"] and bool(names), "indexes": set(names),
                        "foreign keys": {tuple(f) for f in c["fk"]}, "type": c["type"], "nullable": c["null"]}
                require(got == want, "%s.%s: %s instead of %s", t, c["name"], got, want)
                asked = cat.asked
                n = stats.num_distinct(col)
                if names:
                    require(n == c["distinct"] and cat.asked == asked, "distinct values of %s.%s: %s instead of %s", t, c["name"], n, c["distinct"])
                else:
                    require(n is None, "distinct values of %s.%s without statistics: %s", t, c["name"], n)
        cands = [refs[t] for t in spec["ask"]]
        for c in NAMES:
            want = next((refs[t] for t in spec["ask"] if any(x["name"] == c for x in spec["tabs"][t]["cols"])), None)
            got = schema.lookup_column(ColumnReference(c), cands)
            require(got == want, "column %s is found in %s instead of %s", c, got, want)
            try:
                require(schema.lookup_column(c, cands, expect_match=True) == want and want is not None, "missing column %s is found", c)
            except ValueError:
                require(want is None, "column %s of %s is not found", c, want)
    finally:
        _Connection.cursors = None
        cat.con.close()


FACETS = [
    Facet("catalog", catalog_strategy, check_catalog, 300, 6000, "at least two tables or a foreign key",
          nontrivial=lambda s: len(s["tabs"]) > 1 or any(c["fk"] for i in s["tabs"].values() for c in i["cols"])),
    Facet("explain", explain_strategy, check_explain, 1500, 40000, "at least two tables or a grouping, ordering, duplicate or buffer node",
          nontrivial=lambda s: len(s["nodes"]) > 1 or bool(s["wrap"]),
          classify=lambda s: [f"tables={len(s['nodes'])}", f"wrappers={len(s['wrap'])}", s["how"]]),
    Facet("hints", hint_strategy, check_hints, 1500, 40000, "something is requested or the query has literals",
          nontrivial=lambda s: bool(s["order"] or s["scans"] or s["ops"] or s["literals"] or s["settings"]),
          classify=lambda s: ["plan" if s["plan"] else "parts", "bushy" if not linear(s["tree"]) else "linear", str(s["explain"])]),
    Facet("config", config_strategy, check_config, 150, 2000, "an option is given", nontrivial=lambda s: bool(s["opts"])),
]
