"""C27: cardinality estimators and the native stages return exactly the cardinalities and plans of their source."""
from __future__ import annotations

import atexit
import json
import math
import os
import random
import shutil
import tempfile

from pbt import graphlib, pb, stubdb
from pbt.draw import composite
from pbt.engine import Facet, eq, fail, require
from postbound import Cardinality, JoinTree, util
from postbound import duckdb as dd
from postbound.opt import CardinalityDistortion, PreciseCardinalities, PreComputedCardinalities
from postbound.db import DatabasePool
from postbound.opt import native, presets
from postbound.workloads import Workload

ASSUMPTIONS = ["the cardinality of an intermediate counts the join result before grouping, ordering and LIMIT",
               "the native estimates of quacklab (DuckDB) depend only on the query text and the data"]
_DBS: list = []
TAILS = ["", "", "", "order", "limit", "group", "distinct", "agg", "having", "explain"]


def fresh_db():
    """one connection per process, tables are created anew for every case"""
    if not _DBS:
        original = atexit.register
        atexit.register = lambda f, *a, **k: f
        try:
            _DBS.append(dd.DuckDBInterface(":memory:", cache_enabled=False))
        finally:
            atexit.register = original
        _DBS[0].cursor().execute("SET threads = 1")
    return _DBS[0]


def fill(db, data):
    cur = db.cursor()
    for t in graphlib.BASE:
        cur.execute(f"DROP TABLE IF EXISTS {t}")
        cur.execute(f"CREATE TABLE {t} (id INTEGER, x INTEGER, y INTEGER, z INTEGER)")
        rows = data.get(t, [])
        if rows:
            cur.execute(f"INSERT INTO {t} VALUES " + ", ".join("(" + ", ".join("NULL" if v is None else str(v) for v in r) + ")" for r in rows))


def gen_data(d, n=6, top=4, nulls=True, lo=0):
    return {t: [[k] + [d.int(0, top) if not nulls or d.flag(85) else None for _ in "xyz"] for k in range(d.int(lo, n))] for t in graphlib.BASE}


def gen_query(d, lo=1, hi=4, **kw):
    g = graphlib.gen_graph(d, lo, hi, **kw)
    filters = []
    for i in range(len(g["tabs"])):
        if d.flag(45):
            filters.append([i, d.choice(["id", "x", "y", "z"]), d.choice([">", "<=", "=", "<>", "between", "in", "null"]), d.int(0, 4)])
    return {"g": g, "filters": filters, "tail": d.choice(TAILS), "cte": False}


def filter_sql(g, f):
    i, c, op, v = f
    c = f"{graphlib.name(g, i)}.{c}"
    return {"between": f"{c} BETWEEN 1 AND {v}", "in": f"{c} IN ({v}, 2)", "null": f"{c} IS NULL"}.get(op, f"{c} {op} {v}")


def query_sql(q):
    g = q["g"]
    extra = [filter_sql(g, f) for f in q["filters"]]
    first = f"{graphlib.name(g, 0)}.x"
    select, tail = {"": ("*", ""), "order": (first, f" ORDER BY {first}"), "limit": ("*", " LIMIT 2"), "group": (f"{first}, COUNT(*)", f" GROUP BY {first}"),
                    "distinct": (f"DISTINCT {first}", ""), "agg": (f"MIN({first})", ""), "having": (first, f" GROUP BY {first} HAVING COUNT(*) > 1"), "explain": ("*", "")}[q["tail"]]
    return ("EXPLAIN " if q["tail"] == "explain" else "") + graphlib.sql(g, extra, select) + tail


def fragment_sql(q, idx, select="COUNT(*)"):
    """the intermediate of the given relations, written down independently of postbound"""
    g, idx = q["g"], set(idx)
    fr = ", ".join(b + (f" AS {a}" if a else "") for k, (b, a) in enumerate(g["tabs"]) if k in idx)
    conds = [f"{graphlib.name(g, i)}.{ci} = {graphlib.name(g, j)}.{cj}" for i, ci, j, cj in g["joins"] if i in idx and j in idx]
    conds += [filter_sql(g, f) for f in q["filters"] if f[0] in idx]
    return f"SELECT {select} FROM {fr}" + (" WHERE " + " AND ".join(conds) if conds else "")


def true_card(db, q, idx):
    return db.cursor().execute(fragment_sql(q, idx)).fetchall()[0][0]


def tables_arg(q, idx, style):
    tabs = [graphlib.tab(q["g"], i) for i in sorted(idx)]
    if len(tabs) == 1 and style == "single":
        return tabs[0]
    return {"list": tabs, "tuple": tuple(tabs), "frozenset": frozenset(tabs)}.get(style, set(tabs))


def gen_subset(d, n):
    return d.some(list(range(n)), 1, n)


STYLES = ["single", "list", "set", "frozenset", "tuple"]


def is_card(value, want, fmt, *args):
    require(isinstance(value, Cardinality), fmt + ": %r is no Cardinality", *args, value)
    same = math.isnan(float(value)) if math.isnan(want) else float(value) == want
    require(same, fmt + ": %s instead of %s", *args, value, want)


# ---------------------------------------------------------------- precise

@composite
def precise(d):
    q = gen_query(d)
    n = len(q["g"]["tabs"])
    queries = [q] + ([dict(q, filters=gen_query(d, n, n)["filters"])] if d.flag(40) else [])
    ops = []
    for _ in range(d.int(2, 9)):
        op = d.weighted([(8, "est"), (2, "dml"), (1, "reset"), (2, "all"), (2, "order")])
        k = d.int(0, len(queries) - 1)
        if op == "est":
            ops.append([op, k, gen_subset(d, n), d.choice(STYLES)])
        elif op == "dml":
            ops.append([op, d.choice(["insert", "delete"]), d.choice(graphlib.BASE), d.int(0, 4)])
        elif op == "order":
            ops.append([op, k, d.permutation(list(range(n))), d.int(0, 9)])
        else:
            ops.append([op, k])
    if d.flag(35):
        e = ["est", 0, gen_subset(d, n), d.choice(STYLES)]
        ops += [e, ["dml", d.choice(["insert", "delete"]), d.choice(graphlib.BASE), d.int(0, 4)], ["reset", 0], e]
    return {"queries": queries, "data": gen_data(d), "ops": ops, "cache": d.flag(45), "cross": d.flag(40), "repeat": d.flag(50)}


def dml(cur, kind, table, v):
    if kind == "insert":
        cur.execute(f"INSERT INTO {table} VALUES ({v}, {v}, 1, NULL), (2, 1, {v}, 0)")
    else:
        cur.execute(f"DELETE FROM {table} WHERE x >= {v} OR x IS NULL")


def left_deep(q, order, bushy):
    trees = [JoinTree.scan(graphlib.tab(q["g"], i)) for i in order]
    k = 0
    while len(trees) > 1:
        at = 0 if bushy % 2 == 0 else (bushy + k) % (len(trees) - 1)
        trees[at:at + 2] = [JoinTree.join(trees[at], trees[at + 1])]
        k += 1
    return trees[0]


def tree_sets(t):
    return [frozenset([t.base_table])] if t.is_scan() else tree_sets(t.outer_child) + tree_sets(t.inner_child) + [frozenset(t.tables())]


def check_precise(spec):
    pb.reset()
    db = fresh_db()
    fill(db, spec["data"])
    parsed = [pb.parse(query_sql(q)) for q in spec["queries"]]
    est = PreciseCardinalities(db, enable_cache=spec["cache"], allow_cross_products=spec["cross"])
    cache = {}

    def want(k, idx):
        q = spec["queries"][k]
        true = true_card(db, q, idx)
        if not spec["cache"]:
            return {true}
        old = cache.setdefault((k, frozenset(idx)), set())
        old |= {true} if not old else set()
        # equal fragments of different queries may share their cache entry
        return old | {v for (k2, i2), vs in cache.items() if i2 == frozenset(idx) and fragment_sql(spec["queries"][k2], idx) == fragment_sql(q, idx) for v in vs}

    def judge(value, k, idx, what):
        ok = want(k, idx)
        require(isinstance(value, Cardinality), "%s: %r is no Cardinality", what, value)
        require(float(value) in ok, "%s: %s has %s rows, the estimator says %s", what, fragment_sql(spec["queries"][k], idx), sorted(ok), value)

    for op, *args in spec["ops"]:
        if op == "dml":
            dml(db.cursor(), *args)
            continue
        if op == "reset":
            est.reset_cache()
            cache.clear()
            continue
        k = args[0]
        q, query = spec["queries"][k], parsed[k]
        n = len(q["g"]["tabs"])
        index = {graphlib.tab(q["g"], i): i for i in range(n)}
        est.initialize(db, query)
        if op == "est":
            for _ in range(1 + spec["repeat"]):
                judge(est.calculate_estimate(query, tables_arg(q, args[1], args[2])), k, args[1], "calculate_estimate")
        elif op == "all":
            edges = [e for e in graphlib.edges(q["g"])]
            subsets = {frozenset(i for i in range(n) if m >> i & 1) for m in range(1, 2 ** n)}
            expected = {s for s in subsets if spec["cross"] or graphlib.connected(s, edges)}
            got = [frozenset(index[t] for t in s) for s in est.generate_intermediates(query)]
            eq(len(got), len(set(got)), "intermediates are repeated")
            eq(sorted(map(sorted, got)), sorted(map(sorted, expected)), "intermediates")
            params = est.estimate_cardinalities(query)
            eq({frozenset(index[t] for t in s) for s in params.cardinalities}, expected, "estimated intermediates")
            for s, card in params.cardinalities.items():
                judge(card, k, frozenset(index[t] for t in s), "estimate_cardinalities")
        else:
            tree = left_deep(q, args[1], args[2])
            params = est.generate_plan_parameters(query, tree, None)
            eq({frozenset(s) for s in params.cardinalities}, set(tree_sets(tree)), "intermediates of the join order")
            for s, card in params.cardinalities.items():
                judge(card, k, frozenset(index[t] for t in s), "generate_plan_parameters")
        est.cleanup()


# ---------------------------------------------------------------- pre-computed

LABELS = ["1a", "q", "1", "02", "1b", "10", "NA", "true", "a b", "x,y", "3"]


@composite
def precomputed(d):
    n = d.int(1, 3)
    labels = d.some(LABELS, n, n) if d.flag(80) else [d.int(0, 3) * 4 + k for k in range(n)]
    queries, seen = [], set()
    for lab in labels:
        # queries of the same tables, so that only the label tells their cardinalities apart
        q = gen_query(d, 1, 3) if not queries or d.flag(50) else dict(queries[0])
        if query_sql(q) in seen:
            q = dict(q, filters=q["filters"] + [[0, "id", "<=", 90 + len(seen)]])
        seen.add(query_sql(q))
        queries.append(q)
    rows = []
    for k, q in enumerate(queries):
        m = len(q["g"]["tabs"])
        for mask in range(1, 2 ** m):
            if d.flag(60):
                rows.append([k, [i for i in range(m) if mask >> i & 1], d.weighted([(6, d.int(0, 50)), (1, 10 ** 13 + 1), (1, 0)])])
    rows = d.permutation(rows)
    if rows and d.flag(12):
        rows.append(list(d.choice(rows)))
    ops = []
    for _ in range(d.int(2, 10)):
        op = d.weighted([(8, "est"), (1, "reload"), (1, "params")])
        k = d.int(0, n - 1)
        if op == "est":
            hit = [r for r in rows if r[0] == k]
            idx = d.choice(hit)[1] if hit and d.flag(50) else gen_subset(d, len(queries[k]["g"]["tabs"]))
            ops.append([op, k, idx, d.choice(STYLES)])
        else:
            ops.append([op, k])
    return {"labels": labels, "queries": queries, "rows": rows, "ops": ops, "data": gen_data(d),
            "default": d.weighted([(5, None), (1, 0), (1, 77), (1, "unknown")]), "live": d.weighted([(3, None), (2, "actual"), (2, "estimated")]), "save": d.flag(70),
            "error": d.flag(60), "cross": d.flag(30), "cols": d.choice([None, None, ["lab", "tabs", "n"]]), "more": d.flag(40), "reader": d.flag(50)}


def check_precomputed(spec):
    pb.reset()
    db = fresh_db()
    fill(db, spec["data"])
    folder = tempfile.mkdtemp(prefix="c27-")
    try:
        run_precomputed(spec, db, os.path.join(folder, "cards.csv"))
    finally:
        shutil.rmtree(folder, ignore_errors=True)


def write_rows(spec, path):
    import csv
    cols = spec["cols"] or ["label", "tables", "cardinality"]
    with open(path, "w", newline="") as f:
        w = csv.writer(f)
        w.writerow([cols[0], cols[1]] + (["query", "query_fragment"] if spec["more"] else []) + [cols[2]])
        for k, idx, card in spec["rows"]:
            q = spec["queries"][k]
            tabs = [graphlib.tab(q["g"], i) for i in idx]
            w.writerow([spec["labels"][k], util.to_json(tabs)] + ([query_sql(q), fragment_sql(q, idx, "*")] if spec["more"] else []) + [card])


def run_precomputed(spec, db, path):
    write_rows(spec, path)
    queries, labels = spec["queries"], spec["labels"]
    parsed = [pb.parse(query_sql(q)) for q in queries]
    workload = Workload(dict(zip(labels, parsed)), name="gen")
    kw = dict(include_cross_products=spec["cross"], error_on_missing_card=spec["error"], save_live_fallback_results=spec["save"])
    if spec["default"] is not None:
        kw["default_cardinality"] = Cardinality.unknown() if spec["default"] == "unknown" else Cardinality(spec["default"])
    if spec["live"]:
        kw.update(live_fallback=True, live_db=db, live_fallback_style=spec["live"])
    if spec["cols"]:
        kw.update(label_col=spec["cols"][0], tables_col=spec["cols"][1], cardinality_col=spec["cols"][2])

    def make():
        return PreComputedCardinalities(workload, path, **kw)
    known = {}
    for k, idx, card in spec["rows"]:
        known.setdefault((k, frozenset(idx)), []).append(card)
    est = make()

    def expected(k, idx):
        """(value | None for an error, whether it is looked up live)"""
        hits = known.get((k, frozenset(idx)), [])
        if len(hits) == 1:
            return hits[0], False
        if hits:
            return None, False
        if spec["default"] is not None:
            return math.nan if spec["default"] == "unknown" else spec["default"], False
        if spec["live"] == "actual":
            return true_card(db, queries[k], idx), True
        if spec["live"] == "estimated":
            return estimate_of(db, fragment_sql(queries[k], idx, "*")), True
        return (None if spec["error"] else math.nan), False

    def single(k, idx, arg):
        want, live = expected(k, idx)
        before = open(path, newline="").read()
        try:
            got = est.calculate_estimate(parsed[k], arg)
        except ValueError as e:
            require(want is None, "estimate for %s of %s: %s", sorted(idx), labels[k], e)
            return
        require(want is not None, "estimate %s for %s of %s, which is missing or stored several times", got, sorted(idx), labels[k])
        is_card(got, want, "estimate for %s of %s", sorted(idx), labels[k])
        if live and spec["save"]:
            known[(k, frozenset(idx))] = [want]
        else:
            eq(open(path, newline="").read(), before, "the lookup table changed")

    for op, k, *args in spec["ops"]:
        if op == "est":
            single(k, args[0], tables_arg(queries[k], *args))
        elif op == "reload":
            est = make()
        else:
            n = len(queries[k]["g"]["tabs"])
            edges = [e for e in graphlib.edges(queries[k]["g"])]
            subsets = [frozenset(i for i in range(n) if m >> i & 1) for m in range(1, 2 ** n)]
            subsets = [s for s in subsets if spec["cross"] or graphlib.connected(s, edges)]
            wanted = {s: expected(k, s) for s in subsets}
            try:
                params = est.estimate_cardinalities(parsed[k])
            except ValueError as e:
                require(any(w is None for w, _ in wanted.values()), "estimate_cardinalities: %s", e)
                # live estimates before the failure may have been stored
                break
            require(all(w is not None for w, _ in wanted.values()), "estimate_cardinalities did not fail for missing values")
            index = {graphlib.tab(queries[k]["g"], i): i for i in range(n)}
            got = {frozenset(index[t] for t in s): float(c) for s, c in params.cardinalities.items()}
            eq(got, {s: float(w) for s, (w, _) in wanted.items() if not math.isnan(w)}, "estimate_cardinalities")
            for s, (w, live) in wanted.items():
                if live and spec["save"]:
                    known[(k, s)] = [w]


# ---------------------------------------------------------------- distortion

@composite
def distortion(d):
    return {"cards": [d.weighted([(6, d.int(0, 1000)), (1, 0), (1, "nan"), (1, "inf"), (1, 10 ** 15 + 1)]) for _ in range(3)], "cross": d.flag(50),
            "factor": d.choice([0.0, 0.1, 0.5, 0.9, 1.0, 1.5, 2, 10, 0.333]), "strategy": d.weighted([(3, "fixed"), (3, "random"), (1, "other")]), "seed": d.int(0, 99)}


class Given(stubdb.CardinalityEstimator):
    def __init__(self, cards, **kw):
        super().__init__(**kw)
        self.cards, self.log = cards, []

    def calculate_estimate(self, query, intermediate):
        tabs = sorted(t.identifier() for t in util.enlist(intermediate))
        self.log.append(tabs)
        v = self.cards[min(len(tabs), len(self.cards)) - 1]
        return Cardinality(float(v) if isinstance(v, str) else v)

    def describe(self):
        return {"name": "given"}


def check_distortion(spec):
    random.seed(spec["seed"])
    q = pb.parse("SELECT * FROM t0, t1, t2 WHERE t0.id = t1.x AND t1.y = t2.z")
    tabs = sorted(q.tables(), key=lambda t: t.identifier())
    inner = Given(spec["cards"], allow_cross_products=spec["cross"])
    est = CardinalityDistortion(inner, spec["factor"], distortion_strategy=spec["strategy"])
    eq(est.allow_cross_products, spec["cross"], "cross products")
    f, seen = spec["factor"], set()
    for k, raw in enumerate(spec["cards"]):
        raw = float(raw)
        for _ in range(6):
            try:
                got = est.calculate_estimate(q, tabs[:k + 1])
            except ValueError as e:
                require(spec["strategy"] == "other", "distortion of %s by %s: %s", raw, f, e)
                continue
            require(spec["strategy"] != "other" or not math.isfinite(raw), "unknown strategy is accepted")
            require(isinstance(got, Cardinality), "distorted estimate %r is no Cardinality", got)
            if math.isnan(raw):
                is_card(got, math.nan, "distortion of an unknown cardinality")
            elif math.isinf(raw):
                require(f == 0 or not math.isfinite(float(got)), "distortion of inf by %s: %s", f, got)
            elif spec["strategy"] == "fixed":
                require(abs(float(got) - raw * f) <= 0.5 + 1e-9 * raw, "distortion of %s by %s: %s", raw, f, got)
            else:
                lo, hi = min(f, 1) * raw, max(f, 1) * raw
                require(lo - 0.5 - 1e-9 * raw <= float(got) <= hi + 0.5 + 1e-9 * raw, "random distortion of %s by up to %s: %s", raw, f, got)
                seen.add((k, float(got)))
    if spec["strategy"] == "random" and f in (10, 2, 0.1, 0.0):
        for k, raw in enumerate(spec["cards"]):
            if 100 <= float(raw) < math.inf:
                require(len([1 for kk, _ in seen if kk == k]) > 1, "6 random distortions of %s by up to %s are all equal", raw, f)


# ---------------------------------------------------------------- native

@composite
def native_stages(d):
    q = gen_query(d, 1, 4, connected=True)
    base = d.permutation(graphlib.BASE)
    for k, t in enumerate(q["g"]["tabs"]):
        t[0], t[1] = base[k], d.choice(["", "", f"a{k}"])
    n = len(q["g"]["tabs"])
    return {"q": q, "data": {t: [[k, d.int(0, 9), d.int(0, 3), k % 5] for k in range(d.int(5, 60))] for t in graphlib.BASE},
            "subsets": [[gen_subset(d, n), d.choice(STYLES)] for _ in range(d.int(1, 4))], "hint": d.flag(60), "seed": d.int(0, 999), "key": d.choice(["native", "NATIVE", "Native", "nativ"])}


def estimate_of(db, sql):
    """root estimate of the engine, read from the raw EXPLAIN output"""
    plan = json.loads(db.cursor().execute("EXPLAIN (FORMAT JSON) " + sql).fetchall()[0][1])
    plan = plan[0] if isinstance(plan, list) else plan
    return float(plan.get("extra_info", {}).get("Estimated Cardinality", "nan"))


def raw_joins(node, by_table):
    """[(leaf table set, operator name)] of the engine's plan, None if it contains other leaves"""
    kids, name = node["children"], node["name"].strip()
    if not kids:
        t = by_table.get(node.get("extra_info", {}).get("Table"))
        return None if t is None else (frozenset([t]), [])
    parts = [raw_joins(k, by_table) for k in kids]
    if any(p is None for p in parts):
        return None
    leaves = frozenset().union(*[p[0] for p in parts])
    joins = [j for p in parts for j in p[1]]
    return leaves, joins + ([(leaves, name)] if len(kids) == 2 else [])


def check_native(spec):
    pb.reset()
    db = fresh_db()
    fill(db, spec["data"])
    q = spec["q"]
    g = q["g"]
    query = pb.parse(query_sql(q))
    DatabasePool.get_instance().register_database("main", db)
    est = native.NativeCardinalityEstimator() if spec["seed"] % 2 else native.NativeCardinalityEstimator(db)
    est.initialize(db, query)
    for idx, style in spec["subsets"]:
        is_card(est.calculate_estimate(query, tables_arg(q, idx, style)), estimate_of(db, fragment_sql(q, idx, "*")), "native estimate of %s", fragment_sql(q, idx, "*"))
    by_table = {b: graphlib.tab(g, i) for i, (b, _) in enumerate(g["tabs"])}
    if q["tail"] == "explain":
        return
    plan = json.loads(db.cursor().execute("EXPLAIN (FORMAT JSON) " + str(query).rstrip(";")).fetchall()[0][1])
    found = raw_joins(plan[0] if isinstance(plan, list) else plan, by_table)
    settings = None
    try:
        settings = presets.fetch(spec["key"], database=db if spec["seed"] % 3 else None)
    except ValueError:
        require(spec["key"].lower() != "native", "presets.fetch(%r) is unknown", spec["key"])
    if found is None or len(found[0]) != len(g["tabs"]):
        return
    joins = {s for s, _ in found[1]}
    full = native.NativeOptimizer(db).optimize_query(query)
    eq(full.tables(), query.tables(), "tables of the native plan")
    stage = settings.build_join_order_optimizer() if settings else native.NativeJoinOrderOptimizer(db)
    order = stage.optimize_join_order(query)
    eq({s for s in tree_sets(order) if len(s) > 1}, joins, "joins of the native join order")
    eq({s for s in tree_sets(order) if len(s) == 1}, {frozenset([t]) for t in query.tables()}, "tables of the native join order")
    selection = settings.build_physical_operator_selection() if settings else native.NativePhysicalOperatorSelection(db)
    ops = selection.select_physical_operators(query, None)
    ops_expected = {s for s, name in found[1] if name in ("HASH_JOIN", "NESTED_LOOP_JOIN", "BLOCKWISE_NL_JOIN", "PIECEWISE_MERGE_JOIN")}
    require(ops_expected <= set(ops.join_operators) <= joins, "operators for the joins %s instead of %s", set(ops.join_operators), ops_expected)
    eq(set(ops.scan_operators), set(query.tables()), "operators for the scans")
    if spec["hint"]:
        given = [spec["seed"] % len(g["tabs"])]
        while len(given) < len(g["tabs"]):
            given.append(next(i for i in range(len(g["tabs"])) if i not in given and graphlib.connected([*given, i], list(graphlib.edges(g)))))
        tree = left_deep(q, given, 0)
        ops = selection.select_physical_operators(query, tree)
        require(set(ops.join_operators) <= set(tree_sets(tree)), "operators for other joins than those of the join order %s: %s", tree, set(ops.join_operators))
        eq(set(ops.scan_operators), set(query.tables()), "operators for the scans of a given join order")
    params = native.NativePlanParameterization(db).generate_plan_parameters(query, None, None)
    require(params is not None, "NativePlanParameterization returns no parameters")
    require(joins | {frozenset([t]) for t in query.tables()} <= set(params.cardinalities), "cardinalities are missing: %s", sorted(map(str, params.cardinalities)))


FACETS = [
    Facet("precise", precise, check_precise, 600, 40000, "an intermediate of at least two tables was estimated",
          nontrivial=lambda s: any((o[0] == "est" and len(o[2]) > 1) or o[0] == "all" for o in s["ops"]) and len(s["queries"][0]["g"]["tabs"]) > 1,
          classify=lambda s: [f"cache={s['cache']}", f"tail={s['queries'][0]['tail'] or 'none'}"] + (["dml"] if any(o[0] == "dml" for o in s["ops"]) else [])),
    Facet("precomputed", precomputed, check_precomputed, 500, 30000, "an estimate was looked up and at least one value is stored",
          nontrivial=lambda s: bool(s["rows"]) and any(o[0] == "est" for o in s["ops"]), classify=lambda s: [f"live={s['live']}", f"default={s['default']}", f"save={s['save']}"]),
    Facet("distortion", distortion, check_distortion, 800, 20000, "at least one valid, positive cardinality is distorted",
          nontrivial=lambda s: any(isinstance(c, int) and c > 0 for c in s["cards"]), classify=lambda s: [s["strategy"], f"factor={s['factor']}"]),
    Facet("native", native_stages, check_native, 500, 20000, "the query joins at least two tables",
          nontrivial=lambda s: len(s["q"]["g"]["tabs"]) > 1, classify=lambda s: [f"tables={len(s['q']['g']['tabs'])}", f"tail={s['q']['tail'] or 'none'}"]),
]
