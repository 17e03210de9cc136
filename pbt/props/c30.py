"""C30: generated benchmark queries respect all requested limits, join along foreign keys and run on the database."""
from __future__ import annotations

import random
import signal
from pathlib import Path

import networkx as nx

from pbt import pb
from pbt.draw import composite
from pbt.engine import Facet, fail, require
from postbound import TableReference
from postbound import duckdb as dd
from postbound.db import DatabasePool
from postbound.experiments import querygen

ASSUMPTIONS = ["tables without foreign keys between them may be combined by a cross product once the own component of the schema is exhausted",
               "filters on columns that contain no value at all cannot be generated, limits that no query can satisfy are not judged"]
NAMES = ["a", "b", "c", "title", "cast_info", "order"]
COLS = ["x", "y", "note", "kind", "year", "from", "Name"]
TYPES = {"INTEGER": ["0", "1", "2", "-5", "70000"], "SMALLINT": ["0", "1", "7"], "BIGINT": ["0", "3", "5000000000"], "DOUBLE": ["0.0", "1.5", "-2.25", "1e20"],
         "REAL": ["0.5", "2.0"], "DECIMAL(10,2)": ["0.10", "12.50", "3.00"], "VARCHAR": ["''", "'abc'", "'it''s'", "'0'", "'50%'", "'a\"b'", "'1994'"],
         "DATE": ["'2020-01-31'", "'1999-12-01'"], "TIMESTAMP": ["'2020-01-31 10:11:12'", "'1999-12-01 00:00:00'"], "TIME": ["'10:11:12'", "'00:00:01'"],
         "BOOLEAN": ["TRUE", "FALSE"]}
NUMERIC = {t for t in TYPES if t not in ("VARCHAR", "BOOLEAN")}


def qn(name):
    return '"' + name.replace('"', '""') + '"'


@composite
def queries(d):
    tables = []
    for k, name in enumerate(d.some(NAMES, 1, 5)):
        t = {"name": name, "pk": d.flag(85), "cols": [], "fks": [], "rows": []}
        for c in d.some(COLS, 0, 3):
            t["cols"].append([c, d.choice(sorted(TYPES))])
        for j in range(k + 1):
            if (j < k and tables[j]["pk"] or j == k and t["pk"]) and d.flag(55 if j < k else 8):
                for n in range(1 if d.flag(80) else 2):
                    t["fks"].append([f"r{j}_{n}", j])
        if not (t["pk"] or t["cols"] or t["fks"]):
            t["cols"].append(["x", "INTEGER"])
        tables.append(t)
    for t in tables:
        n = d.weighted([(1, 0), (3, 1), (4, 2), (4, 3)])
        for i in range(n):
            row = [str(i)] if t["pk"] else []
            for _, typ in t["cols"]:
                row.append("NULL" if d.flag(15) else d.choice(TYPES[typ]))
            for _, j in t["fks"]:
                m = len(tables[j]["rows"]) if tables[j] is not t else i
                row.append("NULL" if not m or d.flag(10) else str(d.int(0, m - 1)))
            t["rows"].append(row)
    n = len(tables)
    opts = {"count_star": d.flag(30), "seed": d.int(0, 999)}
    ignore = d.subset(range(n), 15) if d.flag(40) else []
    ignore = [t for t in ignore if len(ignore) < n]
    lo = d.int(1, max(1, n - len(ignore))) if d.flag(50) else None
    hi = d.int(lo or 1, n + 1) if d.flag(50) else None
    opts.update(ignore=ignore, min_tables=lo, max_tables=hi)
    opts.update(filter_keys=None if d.flag(50) else d.flag(40), numeric=None if d.flag(60) else d.flag(75))
    fmax = d.weighted([(4, None), (2, 0), (3, 1), (3, 2), (2, 4)])
    opts.update(max_filters=fmax, min_filters=None if d.flag(50) else d.int(0, 3 if fmax is None else fmax))
    if d.flag(6):
        opts["min_tables"], opts["max_tables"] = d.choice([(3, 2), (2, 1), (0, 2), (n + 1, None), (-1, 1)])
    return {"tables": tables, "view": d.flag(15), "opts": opts, "k": d.int(3, 8), "pool": d.flag(15)}


def column_types(spec, t):
    return ([("id", "INTEGER")] if t["pk"] else []) + [tuple(c) for c in t["cols"]] + [(c, "INTEGER") for c, _ in t["fks"]]


def filterable(spec, t):
    o = spec["opts"]
    keys = {"id"} | {c for c, _ in t["fks"]}
    cols = column_types(spec, t)
    if o["filter_keys"] is False:
        cols = [c for c in cols if c[0] not in keys]
    if o["numeric"]:
        cols = [c for c in cols if c[1] in NUMERIC]
    return [c for c, _ in cols]


def nonnull(spec, t, col):
    k = [c for c, _ in column_types(spec, t)].index(col)
    return any(r[k] != "NULL" for r in t["rows"])


def fill(con, spec):
    for t in spec["tables"]:
        parts = [f"{qn(c)} {typ}" + (" PRIMARY KEY" if c == "id" else "") for c, typ in column_types(spec, t)]
        parts += [f"FOREIGN KEY ({qn(c)}) REFERENCES {qn(spec['tables'][j]['name'])} (id)" for c, j in t["fks"]]
        con.execute(f"CREATE TABLE {qn(t['name'])} ({', '.join(parts)})")
    for t in spec["tables"]:
        for r in t["rows"]:
            con.execute(f"INSERT INTO {qn(t['name'])} VALUES ({', '.join(r)})")
    if spec["view"]:
        con.execute(f"CREATE VIEW vw AS SELECT * FROM {qn(spec['tables'][0]['name'])}")


def arguments(spec):
    o = spec["opts"]
    kw = {"count_star": o["count_star"]}
    for key in ("min_tables", "max_tables", "min_filters", "max_filters"):
        if o[key] is not None:
            kw[key] = o[key]
    if o["ignore"]:
        kw["ignore_tables"] = {TableReference(spec["tables"][k]["name"]) for k in o["ignore"]}
    if o["filter_keys"] is not None:
        kw["filter_key_columns"] = o["filter_keys"]
    if o["numeric"] is not None:
        kw["numeric_filters"] = o["numeric"]
    return kw


def satisfiable(spec, active):
    """every choice of tables offers enough columns with values: no request is impossible"""
    o = spec["opts"]
    need = o["min_filters"] or 0
    return all(len([c for c in filterable(spec, t) if nonnull(spec, t, c)]) >= need for t in active)


class _Hang(BaseException):
    pass


def within(seconds, what, fn):
    """CPU time limit (generating one query takes milliseconds)"""
    fired = []

    def alarm(signum, frame):
        fired.append(1)
        raise _Hang()
    old = signal.signal(signal.SIGVTALRM, alarm)
    signal.setitimer(signal.ITIMER_VIRTUAL, seconds)
    try:
        return fn()
    except BaseException:  # noqa: BLE001
        if not fired:
            raise
        fail(f"{what}: no answer within {seconds} s of CPU time")
    finally:
        signal.setitimer(signal.ITIMER_VIRTUAL, 0)
        signal.signal(signal.SIGVTALRM, old)


def check_queries(spec):
    pb.reset()
    random.seed(spec["opts"]["seed"])
    db = dd.DuckDBInterface(Path(":memory:"))
    try:
        fill(db._cur, spec)
        if spec["pool"]:
            DatabasePool.get_instance().register_database("db", db)
        return run(spec, db)
    finally:
        db.close()
        if spec["pool"]:
            DatabasePool.get_instance().clear() if hasattr(DatabasePool.get_instance(), "clear") else None


def run(spec, db):
    o = spec["opts"]
    active = [t for k, t in enumerate(spec["tables"]) if k not in o["ignore"]]
    lo = 1 if o["min_tables"] is None else o["min_tables"]
    hi = len(active) if o["max_tables"] is None else min(o["max_tables"], len(active))
    gen = querygen.generate_query(None if spec["pool"] else db, **arguments(spec))
    if lo < 1 or hi < lo:
        try:
            q = next(gen)
        except ValueError:
            return {"error": True, "filters": 0, "tables": 0}
        fail(f"tables between {lo} and {hi} are impossible, but {q} is generated")
    full = satisfiable(spec, active)
    if not full and o["min_filters"]:
        return {"error": False, "filters": 0, "tables": 0}
    schema = nx.Graph()
    schema.add_nodes_from(t["name"] for t in active)
    by = {t["name"]: t for t in active}
    keys = {}
    for t in active:
        for c, j in t["fks"]:
            r = spec["tables"][j]
            if r["name"] in by and r is not t:
                schema.add_edge(t["name"], r["name"])
                keys.setdefault(frozenset((t["name"], r["name"])), set()).add(frozenset([(t["name"], c), (r["name"], "id")]))
    parts = [set(c) for c in nx.connected_components(schema)]
    seen_filters = most = 0
    for _ in range(spec["k"]):
        q = within(10, f"generate_query({arguments(spec)})", lambda: next(gen))
        tabs = sorted(t.full_name for t in q.tables())
        require(len(q.tables()) == len(set(tabs)) and set(tabs) <= set(by), "%s uses tables other than %s", q, sorted(by))
        require(lo <= len(tabs) <= hi, "%s has not between %s and %s tables", q, lo, hi)
        touched = [p for p in parts if p & set(tabs)]
        for p in touched:
            require(nx.is_connected(schema.subgraph(p & set(tabs))), "%s: the tables %s are not connected in the schema", q, sorted(p & set(tabs)))
        require(sum(not p <= set(tabs) for p in touched) <= 1, "%s crosses components of the schema although the tables %s are left", q, parts)
        preds = q.predicates()
        joins, filters = list(preds.joins()), list(preds.filters())
        got = {}
        for j in joins:
            cols = frozenset((c.table.full_name, c.name) for c in j.columns())
            pair = frozenset(t for t, _ in cols)
            require(pair not in got, "%s joins %s twice", q, sorted(pair))
            got[pair] = cols
            require(str(j).count("=") == 1 and cols in keys.get(pair, ()), "%s: %s does not follow a foreign key", q, j)
        want = {p for p in keys if p <= set(tabs)}
        require(set(got) == want, "%s joins %s instead of %s", q, [sorted(p) for p in got], [sorted(p) for p in want])
        usable = {(t, c) for t in tabs for c in filterable(spec, by[t])}
        used = []
        for f in filters:
            cols = [(c.table.full_name, c.name) for c in f.columns()]
            require(len(cols) == 1 and cols[0] in usable, "%s: filter %s is none of the columns %s", q, f, sorted(usable))
            used.append(cols[0])
            value = f.second_argument.value
            found = db._cur.execute(f"SELECT COUNT(*) FROM {qn(cols[0][0])} WHERE {qn(cols[0][1])} = ?", [value]).fetchall()[0][0]
            require(found >= 1, "%s: value %r of filter %s does not occur", q, value, f)
        require(len(used) == len(set(used)), "%s filters a column twice", q)
        top = len(usable) if o["max_filters"] is None else o["max_filters"]
        require(len(filters) <= top, "%s has more than %s filters", q, top)
        if full:
            require(len(filters) >= (o["min_filters"] or 0), "%s has less than %s filters", q, o["min_filters"])
        require(str(q).upper().startswith("SELECT COUNT(*)" if o["count_star"] else "SELECT *"), "%s: count_star=%s", q, o["count_star"])
        judge(db, q, tabs, joins, filters, o)
        seen_filters, most = seen_filters + len(filters), max(most, len(tabs))
    return {"error": False, "filters": seen_filters, "tables": most}


def judge(db, q, tabs, joins, filters, o):
    """the query runs and computes the join of its tables under its predicates"""
    try:
        rows = db.execute_query(q, raw=True)
    except Exception as e:  # noqa: BLE001
        fail(f"{q} does not run: {type(e).__name__} {e}")
    if not joins and not filters:
        n = 1
        for t in tabs:
            n *= db._cur.execute(f"SELECT COUNT(*) FROM {qn(t)}").fetchall()[0][0]
        require((rows[0][0] if o["count_star"] else len(rows)) == n, "%s returns %s rows instead of %s", q, rows, n)


def nontrivial(spec):
    o = spec["opts"]
    active = [t for k, t in enumerate(spec["tables"]) if k not in o["ignore"]]
    lo, hi = (1 if o["min_tables"] is None else o["min_tables"]), len(active) if o["max_tables"] is None else min(o["max_tables"], len(active))
    return 1 <= lo <= hi and (satisfiable(spec, active) or not o["min_filters"]) and (hi > 1 or o["max_filters"] != 0)


FACETS = [
    Facet("queries", queries, check_queries, 450, 20000, "the request can be satisfied and the generated queries may join several tables or have filters",
          nontrivial=nontrivial, shards=8, classify=lambda s: [f"tables={len(s['tables']) - len(s['opts']['ignore'])}", f"max_filters={s['opts']['max_filters']}", f"numeric={s['opts']['numeric']}",
                                                     f"keys={s['opts']['filter_keys']}", "fks" if any(t["fks"] for t in s["tables"]) else "no fks"]),
]
