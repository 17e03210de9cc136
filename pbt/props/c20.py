"""C20: the schema interface reports exactly the tables, columns, keys and indexes of the database (checked on quacklab)."""
from __future__ import annotations

import atexit
import warnings
from pathlib import Path

from pbt import pb
from pbt.draw import composite
from pbt.engine import Facet, fail, require
from postbound import ColumnReference, TableReference
from postbound._core import UnboundColumnError, VirtualTableError
from postbound.db import DatabaseSchema
from postbound import duckdb as dd

ASSUMPTIONS = ["indexes that exist only because of UNIQUE or FOREIGN KEY constraints may or may not be reported as secondary indexes on DuckDB",
               "compound keys and indexes: only what the documentation says about them is judged"]
NAMES = ["r", "s", "t", "u", "title", "movie_info", "role", "cast_info"]
COLS = ["id", "x", "y", "name", "kind", "note", "value", "ref", "title", "role", "year"]
TYPES = ["INTEGER", "BIGINT", "VARCHAR", "DOUBLE", "DATE", "BOOLEAN", "TIMESTAMP", "DECIMAL(10,2)", "SMALLINT"]
INT_TYPES = ["INTEGER", "BIGINT", "VARCHAR"]


def gen_table(d, name, earlier, compound):
    cols = [[c, d.choice(TYPES), d.flag(30)] for c in d.some(COLS, 1, 4)]
    names = [c for c, _, _ in cols]
    pk = d.weighted([(2, []), (5, names[:1]), (1, names[-1:]), (2 if compound and len(names) > 1 else 0, names[:2])])
    uniques = [d.some(names, 1, 2 if d.flag(25) and len(names) > 1 else 1) for _ in range(d.weighted([(5, 0), (2, 1), (1, 2)]))]
    uniques = [u for k, u in enumerate(uniques) if u not in uniques[:k] and sorted(u) != sorted(pk)]
    t = {"name": name, "cols": cols, "pk": pk, "uniques": uniques, "fks": [], "indexes": [], "schema": ""}
    targets = [(o, k[0]) for o in earlier for k in ([o["pk"]] if len(o["pk"]) == 1 else []) + [u for u in o["uniques"] if len(u) == 1]]
    for _ in range(d.weighted([(3, 0), (4, 1), (3, 2), (1, 3)]) if targets else 0):
        o, key = d.choice(targets)
        typ = next(ty for c, ty, _ in o["cols"] if c == key)
        c = d.choice(names)
        if any(f[0] == c for f in t["fks"]):      # several foreign keys on one column need the same type
            if next(ty for n, ty, _ in cols if n == c) != typ:
                continue
        else:
            next(x for x in cols if x[0] == c)[1] = typ
        if [c, o["name"], key] not in t["fks"]:
            t["fks"].append([c, o["name"], key])
    if compound and d.flag(25):
        for o in earlier:
            if len(o["pk"]) == 2 and len(names) > 1 and not t["fks"]:
                for c, k in zip(names[:2], o["pk"]):
                    next(x for x in cols if x[0] == c)[1] = next(ty for n, ty, _ in o["cols"] if n == k)
                t["cfk"] = [names[:2], o["name"], o["pk"]]
                break
    for k in range(d.weighted([(4, 0), (3, 1), (2, 2), (1, 3)])):
        t["indexes"].append([f"i_{name}_{k}", d.some(names, 1, 2 if d.flag(40) and len(names) > 1 else 1), d.flag(10)])
    return t


@composite
def strategy(d):
    compound = d.flag(35)
    tables = []
    for name in d.some(NAMES, 1, 4):
        tables.append(gen_table(d, name, tables, compound))
    other = []
    if d.flag(30):
        for name in d.some([t["name"] for t in tables] + ["only"], 1, 2):
            other.append({**gen_table(d, name, other, False), "schema": "s2"})
    views = [[f"v{k}", d.choice(tables)["name"]] for k in range(d.weighted([(4, 0), (2, 1), (1, 2)]))]
    if other and d.flag(40):
        views.append(["s2.w", d.choice(other)["name"]])
    if other and d.flag(30) and "only" not in [t["name"] for t in other]:
        views.append(["s2." + d.choice([t["name"] for t in tables if t["name"] not in [o["name"] for o in other]] or ["w2"]), other[0]["name"]])
    order = d.permutation([t["name"] for t in tables] + [v for v, _ in views if "." not in v])
    return {"tables": tables, "other": other, "views": views, "compound": compound, "order": order, "alias": d.flag(30), "lookup": [d.choice(COLS), d.choice(["str", "unbound", "bound"])]}


def ddl(t):
    full = f"{t['schema']}.{t['name']}" if t["schema"] else t["name"]
    parts = [f"{c} {ty}" + (" NOT NULL" if nn else "") for c, ty, nn in t["cols"]]
    if t["pk"]:
        parts.append(f"PRIMARY KEY ({', '.join(t['pk'])})")
    parts += [f"UNIQUE ({', '.join(u)})" for u in t["uniques"]]
    pre = f"{t['schema']}." if t["schema"] else ""
    parts += [f"FOREIGN KEY ({c}) REFERENCES {pre}{o} ({k})" for c, o, k in t["fks"]]
    if t.get("cfk"):
        c, o, k = t["cfk"]
        parts.append(f"FOREIGN KEY ({', '.join(c)}) REFERENCES {pre}{o} ({', '.join(k)})")
    yield f"CREATE TABLE {full} ({', '.join(parts)})"
    for name, cols, uniq in t["indexes"]:
        yield f"CREATE {'UNIQUE ' if uniq else ''}INDEX {name} ON {full} ({', '.join(cols)})"


def raises(exc, fn, *args):
    try:
        r = fn(*args)
    except exc:
        return
    fail(f"{getattr(fn, '__name__', fn)}{args} returns {r} instead of raising {exc.__name__}")


def table_ref(t, alias=""):
    return TableReference(t["name"], alias, schema=t["schema"])


def check_table(schema, t, base, ref):
    """column-level information of one table"""
    what = f"{t['schema']}.{t['name']}"
    cols = schema.columns(ref)
    require([c.name for c in cols] == [c for c, _, _ in t["cols"]], "columns of %s are %s instead of %s", what, cols, t["cols"])
    require(all(c.table == ref for c in cols), "the columns %s do not belong to %s", cols, ref)
    require(not schema.is_view(ref), "%s is a view", what)
    if len(t["pk"]) < 2:
        pk = schema.primary_key_column(ref)
        require((pk.name if pk is not None else None) == (t["pk"][0] if t["pk"] else None), "primary key of %s is %s instead of %s", what, pk, t["pk"])
        require(pk is None or pk.table == ref, "primary key %s does not belong to %s", pk, ref)
    for k, (c, typ, nn) in enumerate(t["cols"]):
        col = cols[k] if k % 2 else ColumnReference(c, ref)
        single_pk = t["pk"] == [c]
        require(schema.is_primary_key(col) == single_pk, "is_primary_key(%s.%s) is %s, key is %s", what, c, not single_pk, t["pk"])
        require(schema.datatype(col) == typ, "datatype of %s.%s is %s instead of %s", what, c, schema.datatype(col), typ)
        require(schema.is_nullable(col) == (not nn and c not in t["pk"]), "is_nullable(%s.%s) is %s", what, c, schema.is_nullable(col))
        explicit = {n for n, cs, _ in t["indexes"] if cs == [c]}
        compound = {n for n, cs, _ in t["indexes"] if c in cs and len(cs) > 1}
        unique = [c] in t["uniques"]
        fk = any(f[0] == c for f in t["fks"])
        has = schema.has_secondary_index(col)
        in_compound = any(c in u and len(u) > 1 for u in t["uniques"]) or c in t.get("cfk", [[]])[0]
        if base:        # the default implementation knows about constraints, but not about explicit indexes
            if not in_compound:
                require(has == (unique or fk), "has_secondary_index(%s.%s) is %s", what, c, has)
        elif explicit:
            require(has, "no secondary index on %s.%s, but there are %s", what, c, explicit)
        elif not unique and not fk and not in_compound:
            require(not has, "a secondary index on %s.%s", what, c)
        require(schema.has_index(col) == (has or single_pk), "has_index(%s.%s) is %s: %s, %s", what, c, schema.has_index(col), has, single_pk)
        idx = schema.indexes_on(col)
        if not base:
            require(explicit <= idx, "indexes on %s.%s are %s, but %s exist", what, c, idx, explicit)
        else:
            explicit = set()
        n_certain = single_pk + unique + (len({k for cc, _, k in t["fks"] if cc == c}) if base else 0)
        n_maybe = len(compound) + sum(c in u and len(u) > 1 for u in t["uniques"]) + (len(t["pk"]) > 1 and c in t["pk"]) + (c in t.get("cfk", [[]])[0]) + len(t["fks"])
        require(n_certain <= len(idx - explicit) <= n_certain + n_maybe, "indexes on %s.%s are %s, but there are %s and %s constraints", what, c, idx, explicit, n_certain)
        if base != "duckdb":
            want = {(o, k) for cc, o, k in t["fks"] if cc == c}
            got = schema.foreign_keys_on(col)
            pairs = {(g.table.full_name, g.name) for g in got}
            if t.get("cfk") and c in t["cfk"][0]:
                pairs -= {(t["cfk"][1], k) for k in t["cfk"][2]}
                want -= {(t["cfk"][1], k) for k in t["cfk"][2]}
            require(pairs == want, "foreign keys on %s.%s are %s instead of %s", what, c, got, want)
            require(all(g.table == TableReference(g.table.full_name, schema=t["schema"]) for g in got), "foreign keys of %s lead to %s", what, got)


class StandardCursor:
    """reads the constraints from views with the contents the SQL standard (and Postgres) defines"""

    def __init__(self, cur):
        self._cur = cur

    def execute(self, sql, params=None):
        for view in ("table_constraints", "key_column_usage", "constraint_column_usage"):
            sql = sql.replace(f"information_schema.{view}", f"pgis.{view}")
        return self._cur.execute(sql, params)

    def __getattr__(self, name):
        return getattr(self._cur, name)


class StandardDB:
    def __init__(self, db):
        self._db = db

    def cursor(self):
        return StandardCursor(self._db.cursor())

    def __getattr__(self, name):
        return getattr(self._db, name)


def fill_standard(con, tables):
    """constraint_column_usage holds the referenced columns of foreign keys, DuckDB's own view does not"""
    con.execute("CREATE SCHEMA pgis")
    ident = "constraint_catalog VARCHAR, constraint_schema VARCHAR, constraint_name VARCHAR, table_catalog VARCHAR, table_schema VARCHAR, table_name VARCHAR"
    con.execute(f"CREATE TABLE pgis.table_constraints ({ident}, constraint_type VARCHAR)")
    con.execute(f"CREATE TABLE pgis.key_column_usage ({ident}, column_name VARCHAR, ordinal_position INTEGER)")
    con.execute(f"CREATE TABLE pgis.constraint_column_usage ({ident}, column_name VARCHAR)")
    (cat,), = con.execute("SELECT current_database()").fetchall()
    for t in tables:
        schema, name = t["schema"] or "main", t["name"]
        cons = [("PRIMARY KEY", f"{name}_pkey", t["pk"], name, t["pk"])] if t["pk"] else []
        cons += [("UNIQUE", f"{name}_{'_'.join(u)}_key", u, name, u) for u in t["uniques"]]
        cons += [("FOREIGN KEY", f"{name}_{c}_fkey{k}", [c], o, [key]) for k, (c, o, key) in enumerate(t["fks"])]
        if t.get("cfk"):
            cons.append(("FOREIGN KEY", f"{name}_cfkey", t["cfk"][0], t["cfk"][1], t["cfk"][2]))
        for kind, cname, cols, target, used in cons:
            con.execute("INSERT INTO pgis.table_constraints VALUES (?, ?, ?, ?, ?, ?, ?)", [cat, schema, cname, cat, schema, name, kind])
            for k, c in enumerate(cols):
                con.execute("INSERT INTO pgis.key_column_usage VALUES (?, ?, ?, ?, ?, ?, ?, ?)", [cat, schema, cname, cat, schema, name, c, k + 1])
            for c in used:
                con.execute("INSERT INTO pgis.constraint_column_usage VALUES (?, ?, ?, ?, ?, ?, ?)", [cat, schema, cname, cat, schema, target, c])


def check(spec):
    pb.reset()
    db = dd.DuckDBInterface(Path(":memory:"))
    try:
        con = db._cur
        con.execute("CREATE SCHEMA s2")
        views = list(spec["views"])
        for t in spec["tables"] + spec["other"]:
            for st in ddl(t):
                con.execute(st)
        for v, t in views:
            con.execute(f"CREATE VIEW {v} AS SELECT * FROM {'s2.' if '.' in v else ''}{t}")
        run(spec, db)
        fill_standard(con, spec["tables"] + spec["other"])
        standard = DatabaseSchema(StandardDB(db), prep_placeholder="?")
        for t in sorted(spec["tables"], key=lambda t: -len(t["fks"]))[:1] + spec["other"][-1:]:
            check_table(standard, t, "standard", table_ref(t))
    finally:
        db.close()
        atexit.unregister(db.close)


def run(spec, db):
    schema, base = db.schema(), DatabaseSchema(db, prep_placeholder="?")
    byname = {t["name"]: t for t in spec["tables"]}
    local_views = [v for v, _ in spec["views"] if "." not in v]
    names = set(byname)
    for _ in range(2):
        got = schema.tables()
        require(got == {TableReference(n) for n in names}, "tables are %s instead of %s", got, names)
        got.clear()
    require(set(schema) == {TableReference(n) for n in names} and len(schema) == len(names), "iteration yields %s", list(schema))
    require(base.tables() == {TableReference(n) for n in names | set(local_views)}, "tables and views are %s", base.tables())
    for k, n in enumerate(spec["order"]):
        if n in local_views:
            for s in (schema, base):
                require(s.is_view(n) and s.is_view(TableReference(n)), "%s is not a view", n)
                require([c.name for c in s.columns(n)] == [c for c, _, _ in byname[dict(spec["views"])[n]]["cols"]], "columns of view %s are %s", n, s.columns(n))
            continue
        t = byname[n]
        check_table(schema, t, "", table_ref(t, "al" if spec["alias"] else ""))
        if k < 1:
            check_table(base, t, "duckdb", table_ref(t))
        require([c.name for c in schema.columns(n)] == [c for c, _, _ in t["cols"]], "columns(%s) are %s", n, schema.columns(n))
        require(not schema.is_view(n), "%s is a view", n)
    for t in spec["other"]:
        check_table(schema, t, "", table_ref(t))
        check_table(base, t, "duckdb", table_ref(t))
    for v, _ in spec["views"]:
        if "." in v:
            require(schema.is_view(TableReference(v[3:], schema="s2")), "%s is not a view", v)
    # missing, virtual and unbound references
    virt = TableReference.create_virtual("sub")
    vcol = ColumnReference("x", virt)
    for s in (schema, base):
        require(s.columns("missing") == [], "columns of a missing table")
        raises(ValueError, s.is_view, "missing")
        raises(VirtualTableError, s.columns, virt)
        raises(VirtualTableError, s.is_view, virt)
        for f in () if spec["alias"] else (s.is_primary_key, s.has_secondary_index, s.indexes_on, s.foreign_keys_on, s.has_index, s.datatype, s.is_nullable):
            raises(VirtualTableError, f, vcol)
            raises(UnboundColumnError, f, ColumnReference("x"))
    # column lookup
    colname, kind = spec["lookup"]
    cands = [TableReference(n, f"c{k}" if spec["alias"] else "") for k, n in enumerate(spec["order"])]
    have = [c for c in cands if colname in [x for x, _, _ in byname[dict(spec["views"]).get(c.full_name, c.full_name)]["cols"]]]
    col = {"str": colname, "unbound": ColumnReference(colname), "bound": ColumnReference(colname, have[0] if have else None)}[kind]
    for s in (schema, base):
        require(s.lookup_column(col, cands) == (have[0] if have else None), "lookup_column(%s) is %s instead of %s", col, s.lookup_column(col, cands), have[:1])
        require(s.lookup_column(col, iter(cands)) == (have[0] if have else None), "lookup_column(%s) differs for iterators", col)
        if have:
            require(s.lookup_column(col, cands, expect_match=True) == have[0], "lookup_column(%s, expect_match) differs", col)
        else:
            raises(ValueError, lambda: s.lookup_column(col, cands, expect_match=True))
    if not any(len(t["pk"]) > 1 for t in spec["tables"]):
        check_graph(spec, schema, byname, local_views, db)


def check_graph(spec, schema, byname, local_views, db):
    fks = {((n, c), (o, k)) for n, t in byname.items() for c, o, k in t["fks"]}
    g = schema.as_graph()
    require(set(g.nodes) == {TableReference(n) for n in byname}, "schema graph has nodes %s", list(g.nodes))
    for n, data in g.nodes(data=True):
        t = byname[n.full_name]
        require([c.name for c in data["columns"]] == [c for c, _, _ in t["cols"]], "columns of %s are %s", n, data["columns"])
        require({c.name: ty for c, ty in data["data_type"].items()} == {c: ty for c, ty, _ in t["cols"]}, "types of %s are %s", n, data["data_type"])
        pk = data["primary_key"]
        require((pk.name if pk else None) == (t["pk"][0] if t["pk"] else None), "primary key of %s is %s", n, pk)
    got = [(pair(f.fk_col), pair(f.referenced_col)) for _, _, fs in g.edges(data="foreign_keys") for f in fs]
    require(sorted(got) == sorted(fks), "foreign keys of the graph are %s instead of %s", got, fks)
    for a, b, fs in g.edges(data="foreign_keys"):
        require(all(f.fk_col.table == a and f.referenced_col.table == b for f in fs), "edge %s -> %s has foreign keys %s", a, b, fs)
    # equivalence classes of the foreign key relation
    parent = {}

    def find(x):
        while parent.setdefault(x, x) != x:
            x = parent[x]
        return x
    for a, b in fks:
        parent[find(a)] = find(b)
    classes = {}
    for x in list(parent):
        classes.setdefault(find(x), set()).add(x)
    want = sorted(map(sorted, classes.values()))
    got = sorted(sorted(pair(c) for c in cls) for cls in schema.join_equivalence_classes())
    require(got == want, "join equivalence classes are %s instead of %s", got, want)
    keys = {pair(k): {pair(c) for c in v} for k, v in schema.join_equivalence_keys().items()}
    require(keys == {x: classes[find(x)] for x in parent}, "join equivalence keys are %s instead of %s", keys, want)
    # mapping access
    for n, t in [(n, byname.get(n)) for n in spec["order"][:1]]:
        ref = TableReference(n)
        info = schema[ref]
        want_cols = [c for c, _, _ in (t or byname[dict(spec["views"])[n]])["cols"]]
        require(info.table == ref and [c.column.name for c in info.columns] == want_cols and [c.name for c in info] == want_cols and len(info) == len(want_cols), "schema[%s] is %s", n, info)
        require({(pair(f.fk_col), pair(f.referenced_col)) for f in info.outgoing_foreign_keys} == {f for f in fks if f[0][0] == n}, "outgoing foreign keys of %s are %s", n, info.outgoing_foreign_keys)
        require({(pair(f.fk_col), pair(f.referenced_col)) for f in info.incoming_foreign_keys} == {f for f in fks if f[1][0] == n}, "incoming foreign keys of %s are %s", n, info.incoming_foreign_keys)
        require((info.primary_key.name if info.primary_key else None) == (t["pk"][0] if t and t["pk"] else None), "primary key of %s is %s", n, info.primary_key)
        require([str(c) for c in schema[n].columns] == [str(c) for c in info.columns], "schema[%r] differs from schema[%s]", n, ref)
        require((n if len(n) % 2 else ref) in schema, "%s is not contained", n)
        for c, ty, nn in (t or {"cols": []})["cols"]:
            for ci in (info[c], info[ColumnReference(c, ref)], schema[ColumnReference(c, ref)], schema[f"{n}.{c}"]):
                col = ColumnReference(c, ref)
                require((ci.column, ci.table, ci.datatype, ci.nullable, ci.primary_key) == (col, ref, ty, not nn and c not in t["pk"], t["pk"] == [c]), "info on %s.%s is %s", n, c, ci)
                require(ci.indexed == schema.has_index(col), "info on %s.%s is %s", n, c, ci)
        raises(KeyError, lambda: info["nosuchcol"])
        raises(KeyError, lambda: schema[f"{n}.nosuchcol"])
        require(ColumnReference("nosuchcol", ref) not in schema, "missing column is contained")
    for key in ("missing", "missing.id", TableReference("missing")):
        raises(KeyError, lambda: schema[key])
        require(key not in schema, "%s is contained", key)
    if not spec["alias"]:
        return
    desc = db.describe()
    require({x["table"] for x in desc["schema_info"]} == set(byname), "described tables are %s", desc["schema_info"])
    for x in desc["schema_info"]:
        t = byname[x["table"]]
        require(x["n_rows"] == 0 and [c["column"].split(".")[-1] for c in x["columns"]] == [c for c, _, _ in t["cols"]], "description of %s is %s", x["table"], x)
        for c, (n, _, _) in zip(x["columns"], t["cols"]):
            require({pair(f) for f in c["foreign_keys"]} == {(o, k) for cc, o, k in t["fks"] if cc == n} and c["indexed"] == schema.has_index(ColumnReference(n, TableReference(t["name"]))), "description of %s is %s", n, c)


def pair(col):
    return col.table.full_name, col.name


FACETS = [
    Facet("schema", strategy, check, quick=240, thorough=8000, shards=8,
          rule="schemas of 1-5 tables with random keys, unique constraints, foreign keys, indexes, views and a second schema; non-trivial: at least 2 tables and one foreign key or index",
          nontrivial=lambda s: len(s["tables"]) > 1 and any(t["fks"] or t["indexes"] for t in s["tables"]),
          classify=lambda s: [*(["compound"] if s["compound"] else []), *(["second schema"] if s["other"] else []), *(["views"] if s["views"] else [])]),
]
