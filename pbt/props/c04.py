"""C04: columns are bound to the relation that SQL's scoping rules select."""
from __future__ import annotations

from pbt import pb, pgnorm, sqlgen
from pbt.draw import composite
from pbt.engine import Facet, fail

ASSUMPTIONS = ["the generator knows the relation that provides each column: it picks the relation first and only omits "
               "the qualifier where the name is unique in scope"]


@composite
def scope_spec(d):
    g = sqlgen.Gen(d, shadow=d.flag(70))
    return {"q": g.query()}


def scope_check(spec):
    pb.reset()
    sql = sqlgen.rq(spec["q"])
    query = pb.parse(sql, pb.gen_schema())
    want = pgnorm.normal_form(sqlgen.rq(sqlgen.qualified(spec["q"])))
    got = pgnorm.normal_form(str(query))
    difference = pgnorm.first_difference(want, got)
    if difference:
        fail(f"columns are bound differently: {difference}\n  original: {sql}\n  bound: {query}")

    expected = {(n[4][0], n[2], n[4][1] == "virtual") for n in sqlgen.all_nodes(spec["q"])
                if n[0] == "col" and n[4][1] in ("table", "virtual")}
    columns = [c for c in query.itercolumns() if c.table]  # tables compare equal regardless of their kind
    bound = {(c.table.identifier(), c.name, c.table.virtual) for c in columns}
    if expected - bound:
        fail(f"no column is bound to {sorted(expected - bound)} (table, column, virtual?), bound columns: {sorted(bound)}\n  {sql}")
    for c in columns:
        if c.table.virtual:
            continue
        cols = sqlgen.SCHEMA.get(c.table.full_name) or sqlgen.QUOTED.get(c.table.full_name)
        if not cols or c.name not in [n for n, _ in cols]:
            fail(f"column {c} is bound to table {c.table!r}, which does not provide it\n  {sql}")


FACETS = [
    Facet("scopes", scope_spec, scope_check, quick=4000, thorough=60000, shards=8, 
          rule="random query with qualified and unqualified columns, alias / CTE / table name collisions, correlated "
               "subqueries and nested CTEs, parsed against the schema; the bound query must equal the query with every column "
               "qualified by the relation the generator chose; non-trivial: more than three structural features",
          nontrivial=lambda s: len(sqlgen.labels(s['q'])) > 3,
          classify=lambda s: sqlgen.labels(s['q'])),
]
