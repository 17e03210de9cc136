"""C01: parsing a query and printing it again does not change what it means."""
from __future__ import annotations

from pbt import duck, pb, pgnorm, sqlfrag, sqlgen
from pbt.draw import composite
from pbt.engine import Facet, HarnessError, fail
from postbound import qal

ASSUMPTIONS = ["pglast (libpg_query) defines the syntax tree of a Postgres query",
               "quacklab/DuckDB 1.4.1 is the executable reference for query results"]


def _render(query, mode):
    if mode == "str":
        return str(query)
    flavor, semi = mode.split("/")
    return qal.format_quick(query, flavor=flavor, trailing_semicolon=semi == "semi")


MODES = ["str", "vanilla/semi", "postgres/semi", "vanilla/no", "postgres/no"]


def check_sql(sql, rendered, *, qualified=None, variant=None, ordered=False):
    try:
        want = pgnorm.normal_form(sql)
    except pgnorm.SqlSyntaxError as e:
        raise HarnessError(f"generated SQL is not valid: {e}: {sql}")
    try:
        got = pgnorm.normal_form(rendered)
    except pgnorm.SqlSyntaxError as e:
        fail(f"printed query is not valid SQL ({e}): {rendered!r} from {sql!r}")
    full = pgnorm.normal_form(qualified) if qualified else want
    difference = pgnorm.difference_binding(want, full, got)
    if difference:
        fail(f"printed query has a different syntax tree: {difference}\n"
             f"  original: {sql}\n  printed:  {rendered}")
    if variant is None:
        return
    try:
        rows = duck.run(sql, variant)
    except duck.ExecError:
        return
    try:
        rows2 = duck.run(rendered, variant)
    except duck.ExecError as e:
        fail(f"printed query fails to execute ({e}): {rendered!r} from {sql!r}")
    if not duck.same(rows, rows2, ordered):
        fail(f"printed query returns a different result: {rows[:5]} vs {rows2[:5]}\n  original: {sql}\n  printed:  {rendered}")


@composite
def roundtrip_spec(d):
    g = sqlgen.Gen(d)
    return {"q": g.query(), "mode": d.choice(MODES), "bind": d.flag(50), "variant": d.int(0, sqlgen.DATA_VARIANTS - 1)}


def roundtrip_check(spec):
    pb.reset()
    sql = sqlgen.rq(spec["q"])
    query = pb.parse(sql, pb.gen_schema() if spec["bind"] else None)
    rendered = _render(query, spec["mode"])
    total = bool(spec["q"].get("order")) and spec["q"].get("limit") is not None
    check_sql(sql, rendered, variant=spec["variant"], ordered=total,
              qualified=sqlgen.rq(sqlgen.qualified(spec["q"])))


@composite
def fragments_spec(d):
    return {**sqlfrag.query(d), "mode": d.choice(MODES)}


def fragments_check(spec):
    pb.reset()
    sql = spec["sql"]
    try:
        want = pgnorm.normal_form(sql)
    except pgnorm.SqlSyntaxError:
        return  # an odd combination of fragments that is no SQL
    try:
        query = pb.parse(sql)
    except Exception as e:  # noqa: BLE001
        if spec["exotic"]:
            return  # unsupported features may be rejected
        fail(f"supported query is rejected: {type(e).__name__}: {e}: {sql!r}")
    rendered = _render(query, spec["mode"])
    try:
        got = pgnorm.normal_form(rendered)
    except pgnorm.SqlSyntaxError as e:
        fail(f"printed query is not valid SQL ({e}): {rendered!r} from {sql!r}")
    difference = pgnorm.first_difference(want, got)
    if difference:
        fail(f"printed query has a different syntax tree: {difference}\n  original: {sql}\n  printed:  {rendered}")
    before = [c for c in pgnorm.comments(spec["hint"])]
    after = pgnorm.comments(rendered)
    if before != after:
        fail(f"hint comments {before} became {after}\n  original: {sql}\n  printed:  {rendered}")


FACETS = [
    Facet("fragments", fragments_spec, fragments_check, quick=3000, thorough=80000, shards=8,
          rule="query assembled from ~350 SQL fragments (types, casts, arrays, functions, windows, joins, set operations, "
               "SET prefixes, hint comments, EXPLAIN) with random constants; fragments beyond the supported subset may be "
               "rejected, but never be changed; non-trivial: at least two optional parts or an exotic fragment",
          nontrivial=lambda s: len(s["parts"]) >= 2 or bool(s["exotic"]),
          classify=lambda s: s["parts"] + ["exotic:" + e for e in s["exotic"]] + ["mode:" + s["mode"]] + ["nested"] * s["nested"]),
    Facet("roundtrip", roundtrip_spec, roundtrip_check, quick=1600, thorough=40000, shards=8,
          rule="random scope- and type-correct query over 5 relations (joins, CTEs, subqueries, set operations, "
               "aggregates, windows, CASE, casts); parsed, printed by str() or format_quick; non-trivial: has a WHERE, "
               "join, subquery, CTE or set operation",
          nontrivial=lambda s: len(sqlgen.labels(s["q"])) > 3,
          classify=lambda s: sqlgen.labels(s["q"]) + ["mode:" + s["mode"]]),
]
