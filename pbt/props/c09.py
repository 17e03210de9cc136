"""C09: the JSON form of query building blocks is valid JSON and can be loaded back into an equal object."""
from __future__ import annotations

import dataclasses
import datetime as dt
import enum
import io
import json
import pathlib

from pbt import pb, sqlgen
from pbt import predgen as pg
from pbt.draw import composite
from pbt.engine import Facet, require
from postbound import parser, qal, util
from postbound._core import ColumnReference, TableReference

from .c08 import gen_ident, same_exactly

ASSUMPTIONS = ["an expression is self-contained if all tables it mentions are physical and have distinct identifiers"]


# -- references ---------------------------------------------------------------------------------------------------------------

@composite
def refs_strategy(d):
    return {"names": [gen_ident(d) for _ in range(4)], "alias": d.flag(60), "schema": d.flag(50), "virtual": d.flag(25), "bound": d.flag(80)}


def exact(a, b):
    return type(a) is type(b) and a.name == b.name and (a.table is None) == (b.table is None) and (a.table is None or same_exactly(a.table, b.table))


def check_refs(spec):
    t, alias, schema, c = spec["names"]
    if spec["virtual"] and not spec["alias"]:
        table = TableReference.create_virtual(t)
    else:
        table = TableReference(t, alias if spec["alias"] else "", schema=schema if spec["schema"] else "", virtual=spec["virtual"])
    for text in (util.to_json(table), json.loads(util.to_json(table))):
        got = parser.load_table_json(text)
        require(same_exactly(table, got) and got == table and hash(got) == hash(table), "JSON of %r -> %s -> %r", table, text, got)
    col = ColumnReference(c, table if spec["bound"] else None)
    for text in (util.to_json(col), json.loads(util.to_json(col))):
        got = parser.load_column_json(text)
        require(exact(col, got) and got == col and hash(got) == hash(col), "JSON of %r -> %s -> %r", col, text, got)
    for load in (parser.load_table_json, parser.load_column_json, parser.load_expression_json, parser.load_predicate_json):
        require(load(None) is None and load("") is None and load({}) is None, "%s of nothing", load.__name__)
    listed = json.loads(util.to_json({"tables": [table, table], "cols": (col,)}))
    require([parser.load_table_json(x) for x in listed["tables"]] == [table, table]
            and [parser.load_column_json(x) for x in listed["cols"]] == [col], "nested JSON %s", listed)


# -- expressions and predicates of arbitrary queries -------------------------------------------------------------------------------

@composite
def query_strategy(d):
    g = sqlgen.Gen(d)
    q, _ = g.block() if d.flag(50) else (g.query(), None)
    return {"q": q, "bind": d.flag(50)}


def self_contained(node):
    tables = node.tables()
    return not any(t.virtual for t in tables) and len({t.identifier().lower() for t in tables}) == len(tables)


def all_parts(query):
    """All predicates and expressions of the query and of its subqueries, with everything they contain."""
    todo = []
    for q in [query]:
        for clause in q.clauses():
            if isinstance(clause, (qal.Where, qal.Having)):
                todo.append(clause.condition if isinstance(clause, qal.Having) else clause.predicate)
            todo.extend(clause.iterexpressions())
    seen, out = set(), []
    while todo:
        x = todo.pop(0)
        if id(x) in seen:
            continue
        seen.add(id(x))
        out.append(x)
        if isinstance(x, qal.CompoundPredicate):
            todo.extend(x.iterchildren())
        elif isinstance(x, qal.AbstractPredicate):
            todo.extend(x.iterexpressions())
        else:
            todo.extend(x.iterchildren())
    return out


def check_part(node):
    if not self_contained(node):
        return
    text = util.to_json(node)
    data = json.loads(text)
    require({(t["full_name"], t["alias"], t["schema"]) for t in data["tables"]} == {(t.full_name, t.alias, t.schema) for t in node.tables()},
            "tables in the JSON of %s: %s", node, data["tables"])
    for form in (text, data):
        if isinstance(node, qal.AbstractPredicate):
            if not node.tables():
                continue
            got = parser.load_predicate_json(form)
        else:
            got = parser.load_expression_json(form)
        require(got == node and hash(got) == hash(node), "JSON of %s -> %s -> %r (%s, %s)", node, text, got, type(node).__name__, type(got).__name__)
        require(got.tables() == node.tables() and got.columns() == node.columns(), "references of %s -> %s", node, got)


def check_query(spec):
    pb.reset()
    sql = sqlgen.rq(spec["q"], top=True)
    query = pb.parse(sql, pb.gen_schema() if spec["bind"] else None)
    query = pb.parse(str(query), pb.gen_schema() if spec["bind"] else None)  # without redundant nesting
    text = json.loads(util.to_json(query))
    require(text == str(query) and str(pb.parse(text, pb.gen_schema() if spec["bind"] else None)) == text, "JSON of the query %s: %s", sql, text)
    if isinstance(query, qal.SetQuery):
        return
    for node in all_parts(query):
        if any(not c.is_bound() for c in node.columns()):
            continue
        if isinstance(node, qal.QuantifierExpression):
            continue  # ANY (...) is only meaningful as a part of a predicate
        check_part(node)


# -- predicates over several (aliased) relations ------------------------------------------------------------------------------------

@composite
def pred_strategy(d):
    rels = pg.gen_relations(d, 1, 4)
    return {"rels": rels, "pred": pg.gen_pred(d, len(rels), 2), "expr": pg.gen_expr(d, len(rels), 2)}


def check_pred(spec):
    pb.reset()
    rels = spec["rels"]
    sql = f"SELECT {pg.rx(spec['expr'], rels)} FROM {pg.rfrom(rels)} WHERE {pg.rx(spec['pred'], rels)}"
    query = pb.parse(sql, pb.gen_schema())
    check_part(query.where_clause.predicate)
    check_part(query.select_clause.targets[0].expression)
    for j in query.predicates().joins():
        check_part(j)
    for f in query.predicates().filters():
        check_part(f)


# -- the encoder ------------------------------------------------------------------------------------------------------------------

class Color(enum.Enum):
    Red = "red"
    Two = 2


@dataclasses.dataclass
class Pair:
    left: object
    right: object


class Custom:
    def __init__(self, x):
        self.x = x

    def __json__(self):
        return {"custom": self.x}


def gen_value(d, depth):
    k = d.weighted([(20, "int"), (10, "str"), (5, "none"), (5, "bool"), (5, "enum"), (5, "path"), (5, "date"), (5, "datetime"), (3, "zoned"), (3, "time"), (5, "delta"),
                    *([(10, "list"), (8, "dict"), (8, "set"), (8, "tuple"), (8, "pair"), (8, "custom")] if depth else [])])
    if k in ("list", "tuple", "set"):
        return [k, [gen_value(d, depth - 1 if k != "set" else 0) for _ in range(d.int(0, 3))]]
    if k == "dict":
        return [k, {f"k{i}": gen_value(d, depth - 1) for i in range(d.int(0, 3))}]
    if k == "pair":
        return [k, gen_value(d, depth - 1), gen_value(d, depth - 1)]
    if k == "custom":
        return [k, gen_value(d, depth - 1)]
    if k == "int":
        return [k, d.int(-5, 10 ** 6)]
    return [k, d.int(0, 3)]


def build(v):
    """(object, expected JSON value)"""
    k, x = v[0], v[1]
    if k in ("list", "tuple", "set"):
        items = [build(y) for y in x]
        if k == "set":
            return {a for a, _ in items}, ("set", [b for _, b in items])
        return ([a for a, _ in items] if k == "list" else tuple(a for a, _ in items)), [b for _, b in items]
    if k == "dict":
        items = {n: build(y) for n, y in x.items()}
        return {n: a for n, (a, _) in items.items()}, {n: b for n, (_, b) in items.items()}
    if k == "pair":
        (la, lb), (ra, rb) = build(x), build(v[2])
        return Pair(la, ra), {"left": lb, "right": rb}
    if k == "custom":
        a, b = build(x)
        return Custom(a), {"custom": b}
    if k == "int":
        return x, x
    if k == "str":
        s = ["", "a", 'q"uo\'te', "é\n"][x]
        return s, s
    if k == "none":
        return None, None
    if k == "bool":
        return x % 2 == 0, x % 2 == 0
    if k == "enum":
        e = [Color.Red, Color.Two][x % 2]
        return e, e.value
    if k == "path":
        return pathlib.Path("/tmp") / str(x), f"/tmp/{x}"
    if k == "date":
        return dt.date(2020, 1, x + 1), f"2020-01-0{x + 1}"
    if k == "datetime":
        micro = [0, 120000, 7, 0][x]
        return dt.datetime(2020, 1, x + 1, 4, 5, 6, micro), f"2020-01-0{x + 1}T04:05:06" + (f".{micro:06}" if micro else "")
    if k == "zoned":
        return dt.datetime(2020, 1, x + 1, 4, 5, 6, 10 * x, dt.timezone(dt.timedelta(hours=x))), (
            f"2020-01-0{x + 1}T04:05:06" + (f".{10 * x:06}" if x else "") + f"+0{x}:00")
    if k == "time":
        return dt.time(4, 5, x, 3 * x), f"04:05:0{x}" + (f".{3 * x:06}" if x else "")
    return [(dt.timedelta(seconds=x, milliseconds=500), x + 0.5), (dt.timedelta(days=2, microseconds=x), 172800 + x / 1e6),
            (dt.timedelta(days=-x, seconds=3), -86400.0 * x + 3)][x % 3]


def same(got, want):
    if isinstance(want, tuple) and want[0] == "set":
        # Python merges equal items of different types (True == 1): each wanted item must be there up to ==, and nothing else
        return (isinstance(got, list) and len(got) <= len(want[1]) and all(any(x == y for y in got) for x in want[1])
                and all(any(x == y and type(x) is type(y) for y in want[1]) for x in got))
    if isinstance(want, list):
        return isinstance(got, list) and len(got) == len(want) and all(same(a, b) for a, b in zip(got, want))
    if isinstance(want, dict):
        return isinstance(got, dict) and list(got) == list(want) and all(same(got[k], want[k]) for k in want)
    return type(got) is type(want) and got == want


@composite
def value_strategy(d):
    return {"v": gen_value(d, 3)}


def check_value(spec):
    obj, want = build(spec["v"])
    if obj is None:
        require(util.to_json(None) is None, "to_json(None)")
        return
    text = util.to_json(obj)
    require(same(json.loads(text), want), "to_json(%r) = %s, expected %s", obj, text, want)
    f = io.StringIO()
    util.to_json_dump(obj, f, indent=2)
    require(same(json.loads(f.getvalue()), want), "to_json_dump(%r) = %s", obj, f.getvalue())


FACETS = [
    Facet("references", refs_strategy, check_refs, quick=2000, thorough=40000, shards=2,
          rule="tables/columns with arbitrary names, alias, schema, virtual; text and dict form; non-trivial: schema or alias present",
          nontrivial=lambda s: s["alias"] or s["schema"]),
    Facet("predicates", pred_strategy, check_pred, quick=2500, thorough=50000, shards=4,
          rule="predicates/expressions over 1-4 (self-joined, aliased) relations incl. subqueries; non-trivial: compound predicate or subquery",
          nontrivial=lambda s: s["pred"][0] in ("and", "or", "not") or bool(pg.subs(s["pred"]))),
    Facet("queries", query_strategy, check_query, quick=1200, thorough=30000, shards=4,
          rule="all predicates and expressions (recursively) of generated queries; the query's own JSON; non-trivial: query with at least 2 tables",
          nontrivial=lambda s: sum(len(list(sqlgen.from_leaves(f))) for f in s["q"].get("from") or []) > 1),
    Facet("encoder", value_strategy, check_value, quick=1500, thorough=30000, shards=1,
          rule="nested containers of enums, paths, dates, sets, dataclasses, custom objects; non-trivial: a container",
          nontrivial=lambda s: s["v"][0] in ("list", "tuple", "set", "dict", "pair", "custom")),
]
