"""C03: introspection of a query reports everything the query text contains, and nothing else."""
from __future__ import annotations

import collections
import json
import warnings

from pbt import duck, pb, pgnorm, sqlgen
from pbt.draw import composite
from pbt.engine import Facet, HarnessError, fail, require
from pbt.props.c02 import all_expressions
from postbound import qal

ASSUMPTIONS = ["libpg_query's column references of the printed query define which columns it mentions"]
AGGS = {"count", "sum", "min", "max"}


# ---------------------------------------------------------------- reference model

def ast_columns(sql):
    """Counter of (qualifier, name) of all column references in the text."""
    import pglast
    out = collections.Counter()

    def rec(n):
        if isinstance(n, dict):
            for k, v in n.items():
                if k == "ColumnRef":
                    fields = v["fields"]
                    if "A_Star" in fields[-1]:
                        continue
                    names = [f["String"].get("sval", "") for f in fields]
                    out[(names[-2] if len(names) > 1 else None, names[-1])] += 1
                else:
                    rec(v)
        elif isinstance(n, list):
            for v in n:
                rec(v)
    rec(json.loads(pglast.parser.parse_sql_json(sql)))
    return out


def declared_columns(qq):
    """Columns declared by VALUES lists."""
    out = collections.Counter()
    for x in sqlgen.all_queries(qq):
        for c in x.get("ctes") or []:
            if "rows" in c:
                out.update((c["name"], col) for col in c["cols"])
        for f in x.get("from") or []:
            for leaf in sqlgen.from_leaves(f):
                if leaf["kind"] == "values":
                    out.update((leaf["alias"], col) for col in leaf["cols"])
    return out


def own_idents(qq):
    return {leaf.get("alias") or leaf.get("name") for f in qq.get("from") or [] for leaf in sqlgen.from_leaves(f)}


def direct_subqueries(qq):
    if "setop" in qq:
        out = direct_subqueries(qq["left"]) + direct_subqueries(qq["right"])
        return out + [s for k, s in sqlgen.subqueries(qq) if k == "expr"]
    return [s for k, s in sqlgen.subqueries(qq) if k in ("from", "expr")]


def local_exprs(qq):
    """Top expressions of the block including those of set-operation arms' own blocks."""
    return [e for _, e in sqlgen.query_exprs(qq)]


def required_idents(qq):
    """Relations that have to be supplied from outside (qualified specs only)."""
    need = set()
    own = own_idents(qq)
    if "setop" in qq:
        need |= required_idents(qq["left"]) | required_idents(qq["right"])
    for _, e in sqlgen.query_exprs(qq):
        for n in sqlgen.walk(e):
            if n[0] == "col" and n[1]:
                need.add(n[1])
    for t in qq.get("targets") or []:
        if t[0] == "t.*":
            need.add(t[1])
    for kind, s in sqlgen.subqueries(qq):
        if kind in ("from", "expr", "cte"):
            need |= required_idents(s)
    return need - own


def mentioned_idents(qq):
    out = set()
    for x in sqlgen.all_queries(qq):
        out |= own_idents(x)
        for _, e in sqlgen.query_exprs(x):
            out |= {n[1] for n in sqlgen.walk(e) if n[0] == "col" and n[1]}
    return out


def bound_idents(qq):
    out = own_idents(qq) | {c["name"] for c in qq.get("ctes") or []}
    if "setop" in qq:
        out |= bound_idents(qq["left"]) | bound_idents(qq["right"])
    else:
        for k, s in sqlgen.subqueries(qq):
            if k in ("from", "expr"):
                out |= bound_idents(s)
    return out


def output_names(qq):
    if "setop" in qq:
        return None
    names, anon = [], 1
    for t in qq["targets"]:
        if t[0] in ("*", "t.*"):
            return None
        if t[1]:
            names.append(t[1])
        elif t[0][0] == "col":
            names.append(t[0][2])
        else:
            names.append(f"column_{anon}")
            anon += 1
    return names


def is_scalar(qq):
    if "setop" in qq:
        return False
    if len(qq["targets"]) != 1 or qq.get("distinct") or qq.get("distinct_on"):
        return False
    e = qq["targets"][0][0]
    return e[0] == "func" and e[1] in AGGS and not qq.get("group") and not qq.get("having") and \
        qq.get("limit") is None and qq.get("offset") is None


def conjuncts(p):
    if p[0] == "and":
        for c in p[1]:
            yield from conjuncts(c)
    else:
        yield p


def cross_product(qq):
    """True / False where the answer is beyond doubt, None otherwise."""
    idents = own_idents(qq)
    preds = [qq["where"]] if qq.get("where") else []
    preds += [j["on"] for f in qq["from"] for j in sqlgen.join_nodes(f) if j.get("on")]
    sure, maybe = set(), set()
    for p in preds:
        for c in conjuncts(p):
            if c[0] == "cmp" and c[1] == "=" and c[2][0] == "col" and c[3][0] == "col":
                sure.add((c[2][1], c[3][1]))
        for n in sqlgen.walk(p):
            touched = {x[1] for x in sqlgen.walk(n) if x[0] == "col"} & idents
            if n[0] in ("cmp", "between", "in", "notin", "like", "quant", "insq", "notinsq", "ssq", "exists", "isnull", "notnull",
                        "case", "scase"):
                for d in (sqlgen.direct_query(y) for y in sqlgen.walk(n)):
                    if d is not None:
                        touched |= required_idents(d) & idents
                maybe.update((a, b) for a in touched for b in touched)

    def connected(edges):
        groups = {i: {i} for i in idents}
        for a, b in edges:
            if a in groups and b in groups and groups[a] is not groups[b]:
                g = groups[a] | groups[b]
                for x in g:
                    groups[x] = g
        return len({id(g) for g in groups.values()}) <= 1
    if connected(sure):
        return False
    if not connected(maybe):
        return True
    return None


# ---------------------------------------------------------------- the check

class CountingVisitor:
    def __init__(self):
        self.seen = []

    def __getattr__(self, name):
        if name.startswith("visit_"):
            def visit(obj, *args, **kwargs):
                self.seen.append((name, obj, args, kwargs))
                return name
            return visit
        raise AttributeError(name)


@composite
def intro_spec(d):
    return {"q": sqlgen.Gen(d, joins=d.flag(75)).query()}


def idents(tables):
    require(all(t is not None for t in tables), "None among the tables")
    return {t.identifier() for t in tables}


def compare(what, got, want, query):
    if got != want:
        extra = {k: v for k, v in got.items() if want.get(k) != v} if isinstance(got, dict) else set(got) - set(want) \
            if isinstance(got, set) else got
        missing = {k: v for k, v in want.items() if got.get(k) != v} if isinstance(want, dict) else set(want) - set(got) \
            if isinstance(want, set) else want
        fail(f"{what}: reported {extra}, expected {missing} (differences only) for {query}")


def intro_check(spec):
    pb.reset()
    qq = sqlgen.qualified(spec["q"])
    query = pb.parse(sqlgen.rq(spec["q"]), pb.gen_schema())
    text = str(query)
    check_query(query, qq, text, top=True)


def check_query(query, qq, text, top):
    cols = list(query.itercolumns())
    got = collections.Counter((c.table.identifier() if c.table else None, c.name) for c in cols)
    want = ast_columns(str(query) if top else sqlgen.rq(qq)) + declared_columns(qq)
    compare("itercolumns()", dict(got), dict(want), text)
    compare("columns()", {(c.table.identifier() if c.table else None, c.name) for c in query.columns()}, set(want), text)
    for table in query.tables() if "setop" not in qq else ():
        mine = {(c.table.identifier() if c.table else None, c.name) for c in query.columns_of(table)}
        compare(f"columns_of({table})", mine, {w for w in set(want) if w[0] == table.identifier()}, text)

    compare("tables()", idents(query.tables()), mentioned_idents(qq), text)
    compare("unbound_tables()", idents(query.unbound_tables()), required_idents(qq), text)
    require(query.is_dependent() == bool(required_idents(qq)), "is_dependent() is %s for %s", query.is_dependent(), text)
    got_bound, must = idents(query.bound_tables()), bound_idents(qq)
    may = must.union(*[mentioned_idents(s) for x in sqlgen.all_queries(qq) for k, s in sqlgen.subqueries(x) if k == "cte"])
    if not must <= got_bound <= may:
        fail(f"bound_tables(): {got_bound}, expected {must} for {text}")
    require(query.is_ordered() == bool(qq.get("order")), "is_ordered() is %s for %s", query.is_ordered(), text)
    require(query.is_set_query() == ("setop" in qq), "is_set_query() is %s for %s", query.is_set_query(), text)
    require(bool(query.is_scalar()) == is_scalar(qq), "is_scalar() is %s for %s", query.is_scalar(), text)
    if is_scalar(qq) and top:
        try:
            rows = duck.run(str(query))
        except duck.ExecError:
            rows = [()]
        require(len(rows) == 1, "is_scalar() query returns %s rows: %s", len(rows), text)
    names = output_names(qq)
    if names is not None:
        got_names = [c.name for c in query.output_columns()]
        require(got_names == names, "output_columns() %s instead of %s for %s", got_names, names, text)
        require(all(c.table is None for c in query.output_columns()), "output columns are bound to a table: %s", text)
        require(query.select_clause.local_columns() == {t[1] for t in qq["targets"] if t[1]},
                "local_columns() %s for %s", query.select_clause.local_columns(), text)
    if "setop" not in qq:
        want_cross = cross_product(qq)
        if want_cross is not None:
            require(query.contains_cross_product() == want_cross, "contains_cross_product() is %s for %s",
                    query.contains_cross_product(), text)
        forms = {all(leaf["kind"] == "table" or leaf["kind"] == "cte" for leaf in [f]) and f["kind"] != "join" for f in qq["from"]}
        if forms == {True}:
            require(query.is_implicit() and not query.is_explicit(), "FROM list of plain tables is not implicit: %s", text)

    # every expression is reachable by iterchildren and by visitors
    exprs = []
    for clause in query.clauses():
        exprs += list(clause.iterexpressions())
    found = set()
    for e in exprs:
        found |= e.accept_visitor(qal.ExpressionCollector(lambda x: isinstance(x, qal.ColumnExpression)))
    via_collector = {(e.column.table.identifier() if e.column.table else None, e.column.name) for e in found}
    compare("ExpressionCollector", via_collector, block_columns(qq), text)
    literals = {(type(e.value).__name__, e.value) for x in all_expressions(query) for e in [x]
                if isinstance(x, qal.StaticValueExpression) and not x.is_null()}
    literals |= {(t, abs(v)) for t, v in literals if t == "int"}
    for n in own_nodes(qq):
        if n[0] in ("int", "text", "bool"):
            value = abs(n[1]) if n[0] == "int" else n[1]
            require((type(value).__name__, value) in literals, "literal %s is not reachable through iterchildren(): %s", n, text)

    # visitors reach each clause exactly once and hand on their arguments
    visitor = CountingVisitor()
    res = query.accept_visitor(visitor, 17, key="value")
    require(len(visitor.seen) == len(query.clauses()) and len(res) == len(set(query.clauses())),
            "clause visitor saw %s of %s", [v[0] for v in visitor.seen], text)
    for name, obj, args, kwargs in visitor.seen:
        require(args == (17,) and kwargs == {"key": "value"}, "%s lost its arguments: %s %s", name, args, kwargs)
    for e in exprs:
        visitor = CountingVisitor()
        e.accept_visitor(visitor, 17, key="value")
        require(len(visitor.seen) == 1, "expression visitor saw %s for %s", visitor.seen, e)
        name, obj, args, kwargs = visitor.seen[0]
        require(args[-1:] == (17,) and kwargs == {"key": "value"}, "%s lost its arguments: %s %s", name, args, kwargs)
    for clause in query.clauses():
        rest = query.clauses(skip=type(clause))
        require(len(rest) == len(query.clauses()) - 1 and clause not in rest, "clauses(skip=%s) is %s", type(clause), rest)
    require(len(query.ast()) > 0, "empty ast")

    # nested queries
    subs = direct_subqueries(qq)
    got_subs = {}
    for s in query.subqueries():
        got_subs.setdefault(json.dumps(pgnorm.normal_form(str(s)), sort_keys=True), s)
    want_subs = {}
    for s in subs:
        want_subs.setdefault(json.dumps(pgnorm.normal_form(sqlgen.rq(s)), sort_keys=True), s)
    if set(got_subs) != set(want_subs):
        fail(f"subqueries(): {sorted(str(s) for s in query.subqueries())}, expected {sorted(sqlgen.rq(s) for s in subs)} for {text}")
    for key, s in got_subs.items():
        check_query(s, want_subs[key], text, top=False)
    if query.cte_clause:
        ctes = qq["ctes"]
        require(len(query.cte_clause.queries) == len(ctes), "number of CTEs differs: %s", text)
        for got_cte, want_cte in zip(query.cte_clause.queries, ctes):
            require(got_cte.target_name == want_cte["name"] and got_cte.materialized == want_cte["mat"],
                    "CTE %s became %s in %s", want_cte["name"], got_cte, text)
            if "query" in want_cte:
                check_query(got_cte.query, want_cte["query"], text, top=False)
                names = output_names(want_cte["query"])
                if names is not None:
                    got_names = [c.name for c in got_cte.output_columns()]
                    require(got_names == names, "output columns of CTE %s are %s instead of %s", want_cte["name"], got_names, names)
            else:
                got_names = [getattr(c, "name", None) for c in got_cte.output_columns()]
                require(got_names == want_cte["cols"], "output columns of CTE %s are %s instead of %s", want_cte["name"],
                        got_names, want_cte["cols"])


def block_columns(qq):
    """Columns of the block itself (subqueries are leaves)."""
    if "setop" in qq:
        return block_columns(qq["left"]) | block_columns(qq["right"]) | {(None, o[0][2]) for o in qq.get("order") or [] if o[0][0] == "col"}
    return {(n[1], n[2]) for n in own_nodes(qq) if n[0] == "col"}


def own_nodes(qq):
    for _, e in sqlgen.query_exprs(qq):
        yield from sqlgen.walk(e)


FACETS = [
    Facet("introspection", intro_spec, intro_check, quick=900, thorough=20000, shards=8,
          rule="random query parsed with the schema; columns, tables, bound / unbound tables, output columns, scalar / ordered / "
               "dependent / cross-product flags, subqueries, CTEs, expression trees and visitors of the query and of all nested "
               "queries are compared with libpg_query's tree and the generator's model; non-trivial: more than 4 features",
          nontrivial=lambda s: len(sqlgen.labels(s["q"])) > 4, classify=lambda s: sqlgen.labels(s["q"])),
]
