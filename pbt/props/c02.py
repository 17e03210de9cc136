"""C02: query objects behave as immutable values (equality, hashing, copying, rebuilding)."""
from __future__ import annotations

import copy
import pickle

import pglast

from pbt import duck, pb, pgnorm, sqlfrag, sqlgen
from pbt.draw import composite
from pbt.engine import Facet, fail, require
from pbt.specmut import mutation_sites, mutate
from postbound import qal

ASSUMPTIONS = ["two queries are the same value iff libpg_query gives them the same tree (IN lists count as sets)"]


def _in_sets(node):
    """Spec copy whose IN lists are in canonical form."""
    if isinstance(node, dict):
        return {k: _in_sets(v) for k, v in node.items()}
    if isinstance(node, list):
        if len(node) == 3 and node[0] in ("in", "notin") and isinstance(node[2], list):
            vals = {sqlgen.rx(x): x for x in _in_sets(node[2])}
            return [node[0], _in_sets(node[1]), [vals[k] for k in sorted(vals)]]
        return [_in_sets(x) for x in node]
    return node


def _nested_connective(q):
    return any(n[0] in ("and", "or") and any(c[0] == n[0] for c in n[1]) for n in sqlgen.all_nodes(q))


def all_expressions(query):
    out, todo = [], []
    for clause in query.clauses():
        todo += list(clause.iterexpressions())
    while todo:
        e = todo.pop()
        out.append(e)
        todo += list(e.iterchildren())
        if isinstance(e, qal.SubqueryExpression):
            for clause in e.query.clauses():
                todo += list(clause.iterexpressions())
    return out


@composite
def values_spec(d):
    g = sqlgen.Gen(d)
    q = g.query()
    by_kind = {}
    for site in mutation_sites(q):
        by_kind.setdefault(site[1], []).append(site)
    kinds = d.permutation(sorted(by_kind))[:10]
    return {"q": q, "bind": d.flag(40), "sites": [d.choice(by_kind[k]) for k in kinds],
            "mode": d.choice(["vanilla", "postgres"])}


def values_check(spec):
    pb.reset()
    schema = pb.gen_schema() if spec["bind"] else None
    sql = sqlgen.rq(spec["q"])
    q1, q2 = pb.parse(sql, schema), pb.parse(sql, schema)
    same_value(q1, q2, "parsing the same text twice")
    same_value(q1, copy.copy(q1), "copy")
    same_value(q1, copy.deepcopy(q1), "deepcopy")
    same_value(q1, pickle.loads(pickle.dumps(q1)), "pickle round trip")
    text = qal.format_quick(q1, flavor=spec["mode"])
    if not _nested_connective(spec["q"]):  # printing drops the (redundant) brackets of a AND (b AND c)
        same_value(q1, pb.parse(str(q1), schema), f"parsing the printed query {q1}")
        if not any(x.get("fetch") for x in sqlgen.all_queries(spec["q"])):  # FETCH NEXT is formatted as LIMIT
            same_value(q1, pb.parse(text, schema), f"parsing the formatted query {text}")
    if not q1.is_set_query():
        same_value(q1, qal.build_query(q1.clauses()), "rebuilding the query from its clauses")
    exprs = all_expressions(q1)
    again = all_expressions(q2)
    require(len(exprs) == len(again), "different number of expressions: %s vs %s", len(exprs), len(again))
    for e1, e2 in zip(exprs, again):
        require(e1 == e2 and hash(e1) == hash(e2), "expression %s of the same query is not equal to itself / has a different hash", e1)
    consistent(exprs)
    def canonical(q):  # id and r.id are the same value once the column is bound
        return sqlgen.rq(_in_sets(sqlgen.qualified(q)))
    own = pgnorm.normal_form(canonical(spec["q"]))
    for i, site in enumerate(spec["sites"]):
        mutated = mutate(spec["q"], site)
        sql2 = sqlgen.rq(mutated)
        try:
            nf = pgnorm.normal_form(canonical(mutated))
        except pgnorm.SqlSyntaxError:
            continue
        try:
            q3 = pb.parse(sql2, schema)
        except Exception:  # noqa: BLE001
            continue
        if nf != own:
            require(q1 != q3 and not (q1 == q3), "different queries are equal: %s and %s", sql, sql2)
            require(q3 != q1 and not (q3 == q1), "different queries are equal: %s and %s", sql2, sql)
            require(len({q1, q3}) == 2, "different queries collapse in a set: %s and %s", sql, sql2)
        if i == 0:
            consistent(exprs[:60] + all_expressions(q3)[:60])


def same_value(a, b, what):
    if not (a == b) or a != b:
        fail(f"{what} yields a different query: {a} vs {b}")
    if hash(a) != hash(b):
        fail(f"{what} yields an equal query with a different hash: {a}")
    if str(a) != str(b):
        fail(f"{what} yields an equal query that prints differently: {a} vs {b}")
    if not (b == a) or len({a, b}) != 1 or type(a) is not type(b):
        fail(f"{what}: equality is not symmetric or the type changes: {a}")


def consistent(exprs):
    exprs = exprs[:120]
    in_text = [" IN (" in str(e) for e in exprs]
    for i, a in enumerate(exprs):
        for j in range(i + 1):
            b = exprs[j]
            r = a == b
            if r != (b == a):
                fail(f"equality of {a!r} and {b!r} is not symmetric")
            if (a != b) == r:
                fail(f"== and != of {a!r} and {b!r} agree")
            if r and hash(a) != hash(b):
                fail(f"{a!r} equals {b!r} but has a different hash")
            if r and str(a) != str(b) and not (in_text[i] and in_text[j]):
                fail(f"{a!r} equals {b!r} although they are different expressions")
            if r and type(a) is not type(b):
                fail(f"{a!r} ({type(a)}) equals {b!r} ({type(b)})")


SWAP = {"ASC": "DESC", "DESC": "ASC", "FIRST": "LAST", "LAST": "FIRST", "AND": "OR", "OR": "AND", "TRUE": "FALSE", "FALSE": "TRUE",
        "UNION": "INTERSECT", "EXCEPT": "UNION", "INTERSECT": "EXCEPT", "LEFT": "RIGHT", "RIGHT": "FULL", "FULL": "LEFT", "ROWS": "RANGE",
        "DISTINCT": "", "ALL": "", "LATERAL": "", "MATERIALIZED": "", "NOT": "", "LIKE": "ILIKE", "ILIKE": "LIKE", "ANY": "ALL", "+": "-", "-": "+",
        "*": "/", "=": "<>", "<>": "=", "<": "<=", "<=": "<", ">": ">=", ">=": ">"}
NAMES = {"a": "b", "b": "a", "r": "s", "s": "r", "x": "y", "y": "x", "lower": "upper", "sum": "min", "max": "min", "count": "max", "text": "varchar",
         "int": "bigint", "date": "timestamp"}


def token_changes(sql):
    """All texts in which one constant, name or keyword of the query is replaced."""
    tokens = [t for t in pglast.parser.scan(sql) if "COMMENT" not in t.name]
    out = []
    for t in tokens:
        text = sql[t.start:t.end + 1]
        if t.name == "ICONST":
            fresh = next(n for n in range(1, 200) if str(n) not in sql)
            new = str(fresh)
        elif t.name == "FCONST":
            new = "7.25" if "7.25" not in sql else None
        elif t.name == "SCONST":
            new = "'fresh'" if "fresh" not in sql else None
        elif text in NAMES:
            new = NAMES[text]
        else:
            new = SWAP.get(text.upper())
        if new is not None:
            out.append((t.name + ":" + text if t.name not in ("ICONST", "FCONST", "SCONST") else t.name,
                        sql[:t.start] + new + sql[t.end + 1:]))
    return out


@composite
def tokens_spec(d):
    q = sqlfrag.query(d)
    try:
        pgnorm.normal_form(q["sql"])
    except pgnorm.SqlSyntaxError:
        q = {"sql": "SELECT r.a FROM r WHERE r.b < 3", "parts": []}
    changes = token_changes(q["sql"])
    return {"sql": q["sql"], "parts": q["parts"], "changes": [changes[i] for i in sorted(d.permutation(range(len(changes)))[:8])]}


def tokens_check(spec):
    pb.reset()
    sql = spec["sql"]
    own = pgnorm.normal_form(sql)
    try:
        q1, q2 = pb.parse(sql), pb.parse(sql)
    except Exception:  # noqa: BLE001
        return  # unsupported
    same_value(q1, q2, "parsing the same text twice")
    same_value(q1, copy.deepcopy(q1), "deepcopy")
    same_value(q1, pickle.loads(pickle.dumps(q1)), "pickle round trip")
    for what, text in spec["changes"]:
        try:
            other = pgnorm.normal_form(text)
            q3 = pb.parse(text)
        except Exception:  # noqa: BLE001
            continue
        if other == own or pgnorm.normal_form(str(q3)) == own:
            continue
        require(q1 != q3 and not (q1 == q3) and q3 != q1 and not (q3 == q1), "different queries are equal (%s): %s and %s", what, sql, text)
        require(len({q1, q3}) == 2, "different queries collapse in a set (%s): %s and %s", what, sql, text)


@composite
def frozen_spec(d):
    g = sqlgen.Gen(d)
    return {"q": g.query(), "bind": d.flag(50), "order": d.permutation(range(len(READERS)))}


READERS = ["tables", "columns", "subqueries", "bound_tables", "unbound_tables", "output_columns", "clauses", "filters",
           "joins", "join_graph", "predicates.filters", "predicates.joins", "is_dependent", "is_scalar", "is_ordered",
           "contains_cross_product", "itercolumns", "iterexpressions", "predicates"]


def read(query, name):
    obj = query
    if query.is_set_query() and name in ("filters", "joins", "join_graph", "predicates", "predicates.filters", "predicates.joins"):
        return None  # documented: set queries have no predicates
    if name.startswith("predicates."):
        obj = query.predicates()
        name = name.split(".")[1]
    if not hasattr(obj, name):
        return None
    try:
        return getattr(obj, name)()
    except Exception as e:  # noqa: BLE001
        return f"{type(e).__name__}"


def freeze(v):
    import networkx as nx
    if isinstance(v, nx.Graph):
        return (frozenset(str(n) for n in v.nodes), frozenset((frozenset((str(a), str(b))), str(dd)) for a, b, dd in v.edges(data=True)))
    if isinstance(v, (set, frozenset)):
        return frozenset(str(x) for x in v)
    if isinstance(v, (list, tuple)):
        return tuple(str(x) for x in v)
    if isinstance(v, (str, bool, type(None))):
        return v
    if hasattr(v, "__iter__"):
        return tuple(sorted(str(x) for x in v))
    return str(v)


def vandalise(v):
    import networkx as nx
    if isinstance(v, nx.Graph):
        v.clear()
    elif isinstance(v, (set, list, dict)):
        v.clear()


def frozen_check(spec):
    pb.reset()
    schema = pb.gen_schema() if spec["bind"] else None
    sql = sqlgen.rq(spec["q"])
    query = pb.parse(sql, schema)
    fresh = {}
    for name in READERS:
        q2 = pb.parse(sql, schema)
        fresh[name] = freeze(read(q2, name))
    text, h = str(query), hash(query)
    for i in spec["order"]:
        name = READERS[i]
        v = read(query, name)
        if freeze(v) != fresh[name]:
            fail(f"{name}() answers {freeze(v)} after other methods were called, but {fresh[name]} on a fresh query: {sql}")
        if name not in ("predicates",):
            vandalise(read(query, name))
    for name in READERS:
        v = freeze(read(query, name))
        if v != fresh[name]:
            fail(f"{name}() answers {v} after the caller changed returned collections, was {fresh[name]}: {sql}")
    require(str(query) == text and hash(query) == h, "query changed by reading it: %s", sql)
    require(query == pb.parse(sql, schema), "query is no longer equal to itself after reading it: %s", sql)


FACETS = [
    Facet("values", values_spec, values_check, quick=900, thorough=20000, shards=8,
          rule="random query; parsed twice, copied, pickled, printed and re-parsed, rebuilt from clauses: always equal, same hash, "
               "same text; up to ten single-node mutations (one per kind) with another syntax tree must compare unequal; all pairs of "
               "sub-expressions: symmetric equality, equal hash, equal text; non-trivial: has a mutation and more than 3 features",
          nontrivial=lambda s: bool(s["sites"]) and len(sqlgen.labels(s["q"])) > 3,
          classify=lambda s: ["mut:" + site[1] for site in s["sites"]] + sqlgen.labels(s["q"])),
    Facet("tokens", tokens_spec, tokens_check, quick=700, thorough=30000, shards=8,
          rule="query assembled from SQL fragments and up to 8 copies in each of which one constant, name, operator or keyword is replaced; "
               "copies with another syntax tree must be unequal; non-trivial: at least 4 copies",
          nontrivial=lambda s: len(s["changes"]) >= 4, classify=lambda s: s["parts"] + [c[0] for c in s["changes"]]),
    Facet("frozen", frozen_spec, frozen_check, quick=500, thorough=10000, shards=4,
          rule="random query and a random order of its accessor methods; every returned collection is cleared by the caller; "
               "answers must equal those of a fresh query; non-trivial: more than 3 features",
          nontrivial=lambda s: len(sqlgen.labels(s["q"])) > 3, classify=lambda s: sqlgen.labels(s["q"])),
]
