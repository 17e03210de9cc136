"""C07: query transformations change exactly what they document and keep everything else."""
from __future__ import annotations

import copy
import re

from pbt import duck, pb, pgnorm, sqlfrag, sqlgen
from pbt import predgen as pg
from pbt.draw import composite
from pbt.engine import Facet, fail, require
from postbound import qal, transform
from postbound._core import ColumnReference, TableReference

ASSUMPTIONS = ["the documented effect of each transformation is modelled on the generated query specification"]


def same_sql(what, got, want_spec_or_sql, sql):
    want = want_spec_or_sql if isinstance(want_spec_or_sql, str) else sqlgen.rq(sqlgen.qualified(want_spec_or_sql))
    try:
        nf = pgnorm.normal_form(str(got))
    except pgnorm.SqlSyntaxError as e:
        fail(f"{what} produced invalid SQL {got} ({e}) for {sql}")
    diff = pgnorm.first_difference(pgnorm.normal_form(want), nf)
    if diff:
        fail(f"{what}: {diff}\n  query: {sql}\n  result: {got}\n  expected: {want}")


# ------------------------------------------------------------------ renaming

def map_nodes(n, fn):
    """Bottom-up rebuild of a JSON spec; fn may return a replacement for lists and dicts."""
    if isinstance(n, dict):
        n = {k: map_nodes(v, fn) for k, v in n.items()}
        return fn(n)
    if isinstance(n, list):
        return fn([map_nodes(v, fn) for v in n])
    return n


def is_col(n):
    return isinstance(n, list) and len(n) == 5 and n[0] == "col" and isinstance(n[4], list)


def leaves_of(spec):
    for x in sqlgen.all_queries(spec):
        if "setop" in x:
            continue
        for f in x["from"]:
            yield from sqlgen.from_leaves(f)


@composite
def rename_spec(d):
    bind = d.flag(80)
    g = sqlgen.Gen(d, unqualified=bind and d.flag(70))
    q = g.query()
    mode = d.weighted([(45, "columns"), (40, "table"), (15, "prefix"), (15, "merge")])
    if mode == "columns":
        cols = sorted({(n[4][0], n[2]) for n in sqlgen.all_nodes(q) if is_col(n) and n[4][1] in ("table", "virtual")
                       and (bind or n[1])})
        picked = d.subset(cols, 50)
        return {"q": q, "mode": mode, "bind": bind, "cols": [[i, c, d.choice([c + "_new", "zz" + c, "Odd " + c])] for i, c in picked]}
    tabs = sorted({(lf["kind"], lf.get("name") or "", lf["alias"] or "") for lf in leaves_of(q) if lf["kind"] in ("table", "sub", "values")})
    picked = d.some(tabs, 1, 2) if tabs else []
    if mode == "prefix":
        picked = [p for p in picked if p[0] == "table"]
    if mode == "merge":
        # only queries that scan the merged tables in plain FROM lists can be merged
        tops = [lf for x in sqlgen.all_queries(q) if "setop" not in x for f in x["from"] if f["kind"] == "table" for lf in [f]]
        nested = {(lf["name"], lf["alias"] or "") for x in sqlgen.all_queries(q) if "setop" not in x for f in x["from"] if f["kind"] != "table"
                  for lf in sqlgen.from_leaves(f) if lf["kind"] == "table"}
        cand = sorted({("table", lf["name"], lf["alias"] or "") for lf in tops} - {("table", *n) for n in nested})
        picked = d.some(cand, 1, 3) if cand else []
        target = ["mv", d.choice(["", "mv0"])]
        return {"q": q, "mode": mode, "bind": bind, "tabs": [[list(p), target] for p in picked], "dict": d.flag(50)}
    new = [[f"new{i}", d.choice(["", f"n{i}"])] for i in range(len(picked))]
    if len(picked) == 2 and picked[0][0] == picked[1][0] == "table" and d.flag(20) and mode == "table":
        new = [[picked[1][1], picked[1][2]], [picked[0][1], picked[0][2]]]
    return {"q": q, "mode": mode, "bind": bind, "tabs": [[list(p), n] for p, n in zip(picked, new)], "dict": d.flag(50)}


def table_ref(kind, name, alias):
    return TableReference(name, alias) if kind == "table" else TableReference.create_virtual(alias)


def rename_check(spec):
    pb.reset()
    sql = sqlgen.rq(spec["q"])
    query = pb.parse(sql, pb.gen_schema() if spec["bind"] else None)
    text, h = str(query), hash(query)
    q = sqlgen.qualified(spec["q"])
    if spec["mode"] == "columns":
        wanted = {(i, c): new for i, c, new in spec["cols"]}
        renamings = {}
        for c in query.itercolumns():
            if c.table and (c.table.identifier(), c.name) in wanted:
                renamings[c] = ColumnReference(wanted[(c.table.identifier(), c.name)], c.table)
        names = {(c.table.identifier(), c.name): r.name for c, r in renamings.items()}

        def fn(n):
            if is_col(n) and (n[4][0], n[2]) in names and n[4][1] in ("table", "virtual"):
                return ["col", n[1], names[(n[4][0], n[2])], *n[3:]]
            if isinstance(n, dict) and n.get("kind") == "values":
                return {**n, "cols": [names.get((n["alias"], c), c) for c in n["cols"]]}
            return n
        # VALUES CTEs that are scanned under their own name define the renamed columns, too
        want = map_nodes(q, fn)

        def fn_cte(n):
            if isinstance(n, dict) and "rows" in n and "name" in n and n.get("kind") is None:
                return {**n, "cols": [names.get((n["name"], c), c) for c in n["cols"]]}
            return n
        want = map_nodes(want, fn_cte)
        got = transform.rename_columns_in_query(query, renamings)
    else:
        pairs = [(p, n) for p, n in spec["tabs"]]
        refs = {table_ref(*p): (TableReference(n[0], n[1]) if p[0] == "table" else TableReference.create_virtual(n[1] or n[0]))
                for p, n in pairs}
        by_ident = {(p[2] or p[1]): (p, n) for p, n in pairs}
        prefix = spec["mode"] == "prefix"

        def fn(n):
            if is_col(n) and n[4][0] in by_ident and n[4][1] in ("table", "virtual"):
                p, new = by_ident[n[4][0]]
                return ["col", new[1] or new[0], (f"{n[4][0]}_{n[2]}" if prefix else n[2]), n[3], [new[1] or new[0], n[4][1]]]
            if isinstance(n, list) and len(n) == 2 and n[0] == "t.*" and n[1] in by_ident:
                new = by_ident[n[1]][1]
                return ["t.*", new[1] or new[0]]
            if isinstance(n, dict) and n.get("kind") in ("table", "sub", "values"):
                key = n["alias"] or n.get("name")
                if key in by_ident and (n["kind"], n.get("name") or "", n["alias"] or "") == tuple(by_ident[key][0]):
                    new = by_ident[key][1]
                    if n["kind"] == "table":
                        return {**n, "name": new[0], "alias": new[1] or None}
                    return {**n, "alias": new[1] or new[0]}
            return n
        want = map_nodes(q, fn)
        if not pairs:
            return
        if spec["mode"] == "merge":
            def merge(n):
                if isinstance(n, dict) and isinstance(n.get("from"), list):
                    entries, seen = [], False
                    for f in n["from"]:
                        hit = f["kind"] == "table" and f["name"] == "mv"
                        if not hit or not seen:
                            entries.append(f)
                        seen |= hit
                    return {**n, "from": entries}
                return n
            want = map_nodes(want, merge)
            got = transform.merge_tables(query, list(refs), target=next(iter(refs.values())))
        elif spec["dict"] or len(pairs) > 1:
            got = transform.rename_table(query, refs, prefix_column_names=prefix)
        else:
            (a, b), = refs.items()
            got = transform.rename_table(query, a, b, prefix_column_names=prefix)
    want_sql = sqlgen.rq(want)
    same_sql(f"renaming {spec.get('cols') or spec.get('tabs')}", got, want_sql, sql)
    require(str(query) == text and hash(query) == h, "renaming changed the original query %s", sql)


# ------------------------------------------------------------------ clauses

CLAUSES = {"select": qal.Select, "where": qal.Where, "group": qal.GroupBy, "having": qal.Having, "order": qal.OrderBy, "limit": qal.Limit,
           "from": qal.From, "ctes": qal.CommonTableExpression}
ACCESS = {"select": "select_clause", "where": "where_clause", "group": "groupby_clause", "having": "having_clause", "order": "orderby_clause",
          "limit": "limit_clause", "from": "from_clause", "ctes": "cte_clause"}


@composite
def clause_spec(d):
    g = sqlgen.Gen(d, expr_depth=1, depth=d.choice([1, 2]))
    return {"q": g.query(), "other": sqlgen.Gen(d, expr_depth=1, depth=1).query(), "op": d.choice(["star", "count_star", "add", "drop", "replace", "explain", "hints"]),
            "clauses": d.subset(sorted(CLAUSES), 35), "order": d.permutation(range(len(CLAUSES))), "how": d.int(0, 3),
            "hint": [d.flag(50), d.flag(70)]}


def get(q, clause):
    if clause == "select":
        return {"targets": q["targets"], "distinct": q.get("distinct"), "distinct_on": q.get("distinct_on")}
    if clause == "limit":
        return {k: q[k] for k in ("limit", "offset", "fetch") if q.get(k) is not None}
    return {clause: q[clause]} if q.get(clause) else {}


def put(q, clause, value):
    q = {k: v for k, v in q.items() if k not in (("targets", "distinct", "distinct_on") if clause == "select" else
                                                 ("limit", "offset", "fetch") if clause == "limit" else (clause,))}
    return {**q, **copy.deepcopy(value)}


def from_type(q):
    kinds = {f["kind"] for f in q["from"]}
    return "explicit" if kinds == {"join"} else "implicit" if "join" not in kinds else "mixed"


def clause_check(spec):
    pb.reset()
    op = spec["op"]
    sql = sqlgen.rq(spec["q"])
    q, other = sqlgen.qualified(spec["q"]), sqlgen.qualified(spec["other"])
    schema = pb.gen_schema()
    query = pb.parse(sql, schema)
    text = str(query)
    if op == "explain":
        explain = [qal.Explain.plan(), qal.Explain.explain_analyze(), qal.Explain(False, "JSON"), qal.Explain(True, "TEXT")][spec["how"]]
        first = transform.as_explain(query, [qal.Explain.explain_analyze(), qal.Explain.plan()][spec["hint"][0]])
        for source in (query, first):
            got = transform.as_explain_analyze(source) if spec["how"] == 1 else transform.as_explain(source, explain)
            require(got.explain == explain and got.is_explain(), "as_explain(%s) gives %s", explain, got)
            require(transform.drop_clause(got, qal.Explain) == query, "EXPLAIN changes the query %s to %s", sql, got)
            require(str(got).startswith("EXPLAIN") and str(got).endswith(text.rstrip(";") + ";"), "as_explain of %s prints %s", text, got)
        return
    if op == "hints":
        hint = qal.Hint("SET enable_nestloop = 'off';" if spec["hint"][0] else "", "/*+ SeqScan(r) */" if spec["hint"][1] else "")
        if not spec["hint"][0] and not spec["hint"][1]:
            return
        hinted = transform.add_clause(query, hint)
        require(hinted.hints == hint and hinted != query, "hints %s are not added: %s", hint, hinted)
        require(transform.drop_hints(hinted) == query and transform.drop_hints(query) == query, "drop_hints changes %s", sql)
        kept = transform.drop_hints(hinted, preparatory_statements_only=True)
        expected = transform.add_clause(query, qal.Hint("", hint.query_hints)) if spec["hint"][1] else query
        require(kept == expected, "drop_hints(preparatory_statements_only) of %s gives %s", hinted, kept)
        return
    if op in ("star", "count_star"):
        if "setop" in q:
            return
        want = put(q, "select", {"targets": [["*"]] if op == "star" else [[["func", "count", [["star"]], {}], None]]})
        got = transform.as_star_query(query) if op == "star" else transform.as_count_star_query(query)
        same_sql(f"as_{op}_query", got, sqlgen.rq(want), sql)
        return
    allowed = ("order", "limit", "ctes")
    clauses = [sorted(CLAUSES)[i] for i in spec["order"] if sorted(CLAUSES)[i] in spec["clauses"]]
    if "setop" in q or "setop" in other:
        clauses = [c for c in clauses if c in allowed]
    if op == "drop":
        clauses = [c for c in clauses if c != "select" and (c != "from" or True)]
        want = q
        for c in clauses:
            want = put(want, c, {"from": []} if c == "from" else {})
        what = [CLAUSES[c] if spec["how"] % 2 or getattr(query, ACCESS[c], None) is None else getattr(query, ACCESS[c]) for c in clauses]
        if not what:
            return
        got = transform.drop_clause(query, what[0] if len(what) == 1 and spec["how"] > 1 else what)
        same_sql(f"drop_clause({clauses})", got, rq_nofrom(want), sql)
    else:
        donor = pb.parse(sqlgen.rq(spec["other"]), schema)
        pieces = [(c, getattr(donor, ACCESS[c], None)) for c in clauses]
        pieces = [(c, p) for c, p in pieces if p is not None]
        if op == "replace":
            pieces = [(c, p) for c, p in pieces if c != "from" or type(query.from_clause) is type(donor.from_clause)]
        if not pieces:
            return
        want = q
        for c, _ in pieces:
            if op == "add" or get(q, c):
                want = put(want, c, get(other, c))
        fn = transform.add_clause if op == "add" else transform.replace_clause
        arg = [p for _, p in pieces]
        got = fn(query, arg[0] if len(arg) == 1 and spec["how"] > 1 else [arg, tuple(arg), frozenset(arg), set(arg)][spec["how"]])
        same_sql(f"{op}_clause({[str(p) for p in arg]})", got, sqlgen.rq(want), sql)
    require(str(query) == text, "%s changed the original query %s to %s", op, text, query)


def rq_nofrom(q):
    if "setop" in q or q["from"]:
        return sqlgen.rq(q)
    return sqlgen.rq({**q, "from": [{"kind": "table", "name": "zzz", "alias": None}]}).replace(" FROM zzz", "")


# ------------------------------------------------------------------ fragments

def _tables(node):
    """Identifiers of all relations a node references, including scans within its subqueries."""
    out = set()
    for n in sqlgen.walk(node):
        if is_col(n) and n[4][1] in ("table", "virtual"):
            out.add(n[4][0])
        sub = sqlgen.direct_query(n)
        if sub is not None:
            for x in sqlgen.all_queries(sub):
                for _, e in sqlgen.query_exprs(x):
                    out |= _tables(e)
                if "setop" not in x:
                    for f in x["from"]:
                        out |= {lf["alias"] or lf["name"] for lf in sqlgen.from_leaves(f)}
                        for t in x["targets"]:
                            if t[0] == "t.*":
                                out.add(t[1])
    return out


def pred_fragment(p, keep):
    if p[0] in ("and", "or"):
        parts = [x for x in (pred_fragment(c, keep) for c in p[1]) if x]
        return None if not parts else parts[0] if len(parts) == 1 else [p[0], parts]
    if p[0] == "not":
        child = pred_fragment(p[1], keep)
        return ["not", child] if child else None
    return p if _tables(p) <= keep else None


@composite
def fragment_spec(d):
    g = sqlgen.Gen(d, joins=False, values=False, funcs=False, lateral=False, max_from=3, setops=False)
    q = g.query()
    while any(lf["kind"] == "sub" for f in q["from"] for lf in sqlgen.from_leaves(f)):
        q["from"] = q["from"]
        g = sqlgen.Gen(d, joins=False, values=False, funcs=False, lateral=False, max_from=3, setops=False, depth=0)
        q = g.query()
    n = len(q["from"])
    return {"q": q, "keep": d.some(range(n), 1, n), "projection": d.choice(["keep", "keep", "star", "*", "count_star"]),
            "single": d.flag(50), "conj": None}


def fragment_check(spec):
    pb.reset()
    q = spec["q"]
    sql = sqlgen.rq(q)
    query = pb.parse(sql, pb.gen_schema())
    q = sqlgen.qualified(q)
    kept = [f for i, f in enumerate(q["from"]) if i in spec["keep"]]
    keep = {f["alias"] or f["name"] for f in kept}
    tabs = [t for s in query.from_clause.items for t in s.tables() if t.identifier() in keep]
    require({t.identifier() for t in tabs} == keep, "FROM clause of %s lists %s", sql, tabs)
    got = transform.extract_query_fragment(query, tabs[0] if len(tabs) == 1 and spec["single"] else tabs, projection=spec["projection"])
    want = {k: v for k, v in q.items() if k in ("distinct", "limit", "offset", "fetch")}
    if spec["projection"] == "keep":
        targets = []
        for t in q["targets"]:
            if t[0] == "*":
                targets.append(t)
            elif t[0] == "t.*":
                if t[1] in keep:
                    targets.append(t)
            elif _tables(t[0]) <= keep:
                targets.append(t)
        want["targets"] = targets or [["*"]]
        if q.get("distinct_on"):
            on = [x for x in q["distinct_on"] if _tables(x) <= keep]
            if on:
                want["distinct_on"] = on
            want.pop("distinct", None)
    else:
        want.pop("distinct", None)
        want["targets"] = [[["func", "count", [["star"]], {}], None]] if spec["projection"] == "count_star" else [["*"]]
    want["from"] = kept
    for clause in ("where", "having"):
        if q.get(clause):
            want[clause] = pred_fragment(q[clause], keep)
    if q.get("group"):
        want["group"] = [x for x in q["group"] if _tables(x) <= keep] or None
    if q.get("order"):
        want["order"] = [o for o in q["order"] if _tables(o[0]) <= keep] or None
    if q.get("ctes"):
        need, todo = set(), [f["name"] for f in kept if f["kind"] == "cte"]
        by_name = {c["name"]: c for c in q["ctes"]}
        todo += [lf["name"] for e in [x for k in ("where", "having") if want.get(k) for x in [want[k]]] +
                 [t[0] for t in want["targets"] if t[0] not in ("*", "t.*")] + [o[0] for o in want.get("order") or []] + (want.get("group") or [])
                 for lf in scanned(e)]
        while todo:
            name = todo.pop()
            if name in need or name not in by_name:
                continue
            need.add(name)
            if "query" in by_name[name]:
                todo += [lf["name"] for lf in leaves_of(by_name[name]["query"]) if lf["kind"] == "cte"]
        want["ctes"] = [c for c in q["ctes"] if c["name"] in need] or None
    same_sql(f"extract_query_fragment({sorted(keep)}, {spec['projection']})", got, sqlgen.rq(want), sql)
    foreign = TableReference("does_not_exist", "dne")
    require(transform.extract_query_fragment(query, [*tabs, foreign]) is None, "fragment for an unknown table of %s is not None", sql)


def scanned(e):
    for n in sqlgen.walk(e):
        sub = sqlgen.direct_query(n)
        if sub is not None:
            yield from (lf for lf in leaves_of(sub) if lf["kind"] == "cte")


# ------------------------------------------------------------------ predicates

@composite
def pred_spec(d):
    n = d.int(1, 3)
    rels = pg.gen_relations(d, n)
    p = pg.gen_pred(d, n, 3)
    nodes = list(pred_nodes(p))
    target = d.choice(nodes) if d.flag(85) else pg.gen_base(d, n)
    return {"rels": rels, "p": p, "target": target, "new": pg.gen_pred(d, n, 1), "having": d.flag(30)}


def pred_nodes(p):
    yield p
    if p[0] in ("and", "or"):
        for c in p[1]:
            yield from pred_nodes(c)
    elif p[0] == "not":
        yield from pred_nodes(p[1])


def canon(p):
    if p[0] == "in":
        return ["in", p[1], sorted({str(v) for v in p[2]})]
    if p[0] in ("and", "or"):
        return [p[0], [canon(c) for c in p[1]]]
    if p[0] == "not":
        return ["not", canon(p[1])]
    return p


def model_remove(p, target):
    if canon(p) == canon(target):
        return None
    if p[0] in ("and", "or"):
        parts = [x for x in (model_remove(c, target) for c in p[1]) if x is not None]
        return None if not parts else parts[0] if len(parts) == 1 else [p[0], parts]
    if p[0] == "not":
        c = model_remove(p[1], target)
        return None if c is None else ["not", c]
    return p


def model_replace(p, target, new):
    if canon(p) == canon(target):
        return new
    if p[0] in ("and", "or"):
        return [p[0], [model_replace(c, target, new) for c in p[1]]]
    if p[0] == "not":
        return ["not", model_replace(p[1], target, new)]
    return p


def pred_check(spec):
    pb.reset()
    rels = spec["rels"]
    schema = None

    def sql_of(p, having=None):
        return f"SELECT count(*) FROM {pg.rfrom(rels)}" + (f" WHERE {pg.rx(p, rels)}" if p else "") + \
            (f" GROUP BY {pg.ident(rels[0])}.a HAVING {pg.rx(having, rels)}" if having else "")

    def where(p):
        return pb.parse(sql_of(p), schema).where_clause.predicate
    pred, target, new = where(spec["p"]), where(spec["target"]), where(spec["new"])
    got = transform.remove_predicate(pred, target)
    model = model_remove(spec["p"], spec["target"])
    if (got is None) != (model is None):
        fail(f"removing {target} from {pred} gives {got}, expected {model and pg.rx(model, rels)}")
    if got is not None:
        same_sql(f"remove_predicate({target})", f"SELECT 1 WHERE {got}", f"SELECT 1 WHERE {pg.rx(model, rels)}", str(pred))
    require(transform.remove_predicate(None, target) is None, "removing from no predicate")
    query = pb.parse(sql_of(spec["p"], spec["p"] if spec["having"] else None), schema)
    model = model_replace(spec["p"], spec["target"], spec["new"])
    got = transform.replace_predicate(query, target, new)
    same_sql(f"replace_predicate({target} by {new})", got, sql_of(model, model if spec["having"] else None), str(query))

    def conj(p):
        return [x for c in p[1] for x in conj(c)] if p[0] == "and" else [p]
    wrapped = qal.CompoundPredicate(qal.CompoundOperator.And, [pred, qal.CompoundPredicate(qal.CompoundOperator.And, [new, target])])
    expected = {where(c) for part in (spec["p"], spec["new"], spec["target"]) for c in conj(part)}
    both = qal.CompoundOperator.And
    doubled = qal.CompoundPredicate(both, [qal.CompoundPredicate(both, [pred, pred]), pred])
    own = {where(c) for c in conj(spec["p"])}
    for source, want in ((pred, own), (wrapped, expected), (doubled, own)):
        flat = transform.flatten_and_predicate(source)
        have = list(flat.children) if isinstance(flat, qal.CompoundPredicate) and flat.operation == qal.CompoundOperator.And else [flat]
        require(set(have) == want and len(have) == len(set(have)), "flatten_and_predicate(%s) gives %s", source, flat)


# ------------------------------------------------------------------ equivalence

@composite
def inner_spec(d):
    """Inner-join queries over base tables (both spellings)."""
    g = sqlgen.Gen(d, values=False, funcs=False, lateral=False, outer=False, ctes=False, setops=False, windows=False, quoted=d.flag(30))
    mode = d.choice(["implicit", "subquery"])
    if mode == "subquery":
        g.o["joins"] = False
        g.o["subq"] = False
        g.o["star"] = False
        g.max_from = 4
    else:
        g.o["joins"] = True
    old = g.from_clause

    def no_subqueries(outer=(), lo=1):
        save = g.o["subq"], g.o["values"]
        depth, g.depth = g.depth, 0
        try:
            return old(outer, 3 if mode == "subquery" else 2)
        finally:
            g.depth = depth
            g.o["subq"], g.o["values"] = save
    g.from_clause = no_subqueries
    q, _ = g.block()
    tabs = [lf["alias"] or lf["name"] for f in q["from"] for lf in sqlgen.from_leaves(f)]
    return {"q": q, "mode": mode, "tables": d.some(tabs, 2, len(tabs)) if len(tabs) > 1 else tabs, "variant": d.int(0, 2),
            "name": d.choice(["", "sub_q"])}


def conjuncts(p):
    if isinstance(p, qal.CompoundPredicate) and p.operation == qal.CompoundOperator.And:
        return [x for c in p.children for x in conjuncts(c)]
    return [p]


def inner_check(spec):
    pb.reset()
    q = spec["q"]
    sql = sqlgen.rq(q)
    query = pb.parse(sql, pb.gen_schema())
    if spec["mode"] == "implicit":
        if not isinstance(query, qal.ExplicitSqlQuery):
            return
        got = transform.explicit_to_implicit(query)
        require(isinstance(got, qal.ImplicitSqlQuery), "explicit_to_implicit gives a %s", type(got))
        for name in ("select_clause", "groupby_clause", "having_clause", "orderby_clause", "limit_clause", "cte_clause", "hints", "explain"):
            require(getattr(got, name) == getattr(query, name), "explicit_to_implicit changes the %s of %s: %s", name, sql, got)
        require(got.tables() == query.tables(), "explicit_to_implicit changes the tables of %s: %s", sql, got)
    else:
        tabs = {t for t in query.tables() if t.identifier() in spec["tables"]}
        if len(tabs) < 2:
            return
        cols = {c for clause in query.clauses() if not isinstance(clause, (qal.From, qal.Where)) for c in clause.columns() if c.table in tabs}
        for p in conjuncts(query.where_clause.predicate) if query.where_clause else []:
            if not p.tables() or not p.tables() <= tabs:
                cols |= {c for c in p.columns() if c.table in tabs}
        clash = len({c.name for c in cols}) < len(cols)
        try:
            got = transform.move_into_subquery(query, tabs, spec["name"])
        except ValueError as e:
            if clash:
                return
            fail(f"move_into_subquery({sorted(spec['tables'])}) fails for {sql}: {e}")
        require(not clash, "move_into_subquery accepts columns of the same name: %s -> %s", sql, got)
    try:
        before = duck.run(sql, spec["variant"])
    except duck.ExecError:
        return
    try:
        after = duck.run(str(got), spec["variant"])
    except duck.ExecError as e:
        fail(f"transformed query cannot be executed: {e}\n  original: {sql}\n  transformed: {got}")
    deterministic = q.get("limit") is None and q.get("offset") is None and not q.get("distinct_on")
    if deterministic and not duck.same(before, after, False):
        fail(f"transformed query has another result ({after} instead of {before})\n  original: {sql}\n  transformed: {got}")
    if not deterministic and len(before) != len(after):
        fail(f"transformed query has {len(after)} instead of {len(before)} rows\n  original: {sql}\n  transformed: {got}")


# ------------------------------------------------------------------ expressions

@composite
def expression_spec(d):
    return {"q": sqlgen.Gen(d).query(), "bind": d.flag(50)}


def expression_check(spec):
    pb.reset()
    sql = sqlgen.rq(spec["q"])
    query = pb.parse(sql, pb.gen_schema() if spec["bind"] else None)
    seen = []

    def identity(e):
        seen.append(e)
        return e
    got = transform.replace_expressions(query, identity)
    require(got == query and str(got) == str(query) and type(got) is type(query),
            "replacing every expression by itself changes %s to %s", sql, got)
    again = transform.rename_columns_in_query(query, {})
    require(again == query and str(again) == str(query) and type(again) is type(query), "renaming no column changes %s to %s", sql, again)
    nothing = transform.rename_table(query, {})
    require(nothing == query and str(nothing) == str(query) and type(nothing) is type(query), "renaming no table changes %s to %s", sql, nothing)


# ------------------------------------------------------------------ renaming on fragments

@composite
def fragrename_spec(d):
    return {**sqlfrag.query(d), "what": d.weighted([(40, "columns"), (25, "table"), (15, "prefix"), (20, "nothing")]),
            "cols": d.some(["a", "b", "id", "t", "arr"], 1, 3)}


def outside_strings(sql, fn):
    return "".join(part if i % 2 else fn(part) for i, part in enumerate(re.split(r"('(?:[^']|'')*')", sql)))


def fragrename_check(spec):
    pb.reset()
    sql = spec["sql"]
    try:
        pgnorm.normal_form(sql)
        query = pb.parse(sql)
    except Exception:  # noqa: BLE001
        return  # odd combinations and unsupported features are the subject of C01
    text, h = str(query), hash(query)
    r, new = TableReference("r"), TableReference("newr")
    if spec["what"] == "columns":
        want = outside_strings(sql, lambda s: re.sub(r"\br\.(" + "|".join(spec["cols"]) + r")\b", r"r.zz\1", s))
        got = transform.rename_columns_in_query(query, {ColumnReference(c, r): ColumnReference("zz" + c, r) for c in spec["cols"]})
    elif spec["what"] == "nothing":
        want = sql
        got = transform.rename_columns_in_query(query, {})
        require(got == query and hash(got) == h, "renaming no column changes %s to %s", sql, got)
        got = transform.replace_expressions(query, lambda e: e)
        require(got == query and hash(got) == h, "replacing all expressions by themselves changes %s to %s", sql, got)
    else:
        prefix = "r_" if spec["what"] == "prefix" else ""
        want = outside_strings(sql, lambda s: re.sub(r"\bFROM r\b", "FROM newr", re.sub(
            r"\br\.\*", "newr.*", re.sub(r"\br\.(\w+)", rf"newr.{prefix}\1", s))))
        got = transform.rename_table(query, r, new, prefix_column_names=bool(prefix))
    same_sql(f"renaming ({spec['what']}, {spec['cols']})", got, want, sql)
    require(str(query) == text and hash(query) == h, "renaming changed the original query %s", sql)


FACETS = [
    Facet("fragments", fragrename_spec, fragrename_check, quick=1500, thorough=30000, shards=4,
          rule="query assembled from ~350 SQL fragments (arrays, casts, windows, FILTER, GROUP BY DISTINCT, VALUES, set operations, SET and hint "
               "prefixes, EXPLAIN); columns or the table of relation r are renamed; result must be the text with the references replaced; "
               "non-trivial: at least two optional parts", nontrivial=lambda s: len(s["parts"]) >= 2,
          classify=lambda s: [s["what"]] + s["parts"]),
    Facet("renaming", rename_spec, rename_check, quick=1000, thorough=20000, shards=6,
          rule="random query; random subset of its columns / one or two of its tables renamed (pairs, dicts, swaps, prefixes); result must have "
               "the syntax tree of the specification with exactly these references renamed; non-trivial: something is renamed",
          nontrivial=lambda s: bool(s.get("cols") or s.get("tabs")), classify=lambda s: [s["mode"]] + sqlgen.labels(s["q"])),
    Facet("clauses", clause_spec, clause_check, quick=800, thorough=16000, shards=3,
          rule="two random queries; clauses of the second added to / replaced in the first, clauses dropped by type or instance, star / count(*) "
               "projections, EXPLAIN and hints added and removed; non-trivial: always",
          classify=lambda s: [s["op"], *s["clauses"]]),
    Facet("fragment", fragment_spec, fragment_check, quick=800, thorough=16000, shards=3,
          rule="random implicit query with CTEs and subqueries, random subset of its FROM entries; the fragment must contain exactly the parts that "
               "only reference these tables; non-trivial: a proper subset",
          nontrivial=lambda s: len(s["keep"]) < len(s["q"]["from"]),
          classify=lambda s: [s["projection"]] + sqlgen.labels(s["q"])),
    Facet("predicates", pred_spec, pred_check, quick=700, thorough=14000, shards=3,
          rule="random predicate hierarchy, one of its nodes (or an unrelated predicate) removed / replaced / hierarchy flattened, compared with the "
               "documented rules; non-trivial: compound predicate",
          nontrivial=lambda s: s["p"][0] in ("and", "or", "not"), classify=lambda s: [s["p"][0], s["target"][0]]),
    Facet("equivalence", inner_spec, inner_check, quick=700, thorough=14000, shards=3,
          rule="random inner-join queries: explicit to implicit joins, tables moved into a subquery; all clauses kept and same result on DuckDB; "
               "non-trivial: more than two tables", nontrivial=lambda s: len(s["tables"]) >= 2, classify=lambda s: [s["mode"]]),
    Facet("neutral", expression_spec, expression_check, quick=500, thorough=10000, shards=2,
          rule="random query; replacing all expressions by themselves and empty renamings must yield an equal query; non-trivial: more than 3 features",
          nontrivial=lambda s: len(sqlgen.labels(s["q"])) > 3, classify=lambda s: sqlgen.labels(s["q"])),
]
