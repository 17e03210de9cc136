"""C36: the native cost model returns the target system's cost of exactly the requested (partial) plan."""
from __future__ import annotations

import itertools
import math
import warnings

from pbt import graphlib as gl
from pbt import pb
from pbt.draw import composite
from pbt.engine import Facet, fail, require
from pbt.planlib import gen_shape
from pbt.stubdb import StubPostgres, hash01
from postbound._core import Cardinality, IntermediateOperator, JoinOperator, ScanOperator
from postbound._qep import QueryPlan, SortKey
from postbound.db import DatabaseServerError, DatabaseUserError
from postbound.opt import native
from postbound.qal import ColumnExpression

ASSUMPTIONS = ["the target system is a stand-in: its EXPLAIN costs are a function of the (sub-)plan, the predicates below it and the requested order",
               "whether failures of materialize/memoize estimates raise (raise_on_error) is not judged: they may raise or yield infinity",
               "sort keys contain a column of the sorted tables; queries are SELECT * or COUNT(*) with an optional ORDER BY"]
SCANS = [o.name for o in ScanOperator]
JOINS = [o.name for o in JoinOperator]
OPS = {o.name: o for kind in (ScanOperator, JoinOperator, IntermediateOperator) for o in kind}


# ---------------------------------------------------------------- generation

@composite
def strategy(d):
    g = gl.gen_graph(d, 1, 5, connected=d.flag(85))
    n = len(g["tabs"])
    filters = [[i, f"{gl.name(g, i)}.{d.choice(gl.COLS)} {d.choice(['>', '<', '='])} {d.int(0, 9)}"] for i in d.subset(range(n), 50)]
    idx = [d.int(0, n - 1)]
    for _ in range(0 if d.flag(20) else d.int(0, n - 1)):
        near = [i for i in range(n) if i not in idx and gl.connected([*idx, i], list(gl.edges(g)))]
        if near:
            idx.append(d.choice(near))

    def node(t, top=False):
        if t[0] == "s":
            out = {"op": d.choice(SCANS + ["IndexScan"]), "i": t[1], "ch": [], "card": d.int(0, 5000)}
        else:
            out = {"op": d.choice(JOINS), "ch": [node(t[1]), node(t[2])], "card": d.int(0, 5000)}
        if not top and d.flag(15):
            out = {"op": d.choice(["Materialize", "Sort"]), "ch": [out], "card": out["card"]}
        return out
    plan = node(gen_shape(d, d.permutation(idx)), True)
    top = d.weighted([(45, ""), (20, "Materialize"), (20, "Memoize"), (25, "Sort")])
    if top:
        plan = {"op": top, "ch": [plan], "card": plan["card"]}
        if top == "Sort":
            plan["keys"] = [[[[i, c]] + ([[d.int(0, n - 1), d.choice(gl.COLS)]] if d.flag(40) else []), d.flag(75)]
                            for i, c in d.some([(i, c) for i in idx for c in gl.COLS], 1, 2)]
        if top == "Memoize":
            i, c = d.choice([(j[k], j[k + 1]) for j in g["joins"] for k in (0, 2) if j[k] in idx] or [(idx[0], "id")])
            plan["key"] = [i, c]
    return {"g": g, "filters": filters, "order": [d.int(0, n - 1), d.choice(gl.COLS)] if d.flag(20) else None, "plan": plan, "seed": d.int(0, 10**6),
            "fail": d.choice([0, 0, 30, 60]), "raise": d.flag(40), "count": d.flag(15), "verbose": d.flag(40)}


def members(n):
    return {n["i"]} if "i" in n else set().union(*[members(c) for c in n["ch"]])


def build(g, n):
    kw = {}
    if "i" in n:
        kw["base_table"] = gl.tab(g, n["i"])
    if "key" in n:
        kw["lookup_key"] = ColumnExpression(gl.col(g, *n["key"]))
    if "keys" in n:
        kw["sort_keys"] = [SortKey([ColumnExpression(gl.col(g, *m)) for m in ms], ascending=asc) for ms, asc in n["keys"]]
    return QueryPlan(OPS[n["op"]], children=[build(g, c) for c in n["ch"]], estimated_cardinality=Cardinality(n["card"]), **kw)


# ---------------------------------------------------------------- the target system

class Rejected(Exception):
    pass


class System:
    """What the system answers to a query (select, predicates, order) with a hinted plan: nested [operator, tables, card, children, key, cost]."""

    def __init__(self, seed, fails):
        self.seed, self.fails = seed, fails / 100

    def explain(self, select, preds, order, plan):
        names = plan[1]
        if hash01(self.seed, "fail", select, sorted(preds), order, self.shape(plan)) < self.fails:
            raise Rejected
        if select == "*" and plan[0] in ("IndexScan", "IndexOnlyScan") and not order and hash01(self.seed, "useless", self.shape(plan)) < 0.5:
            raise Rejected
        if select == "count" and plan[0] in ("IndexScan", "IndexOnlyScan") and hash01(self.seed, "other", self.shape(plan)) < 0.3:
            plan = ["SequentialScan" if plan[0] == "IndexScan" else "IndexScan", *plan[1:]]
        root = self.cost(plan, preds)
        if order:
            root = ["Sort", names, plan[2], [root], None, hash01(self.seed, "sort", order, self.shape(plan)) * 1000]
        if select == "count":
            root = ["Aggregate", names, 1, [root], None, hash01(self.seed, "count", self.shape(root)) * 1000]
        return root

    def shape(self, n):
        return (n[0], sorted(n[1]), n[2], n[4], [self.shape(c) for c in n[3]])

    def cost(self, n, preds):
        ch = [self.cost(c, preds) for c in n[3]]
        if len(ch) == 2 and ch[0][0] in ("Materialize", "Memoize"):  # useless for the outer input
            ch[0] = ch[0][3][0]
        if len(ch) == 2 and ch[1][0] in ("Materialize", "Memoize"):  # the system may decide to use the plain input
            drop = hash01(self.seed, "drop", self.shape(n)) < 0.2
            if ch[1][0] == "Memoize":
                drop |= not any(ch[1][4] in p.split(" = ") and (set(x.split(".")[0] for x in p.split(" = ")) & ch[0][1]) for p in preds)
            if drop:
                ch[1] = ch[1][3][0]
        below = sorted(p for p in preds if self.over(p) <= n[1])
        return [*n[:3], ch, n[4], hash01(self.seed, "cost", self.shape(n), below) * 1000]

    def over(self, p):
        return {x.split(".")[0] for x in p.split(" ") if "." in x}


def find(n, op, names):
    if n[0] == op and n[1] == names:
        return n
    return next((r for r in (find(c, op, names) for c in n[3]) if r), None)


class Hinting:
    def generate_hints(self, query, plan=None, **kw):
        require(isinstance(plan, QueryPlan) and not kw, "hints are requested for %s, %s", plan, kw)
        return query, plan


class Server(StubPostgres):
    def __init__(self, system, log):
        super().__init__(list(OPS), gl.schema_stub({}))
        self.system, self.log = system, log

    def hinting(self):
        return Hinting()

    def optimizer(self):
        return self

    def explain(self, hinted):
        query, plan = hinted
        text = str(query).rstrip(";")
        require({t.identifier() for t in query.tables()} == {t.identifier() for t in plan.tables()}, "the tables of %s are not those of the hinted plan %s", text, plan)
        select = {"SELECT *": "*", "SELECT COUNT(*)": "count"}.get(str(query.select_clause))
        require(select is not None, "projection of the estimated query %s", text)
        require(query.groupby_clause is None and query.limit_clause is None and query.having_clause is None, "clauses of %s", text)
        preds = str(query.where_clause.predicate).split(" AND ") if query.where_clause else []
        order = [str(e).removesuffix(" ASC") for e in query.orderby_clause.expressions] if query.orderby_clause else []
        require(str(pb.parse(text)) == str(pb.parse(str(pb.parse(text)))), "no valid query: %s", text)
        self.log.append(text)

        def conv(p):
            key = str(p.lookup_key) if p.lookup_key else None
            return [p.operator.name, {t.identifier() for t in p.tables()}, int(p.estimated_cardinality) if p.estimated_cardinality.is_valid() else None,
                    [conv(c) for c in p.children], key]
        try:
            return self.system.explain(select, sorted(preds), order, conv(plan))
        except Rejected:
            raise (DatabaseServerError if self.system.seed % 2 else DatabaseUserError)("rejected") from None

    def cost_estimate(self, hinted):
        return self.explain(hinted)[5]

    def query_plan(self, hinted):
        tabs = {t.identifier(): t for t in hinted[0].tables()}

        def qep(n):
            op = OPS.get(n[0])
            # EXPLAIN plans use the names of the system
            return QueryPlan({"SequentialScan": "Seq Scan", "IndexScan": "Index Scan", "NestedLoopJoin": "Nested Loop"}.get(n[0], n[0]), operator=op,
                             children=[qep(c) for c in n[3]], base_table=tabs[next(iter(n[1]))] if op in list(ScanOperator) else None, estimated_cost=n[5])
        return qep(self.explain(hinted))


# ---------------------------------------------------------------- the check

def check(spec):
    pb.reset()
    g, n = spec["g"], spec["plan"]
    idx, all_idx = members(n), set(range(len(g["tabs"])))
    order = [f"{gl.name(g, spec['order'][0])}.{spec['order'][1]}"] if spec["order"] else []
    query = pb.parse(gl.sql(g, [f for _, f in spec["filters"]], "COUNT(*)" if spec["count"] else "*") + (f" ORDER BY {order[0]}" if order else ""))
    before = str(query)
    plan = build(g, n)
    system, log = System(spec["seed"], spec["fail"]), []
    db = Server(system, log)

    def preds(idx):
        return sorted([f"{gl.name(g, i)}.{ci} = {gl.name(g, j)}.{cj}" for i, ci, j, cj in g["joins"] if {i, j} <= idx] + [f for i, f in spec["filters"] if i in idx])

    def kept_order(idx):
        return order if spec["order"] and spec["order"][0] in idx else []

    def shape(n):
        return [n["op"], {gl.name(g, i) for i in members(n)}, n["card"], [shape(c) for c in n["ch"]], f"{gl.name(g, n['key'][0])}.{n['key'][1]}" if "key" in n else None]

    def ask(select, idx, order, plan):
        try:
            return system.explain(select, preds(idx), order, plan)
        except Rejected:
            return None
    want, strict, invalid = [], True, False
    if n["op"] in ("Materialize", "Memoize"):
        strict = False
        invalid = idx == all_idx
        partners = {i for j in g["joins"] for i, own in (((j[0]), j[2:]), ((j[2]), j[:2])) if i not in idx and own[0] in idx
                    and (n["op"] == "Materialize" or [own[0], own[1]] == n["key"])}
        for p in partners:
            top = ["NestedLoopJoin", {gl.name(g, i) for i in idx | {p}}, None, [["SequentialScan", {gl.name(g, p)}, None, [], None], shape(n)], None]
            answer = ask("*", idx | {p}, kept_order(idx | {p}), top)
            found = find(answer, n["op"], {gl.name(g, i) for i in idx}) if answer else None
            want.append(found[5] if found else math.inf)
        want = want or [math.inf]
    elif n["op"] == "Sort":
        child = n["ch"][0]
        choices = [[f"{gl.name(g, i)}.{c}" + ("" if asc else " DESC") for i, c in ms if i in idx] for ms, asc in n["keys"]]
        for keys in itertools.product(*choices):
            answer = ask("*", idx, list(keys), shape(child))
            if answer is None and child["op"] in ("IndexScan", "IndexOnlyScan"):
                return  # the fallback of index scans does not know a sort order
            want.append(math.inf if answer is None else answer[5])
    else:
        answer = ask("count" if spec["count"] else "*", idx, kept_order(idx), shape(n))
        want = [math.inf if answer is None else answer[5]]
        if answer is None and n["op"] in ("IndexScan", "IndexOnlyScan"):
            if kept_order(idx):
                return
            answer = ask("count", idx, [], shape(n))
            scan = answer[3][0] if answer else None
            want = [scan[5] if scan and scan[0] == n["op"] else math.inf]
    model = native.NativeCostModel(raise_on_error=spec["raise"], verbose=spec["verbose"])
    model.initialize(db, query)
    with warnings.catch_warnings(record=True) as caught:
        warnings.simplefilter("always")
        try:
            cost = model.estimate_cost(query, plan)
        except (DatabaseServerError, DatabaseUserError):
            require(spec["raise"] and math.inf in want, "estimating %s fails, the system estimates %s", plan, want)
            return
        except ValueError:
            if invalid:
                return
            raise
    require(not invalid, "%s is estimated as root of the plan", n["op"])
    require(any(cost == w or (w < math.inf and abs(cost - w) < 1e-9 * w) for w in want), "cost of %s: %s instead of %s; asked: %s", plan.ast(), cost, want, log)
    require(not (strict and spec["raise"] and cost == math.inf), "raise_on_error returns infinity for %s", plan)
    noise = [str(w.message) for w in caught if issubclass(w.category, native.CostEstimationWarning)]
    require(spec["verbose"] or not noise, "warnings without verbose: %s", noise)
    require(not noise or cost == math.inf, "warning for a finite cost: %s", noise)
    require(str(query) == before, "the query was changed")


FACETS = [
    Facet("costs", strategy, check, 1500, 40000, "the plan covers a part of the query or its root is an index scan or intermediate operator",
          nontrivial=lambda s: len(members(s["plan"])) < len(s["g"]["tabs"]) or s["plan"]["op"] in ("IndexScan", "IndexOnlyScan", "Sort", "Materialize", "Memoize"),
          classify=lambda s: [s["plan"]["op"], f"fail={s['fail']}", f"tables={len(members(s['plan']))}/{len(s['g']['tabs'])}"]),
]
