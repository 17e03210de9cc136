"""C14: the dynamic programming enumerator finds a cheapest valid plan."""
from __future__ import annotations

import itertools
import math

from pbt import graphlib as gl
from pbt import pb
from pbt.draw import composite
from pbt.engine import Facet, fail, require
from pbt.stubdb import RandomCards, RandomCosts, StubDB, base_tables, key_of
from postbound._core import JoinOperator, ScanOperator
from postbound.opt.dynprog import DynamicProgrammingEnumerator

ASSUMPTIONS = ["cost models are monotone: a plan's cost is a function of its operator and inputs plus its children's costs"]
SCANS = ["SequentialScan", "IndexScan", "IndexOnlyScan", "BitmapScan"]
JOINS = ["NestedLoopJoin", "HashJoin", "SortMergeJoin"]


@composite
def dp_strategy(d):
    g = gl.gen_graph(d, 1, 5, connected=True)
    n = len(g["tabs"])
    extra = [f"{gl.name(g, d.int(0, n - 1))}.{d.choice(gl.COLS)} {d.choice(['= 1', '> 3', 'IS NOT NULL'])}" for _ in range(d.int(0, 2))]
    sel = d.weighted([(3, "*"), (3, "count(*)"), (1, f"{gl.name(g, 0)}.*"), (2, f"{gl.name(g, d.int(0, n - 1))}.{d.choice(gl.COLS)}")])
    if d.flag(60):      # mostly narrow joins so that index-only scans are possible
        for j in g["joins"]:
            j[1], j[3] = d.choice(["id", j[1]]), d.choice(["id", j[3]])
    return {"g": g, "keys": gl.gen_keys(d), "extra": extra, "select": sel, "seed": d.int(0, 10 ** 6),
            "scans": d.weighted([(5, None), (4, ["SequentialScan"] + d.subset(SCANS[1:], 50)), (1, d.some(SCANS, 1, 3))]),
            "joins": d.weighted([(4, None), (4, d.some(JOINS, 1, 3))]),
            "db": d.weighted([(5, SCANS + JOINS), (3, ["SequentialScan"] + d.subset(SCANS[1:], 60) + d.some(JOINS, 1, 3))]),
            "inf": d.weighted([(8, 0.0), (2, 0.3)]), "ints": d.flag(30), "twice": d.flag(30)}


def scan_options(spec, i):
    """All access paths of a relation: (operator, index)."""
    g = spec["g"]
    base, alias = g["tabs"][i]
    me = alias or base
    used = {c for t, c, u, e in g["joins"] if t == i} | {e for t, c, u, e in g["joins"] if u == i}
    used |= {x.split(".")[1].split()[0] for x in spec["extra"] if x.split(".")[0] == me}
    sel = spec["select"]
    if sel == "*" or sel == f"{me}.*":
        used |= set(gl.COLS)
    elif "." in sel and sel.split(".")[0] == me:
        used.add(sel.split(".")[1])
    ops = set(SCANS if spec["scans"] is None else spec["scans"]) & set(spec["db"])
    indexed = sorted(c for c in used if f"{base}.{c}" in spec["keys"])
    out = [("SequentialScan", "")] if "SequentialScan" in ops else []
    for c in indexed:
        if "IndexScan" in ops:
            out.append(("IndexScan", f"ix_{base}_{c}"))
        if "IndexOnlyScan" in ops and used == {c}:
            out.append(("IndexOnlyScan", f"ix_{base}_{c}"))
    if indexed and "BitmapScan" in ops:
        out.append(("BitmapScan", ""))
    return out


def brute_force(spec, costs):
    """Cheapest cost per connected set of relations by exhaustive enumeration of all operator trees."""
    g, n = spec["g"], len(spec["g"]["tabs"])
    names = [gl.tab(g, i).identifier() for i in range(n)]
    jops = sorted(set(JOINS if spec["joins"] is None else spec["joins"]) & set(spec["db"]))
    edge_keys = list(gl.edges(g))
    conn = set(gl.csg(n, edge_keys))
    best = {}

    def cheapest(s):
        if s in best:
            return best[s]
        if len(s) == 1:
            (i,) = s
            opts = [costs.local(op, [names[i]], extra=ix) for op, ix in scan_options(spec, i)]
            best[s] = min(opts) if opts else None
            return best[s]
        res = math.inf
        for k in range(1, len(s)):
            for outer in itertools.combinations(sorted(s), k):
                outer = frozenset(outer)
                inner = s - outer
                if outer not in conn or inner not in conn:
                    continue
                a, b = cheapest(outer), cheapest(inner)
                for op in jops:
                    local = costs.local(op, sorted(names[i] for i in outer), sorted(names[i] for i in inner))
                    res = min(res, local + a + b)
        best[s] = res
        return res
    if any(not scan_options(spec, i) for i in range(n)) or (n > 1 and not jops):
        return None
    return cheapest(frozenset(range(n)))


def conjuncts(pred):
    return frozenset() if pred is None else frozenset(pred.base_predicates()) if pred.is_base() is False and hasattr(pred, "base_predicates") else frozenset([pred])


def check_plan(plan, spec, q, cards, costs):
    g, n = spec["g"], len(spec["g"]["tabs"])
    scans = set(SCANS if spec["scans"] is None else spec["scans"]) & set(spec["db"])
    joins = set(JOINS if spec["joins"] is None else spec["joins"]) & set(spec["db"])
    T = [gl.tab(g, i) for i in range(n)]
    leaves = []

    def visit(p):
        if p.is_scan():
            require(not list(p.children), "scan with inputs: %s", p)
            require(p.operator.name in scans, "scan operator %s is not allowed", p.operator)
            leaves.append(p.base_table)
            i = T.index(p.base_table)
            require((p.operator.name, p.params.index or "") in scan_options(spec, i), "%s (index %s) is not possible for %s", p.operator, p.params.index, p.base_table)
            require(p.filter_predicate == q.predicates().filters_for(p.base_table), "filter of %s: %s", p.base_table, p.filter_predicate)
        else:
            require(p.is_join() and len(list(p.children)) == 2, "unexpected node %s", p)
            require(p.operator.name in joins, "join operator %s is not allowed", p.operator)
            o, i = base_tables(p.outer_child), base_tables(p.inner_child)
            want = q.predicates().joins_between(o, i)
            require(want is not None, "cross product between %s and %s", o, i)
            require(p.filter_predicate is not None and p.filter_predicate.columns() == want.columns(), "join condition %s, expected %s", p.filter_predicate, want)
            visit(p.outer_child)
            visit(p.inner_child)
        require(p.estimated_cardinality == cards.card(key_of(base_tables(p))), "cardinality of %s: %s", p, p.estimated_cardinality)
        require(p.estimated_cost == costs.estimate_cost(q, p), "cost of %s: %s", p, p.estimated_cost)
    visit(plan)
    require(sorted(map(str, leaves)) == sorted(map(str, T)), "plan over %s instead of %s", leaves, T)


def check_dp(spec):
    g = spec["g"]
    schema = gl.schema_stub(spec["keys"])
    q = pb.parse(gl.sql(g, spec["extra"], spec["select"]))
    cards = RandomCards(spec["seed"])
    costs = RandomCosts(spec["seed"], cards, inf=spec["inf"], ints=spec["ints"])
    db = StubDB(spec["db"], schema)
    enum = DynamicProgrammingEnumerator(
        supported_scan_ops=None if spec["scans"] is None else {o for o in ScanOperator if o.name in spec["scans"]},
        supported_join_ops=None if spec["joins"] is None else {o for o in JoinOperator if o.name in spec["joins"]}, target_db=db)
    want = brute_force(spec, costs)
    for _ in range(2 if spec["twice"] else 1):
        cards.log.clear()
        costs.log.clear()
        try:
            plan = enum.generate_execution_plan(q, cost_model=costs, cardinality_estimator=cards)
        except Exception:
            if want is None:
                return
            raise
        require(want is not None, "no plan exists, got %s", plan)
        require(math.isclose(plan.estimated_cost, want, rel_tol=1e-9) or plan.estimated_cost == want, "cost %s, but the optimum is %s: %s", plan.estimated_cost,
                want, plan)
        check_plan(plan, spec, q, cards, costs)
        for log in (cards.log, costs.log):
            require(log[0][0] == "init" and log[-1] == ("cleanup",) and sum(x[0] in ("init", "cleanup") for x in log) == 2, "initialize/cleanup protocol: %s",
                    [x[0] for x in log][:5])


FACETS = [
    Facet("plans", dp_strategy, check_dp, quick=1600, thorough=25000, shards=8,
          rule="connected equi-join queries over 1-5 (also repeated) tables, random indexes, operator restrictions and arbitrary monotone cost models; "
               "compared with exhaustive enumeration; non-trivial: at least 3 tables",
          nontrivial=lambda s: len(s["g"]["tabs"]) >= 3, classify=lambda s: [s["select"][:1], f"{len(s['g']['tabs'])} tables"]),
]
