"""C16: exhaustive and random plan enumeration."""
from __future__ import annotations

import itertools
import random

from pbt import graphlib as gl
from pbt import pb
from pbt.draw import composite
from pbt.engine import Facet, fail, require
from pbt.stubdb import StubDB
from postbound._core import JoinOperator, ScanOperator
from postbound._hints import JoinTree
from postbound.opt import enumeration, randomized

ASSUMPTIONS = ["queries without nested queries; cross products are rejected with a ValueError as documented"]
SCANS = ["SequentialScan", "IndexScan", "IndexOnlyScan", "BitmapScan"]
JOINS = ["NestedLoopJoin", "HashJoin", "SortMergeJoin"]
STRUCT = ["bushy", "left-deep", "right-deep"]


def gen_ops(d, every):
    return d.weighted([(3, None), (1, []), (5, d.some(every, 1, len(every)))])


@composite
def enum_strategy(d):
    hi = d.weighted([(5, 4), (1, 5)])
    g = gl.gen_graph(d, 1, hi, connected=d.flag(85))
    n = len(g["tabs"])
    extra = [f"{gl.name(g, d.int(0, n - 1))}.{d.choice(gl.COLS)} {d.choice(['= 1', '> 3'])}" for _ in range(d.int(0, 2))]
    return {"g": g, "extra": extra, "structure": d.choice(STRUCT), "scans": gen_ops(d, SCANS), "joins": gen_ops(d, JOINS),
            "db": d.some(SCANS, 1, 4) + d.some(JOINS, 1, 3), "include": d.weighted([(5, "both"), (2, "scans"), (2, "joins")]),
            "tree": d.int(0, 10 ** 6), "seed": d.int(0, 10 ** 6), "base": d.weighted([(2, None), (2, d.int(0, n - 1))]), "uniq": d.flag(50),
            "k": d.int(1, 30)}


# ---------------------------------------------------------------- model

def trees(s, conn, structure):
    """All cross-product free join trees over the set s, as nested tuples."""
    if len(s) == 1:
        return [next(iter(s))]
    out = []
    for k in range(1, len(s)):
        if structure == "left-deep" and k != len(s) - 1 or structure == "right-deep" and k != 1:
            continue
        for o in itertools.combinations(sorted(s), k):
            o = frozenset(o)
            i = s - o
            if o in conn and i in conn:
                out += [(x, y) for x in trees(o, conn, structure) for y in trees(i, conn, structure)]
    return out


def as_tuple(jt, T):
    return T.index(jt.base_table) if jt.is_scan() else (as_tuple(jt.outer_child, T), as_tuple(jt.inner_child, T))


def model(spec):
    n = len(spec["g"]["tabs"])
    keys = list(gl.edges(spec["g"]))
    conn = set(gl.csg(n, keys))
    full = frozenset(range(n))
    return (trees(full, conn, spec["structure"]) if full in conn else None), keys


def build(t, T):
    return JoinTree.scan(T[t]) if isinstance(t, int) else JoinTree.join(build(t[0], T), build(t[1], T))


def inner_sets(t):
    return [] if isinstance(t, int) else [frozenset(flat(t))] + inner_sets(t[0]) + inner_sets(t[1])


def flat(t):
    return [t] if isinstance(t, int) else flat(t[0]) + flat(t[1])


def base_joins(t):
    return [] if isinstance(t, int) else [set(t)] if all(isinstance(x, int) for x in t) else base_joins(t[0]) + base_joins(t[1])


def setup(spec):
    g = spec["g"]
    q = pb.parse(gl.sql(g, spec["extra"]))
    T = [gl.tab(g, i) for i in range(len(g["tabs"]))]
    scans = sorted(set(spec["scans"] or SCANS) & set(spec["db"])) if spec["include"] != "joins" else []
    joins = sorted(set(spec["joins"] or JOINS) & set(spec["db"])) if spec["include"] != "scans" else []
    db = StubDB(spec["db"], None)
    args = dict(scan_operators=None if spec["scans"] is None else [o for o in ScanOperator if o.name in spec["scans"]],
                join_operators=None if spec["joins"] is None else [o for o in JoinOperator if o.name in spec["joins"]],
                include_scans=spec["include"] != "joins", include_joins=spec["include"] != "scans", database=db)
    return q, T, scans, joins, args


def key_of_assignment(a, T):
    """{relation or set of relations: operator}"""
    out = [(T.index(t), op.operator.name) for t, op in a.scan_operators.items()]
    out += [(frozenset(map(T.index, ts)), op.operator.name) for ts, op in a.join_operators.items()]
    require(not a.intermediate_operators and not a.global_settings, "assignment with more than operators: %s", a)
    for op in [*a.scan_operators.values(), *a.join_operators.values()]:
        require(op.parallel_workers != op.parallel_workers or not op.parallel_workers, "assignment with workers: %s", a)
    return frozenset(out)


def check_exhaustive(spec):
    q, T, scans, joins, args = setup(spec)
    want, _ = model(spec)
    enum = enumeration.ExhaustiveJoinOrderEnumerator(spec["structure"])
    if want is None:
        try:
            got = list(enum.all_join_orders_for(q))
        except ValueError:
            return
        fail("a query with cross products has join orders %s", got)
    got = [as_tuple(t, T) for t in enum.all_join_orders_for(q)]
    require(len(got) == len(set(got)), "%s join orders of %s contain duplicates: %s", spec["structure"], q, got)
    require(set(got) == set(want), "%s join orders of %s: missing %s, additional %s", spec["structure"], q, sorted(set(want) - set(got), key=str)[:3],
            sorted(set(got) - set(want), key=str)[:3])
    # operators of one of them
    t = want[spec["tree"] % len(want)]
    n = len(T)
    if spec["include"] == "both" and n > 4 and len(scans) ** n * len(joins) ** (n - 1) > 3000:
        return
    ops = enumeration.ExhaustiveOperatorEnumerator(**args)
    # all assignments are collected first: they have to stay independent of each other
    res = [key_of_assignment(a, T) for a in list(ops.all_operator_assignments_for(q, build(t, T)))]
    nodes = (list(range(n)) if spec["include"] != "joins" else []) + (inner_sets(t) if spec["include"] != "scans" else [])
    allowed = [scans if isinstance(x, int) else joins for x in nodes]
    expect = {frozenset(zip(nodes, sel)) for sel in itertools.product(*allowed)}
    require(len(res) == len(set(res)), "operator assignments of %s contain duplicates", t)
    require(set(res) == expect, "operator assignments of %s: %s instead of %s; missing %s, additional %s", t, len(res), len(expect),
            list(expect - set(res))[:1], list(set(res) - expect)[:1])
    # complete plans
    if spec["include"] != "both" or len(want) * len(expect) > 600:
        return
    plans = enumeration.ExhaustivePlanEnumerator(join_order_args={"tree_structure": spec["structure"]}, operator_args=args)
    got = [plan_key(p, T, scans, joins) for p in list(plans.all_plans_for(q))]
    require(len(set(got)) == len(got), "plans of %s contain duplicates", q)
    number = len(want) * len(scans) ** n * len(joins) ** (n - 1)
    require(len(got) == number, "%s plans of %s instead of %s", len(got), q, number)
    require(not number or {shape_of(k) for k in got} == set(want), "join orders of the plans of %s", q)


def plan_key(p, T, scans, joins):
    if p.is_scan():
        require(p.operator.name in scans, "scan with %s, allowed are %s", p.operator, scans)
        return (p.operator.name, T.index(p.base_table))
    require(p.is_join() and p.operator.name in joins, "join with %s, allowed are %s", p.operator, joins)
    return (p.operator.name, plan_key(p.outer_child, T, scans, joins), plan_key(p.inner_child, T, scans, joins))


def shape_of(k):
    return k[1] if len(k) == 2 else (shape_of(k[1]), shape_of(k[2]))


def take(gen, k):
    return list(itertools.islice(gen, k))


def check_random(spec):
    q, T, scans, joins, args = setup(spec)
    want, _ = model(spec)
    random.seed(spec["seed"])
    jog = randomized.RandomJoinOrderGenerator(spec["uniq"], tree_structure=spec["structure"])
    base = None if spec["base"] is None else T[spec["base"]]
    if want is None:
        try:
            got = take(jog.random_join_orders_for(q), 1)
        except ValueError:
            return
        fail("a query with cross products has join orders %s", got)
    possible = set(want)
    if spec["base"] is not None and len(T) > 1:
        possible = {t for t in possible if any(spec["base"] in b for b in base_joins(t))}
    k = min(spec["k"], len(possible)) if spec["uniq"] else spec["k"]
    if spec["uniq"]:
        k = min(k, max(1, len(possible) // 2))
    got = [as_tuple(t, T) for t in take(jog.random_join_orders_for(q, base_table=base), k)]
    require(len(got) == k, "%s random join orders instead of %s", len(got), k)
    require(set(got) <= possible, "random %s join order %s of %s (base table %s) is not valid", spec["structure"], next(iter(set(got) - possible), None), q, base)
    require(not spec["uniq"] or len(set(got)) == k, "random join orders contain duplicates: %s", got)
    t = as_tuple(randomized.RandomJoinOrderOptimizer(generator_args={"tree_structure": spec["structure"]}).optimize_join_order(q), T)
    require(t in set(want), "random join order %s is not valid", t)
    # operators
    n = len(T)
    nodes = (list(range(n)) if spec["include"] != "joins" else []) + (inner_sets(t) if spec["include"] != "scans" else [])
    allowed = {x: (scans if isinstance(x, int) else joins) for x in nodes}
    total = 1
    for x in nodes:
        total *= len(allowed[x])
    if total == 0:
        return
    gen = randomized.RandomOperatorGenerator(**args, eliminate_duplicates=spec["uniq"])
    k = min(spec["k"], max(1, total // 2)) if spec["uniq"] else spec["k"]
    jt = build(t, T)
    got = [key_of_assignment(a, T) for a in take(gen.random_operator_assignments_for(q, jt), k)]
    for a in got + [key_of_assignment(randomized.RandomOperatorOptimizer(generator_args=args).select_physical_operators(q, jt), T)]:
        require({x for x, _ in a} == set(nodes) and len(a) == len(nodes) and all(op in allowed[x] for x, op in a), "random operators %s for %s", a, t)
    require(not spec["uniq"] or len(set(got)) == k, "random operators contain duplicates")
    hints = {o.name for o in gen.necessary_hints()}
    require({op for a in got for _, op in a} <= hints <= set(spec["db"]), "necessary hints %s", hints)
    if spec["include"] != "both":
        return
    op_args = {x: v for x, v in args.items() if x != "database"}
    db = args["database"]
    pg = randomized.RandomPlanGenerator(eliminate_duplicates=spec["uniq"], join_order_args={"tree_structure": spec["structure"]}, operator_args=op_args, database=db)
    k = min(spec["k"], max(1, len(want) * total // 2)) if spec["uniq"] else spec["k"]
    got = [plan_key(p, T, scans, joins) for p in take(pg.random_plans_for(q), k)]
    p = randomized.RandomPlanOptimizer(join_order_args={"tree_structure": spec["structure"]}, operator_args=op_args, database=db).optimize_query(q)
    for x in got + [plan_key(p, T, scans, joins)]:
        require(shape_of(x) in set(want), "random plan %s", x)
    require(not spec["uniq"] or len(set(got)) == k, "random plans contain duplicates")


NT = {"nontrivial": lambda s: len(s["g"]["tabs"]) >= 3 and model(s)[0] is not None}
FACETS = [
    Facet("exhaustive", enum_strategy, check_exhaustive, quick=900, thorough=15000, shards=6,
          rule="equi-join queries over 1-5 tables, all tree structures and operator restrictions; compared with all trees by definition; "
               "non-trivial: at least 3 tables and connected", classify=lambda s: [s["structure"], s["include"]], **NT),
    Facet("random", enum_strategy, check_random, quick=900, thorough=15000, shards=6,
          rule="as exhaustive; up to 30 draws each with and without duplicate elimination and base table; non-trivial: at least 3 tables and connected",
          classify=lambda s: [s["structure"], s["include"], "unique" if s["uniq"] else "any"], **NT),
]
