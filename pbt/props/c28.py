"""C28: the UES optimizer returns valid join orders whose annotations are upper bounds."""
from __future__ import annotations

import itertools
import math
import warnings

from pbt import graphlib, pb, stubdb
from pbt.draw import composite
from pbt.engine import Facet, eq, require
from pbt.props import c27
from postbound import Cardinality, JoinOperator, LogicalJoinTree, util

with warnings.catch_warnings():
    warnings.simplefilter("ignore")
    from postbound.opt import JoinGraph, presets, ues

ASSUMPTIONS = ["bounds are judged for joins of two tables and for star queries: for larger n:m joins the frequency updates are documented heuristics",
               "base table estimates are known (the engine provides an estimate)"]


class World:
    """the data of quacklab with arbitrary key and index information"""

    def __init__(self, db, keys):
        self.db, self._schema = db, graphlib.schema_stub(keys)

    def schema(self):
        return self._schema

    def __getattr__(self, name):
        return getattr(self.db, name)


@composite
def trees(d):
    queries = []
    for _ in range(d.int(1, 3)):
        q = c27.gen_query(d, 1, 6, connected=d.flag(70), max_extra=2)
        q["tail"] = ""
        queries.append(q)
    keys = {}
    for t in graphlib.BASE:
        keys[f"{t}.id"] = d.weighted([(8, "pk"), (1, "idx"), (1, "")])
        for c in graphlib.COLS[1:]:
            keys[f"{t}.{c}"] = d.weighted([(6, "idx"), (4, "")])
    return {"queries": queries, "keys": {k: v for k, v in keys.items() if v}, "data": c27.gen_data(d, 6, 4, d.flag(50), lo=0), "est": d.choice(["precise", "native", "random", "random"]), "seed": d.int(0, 999),
            "policy": d.choice([None, "linear", "ues"]), "eager": d.flag(40), "zero": d.flag(20)}


class TableCards(c27.Given):
    def __init__(self, seed, zero):
        super().__init__([0])
        self.seed, self.zero = seed, zero

    def value(self, name):
        if self.zero and stubdb.hash01(self.seed, "zero", name) < 0.3:
            return 0
        return int(stubdb.hash01(self.seed, name) * 50) + (not self.zero)

    def calculate_estimate(self, query, intermediate):
        (t,) = util.enlist(intermediate)
        return Cardinality(self.value(t.identifier()))


def optimizer(spec, world):
    kw = {}
    if spec["est"] == "precise":
        kw["base_table_estimation"] = ues.PreciseCardinalityEstimator(world)
    elif spec["est"] == "random":
        kw["base_table_estimation"] = TableCards(spec["seed"], spec["zero"])
    if spec["policy"]:
        kw["subquery_policy"] = ues.LinearJoinTreePolicy() if spec["policy"] == "linear" else ues.UESSubqueryPolicy()
    return ues.UESJoinOrderOptimizer(database=world, pull_eager_pk_tables=spec["eager"], **kw)


def shape(t):
    """nested tuples of table names and annotations"""
    ann = None if t.annotation is None else float(t.annotation)
    return (t.base_table.identifier(), ann) if t.is_scan() else (shape(t.outer_child), shape(t.inner_child), ann)


def check_tree(t, q, base, what, linear=False):
    g = q["g"]
    index = {graphlib.tab(g, i): i for i in range(len(g["tabs"]))}
    edges = list(graphlib.edges(g))
    comps = graphlib.components(range(len(g["tabs"])), edges)

    def walk(n):
        require(isinstance(n, LogicalJoinTree), "%s: node is a %s", what, type(n))
        if n.is_scan():
            require(n.base_table in index, "%s: table %s is not part of the query", what, n.base_table)
            if base is not None:
                require(n.annotation is not None and float(n.annotation) == base(index[n.base_table]), "%s: table %s is annotated with %s, its estimate is %s", what, n.base_table, n.annotation, base(index[n.base_table]))
            return [index[n.base_table]]
        left, right = walk(n.outer_child), walk(n.inner_child)
        cross = not any((i in left and j in right) or (j in left and i in right) for i, j in map(tuple, edges))
        if cross:
            whole = [c for c in comps if c & set(left)], [c for c in comps if c & set(right)]
            require(set(left) == set().union(*whole[0]) and set(right) == set().union(*whole[1]), "%s: cross product of %s and %s in %s", what, left, right, shape(t))
            inputs = [c.annotation for c in (n.outer_child, n.inner_child)]
            if all(a is not None and math.isfinite(float(a)) for a in inputs):
                require(n.annotation is not None and float(n.annotation) == float(inputs[0]) * float(inputs[1]), "%s: cross product of inputs with %s and %s rows is annotated with %s", what, *inputs, n.annotation)
        else:
            require(not linear or n.outer_child.is_scan() or n.inner_child.is_scan(), "%s: the policy forbids subqueries, but the join tree is %s", what, shape(t))
        require(isinstance(n.annotation, Cardinality) or n.annotation is not None, "%s: join of %s and %s has no bound", what, left, right)
        return left + right
    found = walk(t)
    eq(sorted(found), sorted(index.values()), f"{what}: tables of the join tree")


def check_trees(spec):
    pb.reset()
    db = c27.fresh_db()
    c27.fill(db, spec["data"])
    db.statistics().emulated, db.statistics().cache_enabled = True, False
    world = World(db, spec["keys"])
    shared = optimizer(spec, world)
    results = []
    for rnd in range(2):
        for k, q in enumerate(spec["queries"]):
            query = pb.parse(c27.query_sql(q))
            text = str(query)
            if spec["est"] == "native" and any(math.isnan(c27.estimate_of(db, c27.fragment_sql(q, [i], "*"))) for i in range(len(q["g"]["tabs"]))):
                continue  # the engine provides no estimate
            fresh = optimizer(spec, world).optimize_join_order(query)
            again = shared.optimize_join_order(query)
            eq(str(query), text, "the query was changed")
            if len(q["g"]["tabs"]) < 2:
                require(fresh is None and again is None, "join order %s for a single table", fresh)
                continue
            base = None
            if spec["est"] == "precise":
                def base(i, q=q):
                    return c27.true_card(db, q, [i])
            elif spec["est"] == "random":
                def base(i, q=q):
                    return TableCards(spec["seed"], spec["zero"]).value(graphlib.tab(q["g"], i).identifier())
            require(fresh is not None, "no join order for %s", text)
            check_tree(fresh, q, base, "fresh optimizer", spec["policy"] == "linear")
            check_tree(again, q, base, "reused optimizer", spec["policy"] == "linear")


@composite
def bounds(d):
    keys = {f"{t}.id": d.weighted([(8, "pk"), (2, "")]) for t in graphlib.BASE}
    for t in graphlib.BASE:
        for c in graphlib.COLS[1:]:
            keys[f"{t}.{c}"] = d.weighted([(6, "idx"), (4, "")])
    if d.flag(45):
        q = c27.gen_query(d, 2, 2, connected=True, max_extra=1)
        star = False
    else:  # a fact table and its dimensions
        n, star = d.int(3, 5), True
        tabs, used = [], set()
        for i in range(n):
            base = d.choice(graphlib.BASE)
            tabs.append([base, f"a{i}" if base in used or d.flag(30) else ""])
            used.add(base)
        joins = []
        for i in range(1, n):
            c = d.choice(["x", "y", "z"])
            keys[f"{tabs[0][0]}.{c}"] = "idx"
            keys[f"{tabs[i][0]}.id"] = "pk"
            joins.append([0, c, i, "id"] if d.flag(50) else [i, "id", 0, c])
        filters = [[i, d.choice(["id", "x"]), d.choice([">", "<=", "<>"]), d.int(0, 4)] for i in range(n) if d.flag(40)]
        q = {"g": {"tabs": tabs, "joins": joins}, "filters": filters}
    q["tail"] = ""
    return {"q": q, "star": star, "keys": {k: v for k, v in keys.items() if v}, "data": c27.gen_data(d, 9, 3, False, lo=1), "policy": d.choice([None, "linear"]), "eager": d.flag(40), "est": d.choice(["precise", "precise", "wrapped"]), "seed": 0, "zero": False}


def max_frequency(db, q, i, c):
    """the highest number of rows that share a value; all NULL: an arbitrary upper bound"""
    return max([n for _, n in db.cursor().execute(f"SELECT {c}, COUNT(*) FROM {q['g']['tabs'][i][0]} GROUP BY {c}").fetchall()] + [0])


def expected_bound(db, spec, i, j):
    """the documented formula for the join of two base tables"""
    q, keys = spec["q"], spec["keys"]
    base = [q["g"]["tabs"][k][0] for k in range(len(q["g"]["tabs"]))]
    preds = [(a, ca, b, cb) if a == i else (b, cb, a, ca) for a, ca, b, cb in q["g"]["joins"] if {a, b} == {i, j}]

    def key(k, c):
        return keys.get(f"{base[k]}.{c}")
    i_fk = any(key(i, ca) and key(j, cb) == "pk" for _, ca, _, cb in preds)
    j_fk = any(key(j, cb) and key(i, ca) == "pk" for _, ca, _, cb in preds)
    bounds_ = []
    for _, ca, _, cb in preds:
        fa, fb, na, nb = max_frequency(db, q, i, ca), max_frequency(db, q, j, cb), c27.true_card(db, q, [i]), c27.true_card(db, q, [j])
        options = []
        if i_fk:
            options.append(math.ceil(fa * nb))
        if j_fk:
            options.append(math.ceil(fb * na))
        if not options:
            options.append(0 if 0 in (fa, fb, na, nb) else math.ceil(round(min(na / fa, nb / fb) * fa * fb, 6)))
        bounds_.append(options)
    # if both columns are keys, either of them can act as the foreign key
    return {min(combo) for combo in itertools.product(*bounds_)}


def check_bounds(spec):
    pb.reset()
    db = c27.fresh_db()
    c27.fill(db, spec["data"])
    db.statistics().emulated, db.statistics().cache_enabled = True, False
    q = spec["q"]
    g = q["g"]
    index = {graphlib.tab(g, i): i for i in range(len(g["tabs"]))}
    world = World(db, spec["keys"])
    opt = optimizer(spec, world)
    if spec["est"] == "wrapped":
        opt = ues.UESJoinOrderOptimizer(database=world, base_table_estimation=c27.PreciseCardinalities(db), pull_eager_pk_tables=spec["eager"])
    tree = opt.optimize_join_order(pb.parse(c27.query_sql(q)))
    check_tree(tree, q, lambda i: c27.true_card(db, q, [i]), "join tree", spec["policy"] == "linear")
    found = []

    def walk(n):
        if not n.is_scan():
            walk(n.outer_child)
            walk(n.inner_child)
            idx = {index[t] for t in n.tables()}
            true = c27.true_card(db, q, idx)
            require(float(n.annotation) >= true, "bound of %s is %s, but it has %s rows", sorted(idx), n.annotation, true)
            found.append((len(idx), float(n.annotation)))
    walk(tree)
    if not spec["star"]:
        want = expected_bound(db, spec, 0, 1)
        require(found[0][1] in want, "bound of the join is %s instead of %s", found[0][1], want)
    else:
        dims = [expected_bound(db, spec, 0, j) for j in range(1, len(g["tabs"]))]
        if all(len(b) == 1 for b in dims):
            eq([b for _, b in sorted(found)], sorted(float(min(b)) for b in dims), "bounds of the joins, smallest first")


@composite
def policies(d):
    q = c27.gen_query(d, 2, 6, connected=d.flag(80), max_extra=2)
    q["tail"] = ""
    n = len(q["g"]["tabs"])
    keys = {f"{t}.id": d.weighted([(8, "pk"), (1, "idx"), (1, "")]) for t in graphlib.BASE}
    for t in graphlib.BASE:
        for c in graphlib.COLS[1:]:
            keys[f"{t}.{c}"] = d.weighted([(6, "idx"), (4, "")])
    return {"q": q, "keys": {k: v for k, v in keys.items() if v}, "base": [d.int(0, 4) for _ in range(n)],
            "upper": [d.weighted([(1, None), (3, 0), (3, 2), (3, 4)]) for _ in range(n)], "consumed": d.some(range(n), 0, n), "which": d.weighted([(8, "ues"), (1, "linear")])}


class Bounds:
    def __init__(self, base, upper):
        self.base_table_estimates, self.upper_bounds = base, upper


def check_policies(spec):
    """a subquery is used for a join if it reduces the bound of the foreign key table of that join"""
    q, g, n = spec["q"], spec["q"]["g"], len(spec["base"])
    pb.reset()
    query = pb.parse(c27.query_sql(q))
    tabs = [graphlib.tab(g, i) for i in range(n)]
    policy = ues.UESSubqueryPolicy() if spec["which"] == "ues" else ues.LinearJoinTreePolicy()
    policy.setup_for_query(query)
    if spec["which"] == "ues":
        policy.setup_for_stats_container(Bounds({t: Cardinality(b) for t, b in zip(tabs, spec["base"])},
                                                {t: Cardinality(b) for t, b in zip(tabs, spec["upper"]) if b is not None}))
    graph = JoinGraph(query, graphlib.schema_stub(spec["keys"]))
    for i in spec["consumed"]:
        graph.mark_joined(tabs[i])

    for i, j in itertools.combinations(range(n), 2):
        pred = query.predicates().joins_between(tabs[i], tabs[j])
        if not pred:
            continue
        fks = {f for f, p in ((i, j), (j, i)) if graph.is_pk_fk_join(tabs[f], tabs[p])}  # C13 decides the join graph
        smaller = {k for k in fks if spec["upper"][k] is not None and spec["upper"][k] < spec["base"][k]}
        want = spec["which"] == "ues" and len(spec["consumed"]) >= 2 and bool(smaller)
        if len(fks) == 2 and want and len(smaller) == 1:
            continue  # both tables are foreign keys: unspecified which of them counts
        eq(bool(policy.generate_subquery_for(pred, graph)), want, f"subquery for {pred}, joined tables {spec['consumed']}, bounds {spec['base']} -> {spec['upper']}")


@composite
def stages(d):
    return {"ops": d.some([o.name for o in JoinOperator], 0, 4), "key": d.choice(["ues", "UES", "Ues"])}


def check_stages(spec):
    pb.reset()
    db = stubdb.StubDB(spec["ops"], graphlib.schema_stub({}))
    db.statistics = lambda: None
    settings = presets.fetch(spec["key"], database=db)
    require(isinstance(settings.build_join_order_optimizer(), ues.UESJoinOrderOptimizer), "presets: %s", settings.build_join_order_optimizer())
    selection = settings.build_physical_operator_selection()
    q = pb.parse("SELECT * FROM t0, t1 WHERE t0.id = t1.x")
    got = selection.select_physical_operators(q, None)
    eq(dict(got.global_settings), {JoinOperator.NestedLoopJoin: False} if "NestedLoopJoin" in spec["ops"] else {}, "global operators")
    require(not got.scan_operators and not got.join_operators, "operators for single scans or joins: %s", got)


FACETS = [
    Facet("trees", trees, check_trees, 700, 30000, "a query joins at least three tables", nontrivial=lambda s: any(len(q["g"]["tabs"]) > 2 for q in s["queries"]),
          classify=lambda s: [f"est={s['est']}", f"policy={s['policy']}", f"eager={s['eager']}"]),
    Facet("bounds", bounds, check_bounds, 700, 30000, "every case: two tables or a star query", nontrivial=lambda s: True,
          classify=lambda s: [f"star={s['star']}", f"tables={len(s['q']['g']['tabs'])}"]),
    Facet("policies", policies, check_policies, 800, 30000, "some bound is smaller than the estimate", nontrivial=lambda s: any(u is not None and u < b for u, b in zip(s["upper"], s["base"])),
          classify=lambda s: [f"policy={s['which']}", f"joined={min(len(s['consumed']), 3)}"]),
    Facet("stages", stages, check_stages, 60, 200, "every case", nontrivial=lambda s: True),
]
