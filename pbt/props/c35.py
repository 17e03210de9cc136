"""C35: TONIC learns operator costs per join path, recommends the cheapest known operator and keeps its model when stored."""
from __future__ import annotations

import itertools
import math
import os
import tempfile

from pbt import pb
from pbt.draw import composite
from pbt.engine import Facet, fail, require
from pbt.planlib import gen_shape, leaves
from pbt.stubdb import hash01
from postbound import TableReference, util
from postbound._core import Cardinality, JoinOperator, ScanOperator
from postbound._hints import JoinTree
from postbound._qep import QueryPlan
from postbound.opt import tonic

ASSUMPTIONS = ["a join path follows the input with more joins (the inner input if both have equally many), starting with the smaller of the two "
               "bottom tables; the other input of a join of two intermediates is its subquery", "ties between equally cheap operators are free"]
JOINS = [o.name for o in JoinOperator]
FILTERS = [None, "v > 3", "v > 4", "u = 'x'", "v > 3 AND u = 'x'", "w IN (1, 2)"]


def gen_query(d):
    """[[table number, alias, filter number], ..]: aliases keep the order of the names; a table may occur twice"""
    names = sorted(d.some(range(6), 2, 6))
    out = []
    for n in names:
        out.append([n, d.choice(["", "", "x"]), d.choice(range(len(FILTERS))) if d.flag(60) else 0])
        if d.flag(8):
            out.append([n, "y", d.choice(range(len(FILTERS)))])
    return out


def gen_tree(d, q):
    return gen_shape(d, d.permutation(range(len(q))))


@composite
def history(d):
    queries = [gen_query(d)]
    for _ in range(d.int(0, 2)):
        if d.flag(60):  # the same tables with other filters and aliases
            queries.append([[n, d.choice(["", "x"]) if a != "y" else a, f if d.flag(50) else d.choice(range(len(FILTERS)))] for n, a, f in queries[0]])
        else:
            queries.append(gen_query(d))
    pool = []  # plans are repeated and modified
    ops = []
    for _ in range(d.int(2, 12)):
        kind = d.weighted([(50, "integrate"), (25, "recommend"), (8, "detect"), (6, "reload"), (3, "reset"), (4, "feedback"), (4, "native")])
        if kind in ("reload", "reset"):
            ops.append([kind])
            continue
        if pool and d.flag(65):
            i, tree = d.choice(pool)
            if d.flag(35):
                same = [k for k in range(len(queries)) if len(queries[k]) == len(queries[i])]
                i = d.choice(same)
        else:
            i = d.int(0, len(queries) - 1)
            tree = gen_tree(d, queries[i])
            if pool and d.flag(30) and len(queries[pool[-1][0]]) == len(queries[i]):  # the same bottom with another top
                tree = pool[-1][1]
        pool.append((i, tree))
        if kind == "detect":
            ops.append([kind, i, tree, d.subset(JOINS, 60)])
        elif kind == "recommend":
            ops.append([kind, i, tree])
        elif kind == "native":
            ops.append([kind, i, tree, d.choice(["none", "empty"])])
        else:
            ops.append([kind, i, tree, d.int(0, 10**6), d.some(JOINS, 1, 4), d.choice([0, 20, 60])])
    return {"queries": queries, "aware": d.flag(60), "gamma": d.choice([0.0, 0.5, 0.8, 1.0]), "ops": ops}


def table(q, i):
    n, a, _ = q[i]
    return TableReference(f"r{n}", f"r{n}_{a}" if a else "")


def parse(q):
    tabs = [table(q, i) for i in range(len(q))]
    preds = [f"{a.identifier()}.id = {b.identifier()}.id" for a, b in zip(tabs, tabs[1:])]
    for t, (_, _, f) in zip(tabs, q):
        if FILTERS[f]:
            preds += [f"{t.identifier()}.{p}" for p in FILTERS[f].split(" AND ")]
    return pb.parse("SELECT * FROM " + ", ".join(str(t) for t in tabs) + " WHERE " + " AND ".join(preds))


def join_tree(q, t):
    return JoinTree.scan(table(q, t[1])) if t[0] == "s" else JoinTree.join(join_tree(q, t[1]), join_tree(q, t[2]))


# ---------------------------------------------------------------- reference model

def n_joins(t):
    return 0 if t[0] == "s" else 1 + max(n_joins(t[1]), n_joins(t[2]))


class Model:
    def __init__(self, aware, gamma):
        self.aware, self.gamma, self.costs = aware, gamma, {}

    def ident(self, q, i):
        return (frozenset([q[i][0]]), q[i][2] if self.aware else 0)

    def walk(self, q, tree, prefix=()):
        """(join, path) of all joins of the tree"""
        seq, cur = [], tree
        while cur[0] == "j":
            seq.append(cur)
            cur = cur[1] if n_joins(cur[2]) < n_joins(cur[1]) else cur[2]
        path, out = prefix, []
        for j in reversed(seq):
            l, r = j[1], j[2]
            if l[0] == r[0] == "j":
                sub = r if n_joins(r) < n_joins(l) else l
                path = path + ((frozenset(q[i][0] for i in leaves(sub)), 0),)
                out += self.walk(q, sub, path + ("subquery",))
            elif l[0] == r[0] == "s":
                first, second = sorted([l[1], r[1]], key=lambda i: table(q, i).identifier())
                path = path + (self.ident(q, first), self.ident(q, second))
            else:
                path = path + (self.ident(q, l[1] if l[0] == "s" else r[1]),)
            out.append((j, path))
        return out

    def integrate(self, q, tree, choice):
        for j, path in self.walk(q, tree):
            op, cost = choice(frozenset(leaves(j)))
            known = self.costs.setdefault(path, {})
            known[op] = cost + self.gamma * known.get(op, 0.0)

    def recommend(self, q, tree):
        out = {}
        for j, path in self.walk(q, tree):
            known = self.costs.get(path, {})
            if len(known) > 1:
                out[frozenset(leaves(j))] = known
        return out

    def unknown(self, q, tree, allowed):
        out = {}
        for j, path in self.walk(q, tree):
            missing = frozenset(allowed) - set(self.costs.get(path, {}))
            if missing:
                out[frozenset(leaves(j))] = missing
        return out


def learned(node, prefix=()):
    """All costs of a QEP-S in the model's terms."""
    def ident(i):
        return (frozenset(int(t.full_name[1:]) for t in i.tables), 0 if i.filter_predicate is None else filter_number(i.filter_predicate))
    out = {}
    for i, child in node.child_nodes.items():
        path = prefix + (ident(i),)
        require(child.path()[-1] == i, "path of %s ends with %s", child, child.path())
        want = set()
        for part in itertools.takewhile(lambda p: p != "subquery", reversed(path)):
            want |= part[0]
        require({int(t.full_name[1:]) for t in child.tables()} == want, "tables of %s: %s", child, child.tables())
        if child.operator_costs:
            out[path] = {o.name: c for o, c in child.operator_costs.items()}
        if child._subquery_root is not None:
            out |= learned(child._subquery_root, path + ("subquery",))
        out |= learned(child, path)
    return out


def filter_number(pred):
    parts = pred.children if hasattr(pred, "children") else [pred]
    texts = sorted(str(p) for p in (parts() if callable(parts) else parts))
    for n, f in enumerate(FILTERS):
        if f and len(texts) == len(f.split(" AND ")):
            if all(any(x.split(".", 1)[1] == p for x in texts) for p in f.split(" AND ")):
                require(all(x.split(".")[0] in ("r0", "r1", "r2", "r3", "r4", "r5") for x in texts), "filter of an identifier has an alias: %s", pred)
                return n
    fail(f"identifier has a filter that no query has: {pred}")


# ---------------------------------------------------------------- database stand-in

class Hinted:
    def __init__(self, query, plan, tree, assignment):
        self.query, self.plan, self.tree, self.assignment = query, plan, tree, assignment

    def __getattr__(self, name):
        return getattr(self.query, name)


class Server:
    """Cost of a join = function of its tables, operator and (true) cardinality."""

    def __init__(self, supported):
        self.supported, self.native, self.executed = supported, None, []

    def optimizer(self):
        return self

    def hinting(self):
        return self

    def supports_hint(self, op):
        return op.name in self.supported

    def generate_hints(self, query, plan=None, *, join_order=None, physical_operators=None, **_):
        if isinstance(query, Hinted):
            query, plan = query.query, plan
        return Hinted(query, plan, join_order, physical_operators)

    def build(self, tree, ops, actual):
        if tree.is_scan():
            return QueryPlan("Seq Scan", operator=ScanOperator.SequentialScan, base_table=tree.base_table, estimated_cost=1.0, estimated_cardinality=Cardinality(7))
        key = frozenset(tree.tables())
        card = true_card(key)
        return QueryPlan("join", operator=ops(key), children=[self.build(tree.outer_child, ops, actual), self.build(tree.inner_child, ops, actual)],
                         estimated_cardinality=Cardinality(card + 1), actual_cardinality=Cardinality(card) if actual else Cardinality.unknown(), estimated_cost=0.5)

    def analyze_plan(self, query):
        if isinstance(query, Hinted) and query.plan is None:
            a = query.assignment
            ops = {k: v.operator for k, v in a.join_operators.items()}
            self.executed.append({k: v.name for k, v in ops.items()})
            return self.build(query.tree, lambda k: ops[k], True)
        self.executed.append(None)
        return self.build(self.native[0], lambda k: self.native[1], True)

    def query_plan(self, query):
        if isinstance(query, Hinted):
            return self.price(query.plan)
        return self.build(self.native[0], lambda k: self.native[1], False)

    def price(self, plan):
        if plan.is_scan():
            return plan
        return QueryPlan("join", operator=plan.operator, children=[self.price(c) for c in plan.children], estimated_cardinality=plan.estimated_cardinality,
                         estimated_cost=join_cost(plan.tables(), plan.operator.name, plan.estimated_cardinality))


def true_card(tables):
    return int(hash01("card", tuple(sorted(t.identifier() for t in tables))) * 1000)


def join_cost(tables, op, card):
    return round(hash01("cost", tuple(sorted(t.identifier() for t in tables)), op, int(card)) * 100, 2)


def operator_plan(q, t, choice, seed, aux):
    """A plan with auxiliary nodes."""
    if t[0] == "s":
        p = QueryPlan("Seq Scan", operator=ScanOperator.SequentialScan, base_table=table(q, t[1]), estimated_cost=1.0)
    else:
        op, cost = choice(frozenset(leaves(t)))
        p = QueryPlan("join", operator=JoinOperator[op], estimated_cost=cost, children=[operator_plan(q, t[1], choice, seed, aux), operator_plan(q, t[2], choice, seed, aux)])
    for k in range(3):
        if hash01(seed, k, tuple(leaves(t))) * 100 < aux:
            p = QueryPlan(["Hash", "Sort", "Gather"][k], children=[p], estimated_cost=99.0)
    return p


def check_history(s):
    pb.reset()
    qs = s["queries"]
    queries = [parse(q) for q in qs]
    server = Server(JOINS)
    t = tonic.TonicOperatorSelection(s["aware"], s["gamma"], database=server)
    m = Model(s["aware"], s["gamma"])
    for op in s["ops"]:
        kind = op[0]
        if kind == "reset":
            t.reset()
            m.costs = {}
        elif kind == "reload":
            fd, path = tempfile.mkstemp(suffix=".json")
            try:
                with os.fdopen(fd, "w") as f:
                    f.write(util.to_json(t))
                t = tonic.TonicOperatorSelection.load_model(path, server)
            finally:
                os.remove(path)
            require((t.filter_aware, t.gamma, t.qeps.root.filter_aware, t.qeps.root.gamma) == (s["aware"], s["gamma"]) * 2, "settings of the loaded model: %s", t.describe())
        else:
            i, tree = op[1], op[2]
            q = qs[i]
            if kind == "integrate":
                def choice(key, seed=op[3], names=op[4]):
                    return names[int(hash01(seed, "op", tuple(sorted(key))) * len(names))], round(hash01(seed, "cost", tuple(sorted(key))) * 100, 2)
                t.integrate_cost(queries[i], operator_plan(q, tree, choice, op[3], op[5]))
                m.integrate(q, tree, choice)
            elif kind == "feedback":
                name = op[4][0]
                server.native = join_tree(q, tree), JoinOperator[name]
                t.simulate_feedback(queries[i])
                m.integrate(q, tree, lambda key: (name, join_cost([table(q, x) for x in key], name, true_card([table(q, x) for x in key]))))
            elif kind == "detect":
                allowed = frozenset(JoinOperator[n] for n in op[3])
                got = t.qeps.detect_unknown_costs(queries[i], join_tree(q, tree), allowed)
                got = {k: frozenset(o.name for o in v) for k, v in got.items()}
                want = {frozenset(table(q, x) for x in k): v for k, v in m.unknown(q, tree, op[3]).items()}
                require(got == want, "unknown operator costs of %s are %s", got, want)
            else:
                if kind == "native":
                    server.native = join_tree(q, tree), JoinOperator.HashJoin
                    got = t.select_physical_operators(queries[i], None if op[3] == "none" else JoinTree.empty())
                else:
                    got = t.select_physical_operators(queries[i], join_tree(q, tree))
                want = {frozenset(table(q, x) for x in k): v for k, v in m.recommend(q, tree).items()}
                require(set(got.join_operators) == set(want), "operators recommended for %s, but costs are known for %s (%s)", list(got.join_operators), list(want), tree)
                for k, known in want.items():
                    o = got.join_operators[k].operator.name
                    require(o in known and known[o] <= min(known.values()) + 1e-9, "%s recommended for %s, known costs are %s", o, k, known)
                require(not got.scan_operators and not got.intermediate_operators, "only joins have operators: %s", got)
        compare(learned(t.qeps.root), m.costs, kind)
    shown = t.qeps.inspect()
    for path, known in m.costs.items():
        for o, c in known.items():
            require(str(t_cost(t.qeps.root, path, o)) in shown, "cost %s is not shown in %s", c, shown)


def t_cost(node, path, op):
    return next(v[op] for k, v in learned(node).items() if k == path)


def compare(got, want, kind):
    require(got.keys() == want.keys(), "after %s costs are known for %s instead of %s", kind, list(got), list(want))
    for k in want:
        require(got[k].keys() == want[k].keys() and all(math.isclose(got[k][o], want[k][o], rel_tol=1e-9, abs_tol=1e-9) for o in want[k]),
                "after %s the costs of %s are %s instead of %s", kind, k, got[k], want[k])


# ---------------------------------------------------------------- exploration

@composite
def exploration(d):
    q = gen_query(d)[:4]
    return {"q": q, "tree": gen_tree(d, q), "aware": d.flag(50), "gamma": d.choice([0.0, 0.5, 0.8]), "supported": d.some(JOINS, 1, 4),
            "allowed": d.choice([None, JOINS, JOINS[:2], JOINS[1:]]), "native": d.flag(30), "seed": d.int(0, 10**6),
            "limit": d.choice([None, 1, 2, 5, 1000])}


def check_exploration(s):
    pb.reset()
    q = s["q"]
    query, tree = parse(q), join_tree(q, s["tree"])
    server = Server(s["supported"])
    server.native = tree, JoinOperator.HashJoin
    allowed = sorted(set(s["supported"]) & set(s["allowed"] or JOINS))
    if not allowed:
        return
    t = tonic.TonicOperatorSelection(s["aware"], s["gamma"], database=server)
    t.explore_costs(query, None if s["native"] else tree, allowed_operators=[JoinOperator[n] for n in s["allowed"]] if s["allowed"] else None, max_combinations=s["limit"])
    joins = [frozenset(j.tables()) for j in tree.iterjoins()]
    total = len(allowed) ** len(joins)
    runs = server.executed
    require(None not in runs, "queries without hints are executed")
    distinct = {tuple(r[j] for j in joins) for r in runs}
    require(len(distinct) == len(runs), "combinations are explored twice: %s", runs)
    require(all(set(r) == set(joins) and set(r.values()) <= set(allowed) for r in runs), "explored %s, allowed are %s for %s", runs, allowed, joins)
    if s["limit"] is None or total <= s["limit"]:
        require(len(runs) == total, "explored %s of %s combinations", len(runs), total)
    else:
        require(1 <= len(runs) <= s["limit"], "explored %s combinations instead of %s", len(runs), s["limit"])
    m = Model(s["aware"], s["gamma"])
    for r in runs:
        def choice(key):
            tabs = frozenset(table(q, x) for x in key)
            return r[tabs], join_cost(tabs, r[tabs], true_card(tabs))
        m.integrate(q, s["tree"], choice)
    compare(learned(t.qeps.root), m.costs, "exploration")
    for bad in (math.nan, math.inf):
        node = tonic.QEPsNode(False, s["gamma"])
        try:
            node.update_costs(JoinOperator.HashJoin, bad)
        except ValueError:
            require(not node.operator_costs, "invalid cost is stored: %s", node)
        else:
            fail(f"cost {bad} is accepted")


def shape(t):
    joins = [t] if t[0] == "j" else []
    out = []
    while joins:
        j = joins.pop()
        out.append("bushy" if j[1][0] == j[2][0] == "j" else "base" if j[1][0] == j[2][0] else "left" if j[1][0] == "j" else "right")
        joins += [c for c in j[1:3] if c[0] == "j"]
    return sorted(set(out))


FACETS = [
    Facet("history", history, check_history, 700, 25000,
          "operations learn plans, recommend or list operators, store and load the model over queries with aliases, self joins and filters; non-trivial: at "
          "least two plans are learned and operators are recommended",
          nontrivial=lambda s: sum(o[0] == "integrate" for o in s["ops"]) > 1 and any(o[0] in ("recommend", "native") for o in s["ops"]),
          classify=lambda s: [o[0] for o in s["ops"]] + [x for o in s["ops"] if len(o) > 2 for x in shape(o[2])] + (["filter-aware"] if s["aware"] else []), shards=4),
    Facet("exploration", exploration, check_exploration, 300, 8000, "several combinations of operators exist",
          nontrivial=lambda s: len(s["supported"]) > 1, classify=lambda s: [f"limit:{s['limit']}"] + shape(s["tree"]), shards=2),
]
