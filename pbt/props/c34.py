"""C34: plan and join tree analysis: diffs, similarity, depths, plan bounds, true plan cost, star query cardinalities."""
from __future__ import annotations

import atexit
import itertools
import math

from pbt.draw import composite
from pbt.engine import Facet, fail, require
from pbt.planlib import JOINS, SCANS, TABLES, build_tree, gen_shape, leaves, num, tab, tabs
from postbound import ColumnReference, parser, util
from postbound._core import Cardinality, JoinOperator, ScanOperator
from postbound._hints import JoinTree
from postbound._qep import QueryPlan
from postbound.db import DatabasePool
from postbound.opt import _analysis as ana

ASSUMPTIONS = ["the join depth above a bushy join is accepted under both readings of its documentation (tables' depths or join levels)",
               "diffs of nodes with different children list the differing table sets; order of the entries is not judged"]
CARDS = ["nan", 0, 1, 5, 100]
COSTS = ["nan", 0, 1.5, 7.25]


# ---------------------------------------------------------------- plan diffs

def ann(kind, d):
    return {"op": d.choice(SCANS if kind == "s" else JOINS), "est": d.choice(CARDS), "act": d.choice(CARDS), "cost": d.choice(COSTS)}


def annotate(t, d):
    if t[0] == "s":
        return ["s", t[1], ann("s", d)]
    return ["j", annotate(t[1], d), annotate(t[2], d), ann("j", d)]


def mutate(t, d, p):
    """t with random local changes"""
    a = dict(t[-1])
    for k in ("op", "est", "act", "cost"):
        if d.flag(p):
            a[k] = ann(t[0], d)[k]
    if t[0] == "s":
        return ["s", t[1], a]
    o, i = mutate(t[1], d, p), mutate(t[2], d, p)
    if d.flag(15):
        o, i = i, o
    return ["j", o, i, a]


def graft(t, d):
    """t with one subtree replaced by another tree over the same leaves"""
    if t[0] == "s" or d.flag(35):
        return annotate(gen_shape(d, d.permutation(leaves(t))), d)
    if d.flag(50):
        return ["j", graft(t[1], d), t[2], t[3]]
    return ["j", t[1], graft(t[2], d), t[3]]


@composite
def diffs(d):
    ls = d.some(range(len(TABLES)), 1, 6)
    left = annotate(gen_shape(d, ls), d)
    right = mutate(left, d, d.choice([0, 5, 20]))
    if d.flag(40):
        right = graft(right, d)
    if d.flag(10):
        right = annotate(gen_shape(d, d.some(range(len(TABLES)), 1, 6)), d)
    return {"left": left, "right": right, "aux": d.weighted([(90, 0), (5, 1), (5, 2)])}


def opr(name):
    return ScanOperator[name] if name in SCANS else JoinOperator[name]


def plan(t):
    a = t[-1]
    kw = dict(estimated_cardinality=Cardinality(num(a["est"])), actual_cardinality=Cardinality(num(a["act"])), estimated_cost=num(a["cost"]))
    op = opr(a["op"])
    if t[0] == "s":
        return QueryPlan(op.value, operator=op, base_table=tab(t[1]), **kw)
    return QueryPlan(op.value, operator=op, children=[plan(t[1]), plan(t[2])], **kw)


def key(t):
    return frozenset(leaves(t))


def reference(a, b):
    if key(a) != key(b):
        return [("tree-structure", key(a), key(b), None)]
    out = []
    x, y = a[-1], b[-1]
    for kind, k in [("card-est", "est"), ("actual-card", "act"), ("cost-est", "cost"), ("physical-op", "op")]:
        if x[k] != y[k]:
            out.append((kind, x[k], y[k], key(a)))
    if a[0] == "j":
        if key(a[1]) == key(b[2]):
            return out + [("join-direction", key(a), key(b), None)] + reference(a[1], b[2]) + reference(a[2], b[1])
        return out + reference(a[1], b[1]) + reference(a[2], b[2])
    return out


INDEX = {tab(i): i for i in range(len(TABLES))}
OPNAMES = {op.value: op.name for op in itertools.chain(ScanOperator, JoinOperator)}


def normal(kind, state):
    if kind == "tree-structure":
        return frozenset(INDEX[t] for t in state)
    if kind == "join-direction":
        return frozenset(INDEX[t] for t in (state.tables() if isinstance(state, QueryPlan) else state))
    if kind == "physical-op":
        return OPNAMES[getattr(state, "value", state)]
    return "nan" if math.isnan(state) else float(state)


def canonical(entries):
    return sorted(map(repr, entries))


def show(e):
    kind, a, b, ctx = e
    f = lambda x: float(x) if isinstance(x, (int, float)) else sorted(x) if isinstance(x, frozenset) else x
    return (kind, f(a), f(b), None if ctx is None else sorted(ctx))


def check_diffs(s):
    left, right = plan(s["left"]), plan(s["right"])
    if s["aux"]:
        aux = QueryPlan("Hash", children=[left if s["aux"] == 1 else right])
        try:
            ana.compare_query_plans(*((aux, right) if s["aux"] == 1 else (left, aux)))
        except ValueError:
            return
        fail("auxiliary nodes are accepted")
    got = ana.compare_query_plans(left, right)
    entries = [(c.change_type, normal(c.change_type, c.left_state), normal(c.change_type, c.right_state), None if c.context is None else frozenset(INDEX[t] for t in c.context))
               for c in got.changes]
    expected = reference(s["left"], s["right"])
    # the context of structural changes is optional
    entries = [(k, a, b, c if k not in ("tree-structure", "join-direction") else None) for k, a, b, c in entries]
    require(canonical(map(show, entries)) == canonical(map(show, expected)), "changes %s instead of %s", list(map(show, entries)), list(map(show, expected)))
    text = got.inspect()
    require(isinstance(text, str) and len(text.splitlines()) == len(expected), "inspect() has not one line per change: %r", text)
    return {}


def n_changes(s):
    return 0 if s["aux"] else len(reference(s["left"], s["right"]))


# ---------------------------------------------------------------- join trees

@composite
def trees(d):
    ls = d.some(range(len(TABLES)), 1, 6)
    a = gen_shape(d, ls)
    how = d.weighted([(30, "shape"), (20, "same"), (20, "mirror"), (20, "other"), (10, "disjoint")])
    if how == "shape":
        b = gen_shape(d, d.permutation(ls))
    elif how in ("same", "mirror"):
        b = flip(a, d) if how == "mirror" else a
    elif how == "other":
        b = gen_shape(d, d.some(range(len(TABLES)), 1, 6))
    else:
        rest = [i for i in range(len(TABLES)) if i not in ls]
        b = gen_shape(d, d.some(rest, 1, len(rest)))
    return {"a": a, "b": b, "sym": d.flag(50), "gamma": d.choice([None, 1, 1.1, 2, 0.5])}


def flip(t, d):
    if t[0] == "s":
        return t
    a, b = flip(t[1], d), flip(t[2], d)
    return ["j", b, a, t[3]] if d.flag(50) else ["j", a, b, t[3]]


def jac(a, b):
    return len(a & b) / len(a | b)


def subsets(t):
    return set() if t[0] == "s" else {key(t)} | subsets(t[1]) | subsets(t[2])


def edit(a, b):
    row = list(range(len(b) + 1))
    for i, x in enumerate(a, 1):
        prev, row[0] = row[0], i
        for j, y in enumerate(b, 1):
            prev, row[j] = row[j], min(row[j] + 1, row[j - 1] + 1, prev + (x != y))
    return row[-1]


def depths(t, by_level):
    """(mapping, level); by_level: tables joined to an intermediate get the level of the join, else 1 + the maximum depth of its tables"""
    if t[0] == "s":
        return {t[1]: 1}, 1
    (m1, l1), (m2, l2) = depths(t[1], by_level), depths(t[2], by_level)
    if t[1][0] == "s" and t[2][0] == "s":
        return m1 | m2, 1
    level = 1 + max(l1, l2)
    for scan, m, l, other in ((t[1], m2, l2, m1), (t[2], m1, l1, m2)):
        if scan[0] == "s":
            return m | {scan[1]: 1 + (l if by_level else max(m.values()))}, level
    return m1 | m2, level


def tied(a, b):
    """a comparison where straight and crossed pairing of the children are equally good"""
    if a[0] == "s" or b[0] == "s":
        return False
    s = jac(key(a[1]), key(b[1])) + jac(key(a[2]), key(b[2]))
    c = jac(key(a[1]), key(b[2])) + jac(key(a[2]), key(b[1]))
    if abs(s - c) < 1e-9:
        return True
    pairs = [(a[1], b[1]), (a[2], b[2])] if s > c else [(a[1], b[2]), (a[2], b[1])]
    return any(tied(x, y) for x, y in pairs)


def mirror(t):
    return t if t[0] == "s" else ["j", mirror(t[2]), mirror(t[1]), t[3]]


def check_trees(s):
    a, b = build_tree(s["a"]), build_tree(s["b"])
    kw = {"symmetric": s["sym"]} | ({} if s["gamma"] is None else {"gamma": s["gamma"]})
    same_tables, disjoint = key(s["a"]) == key(s["b"]), not (key(s["a"]) & key(s["b"]))
    close = lambda x, y: math.isclose(x, y, rel_tol=1e-9, abs_tol=1e-12)

    up = ana.jointree_similarity_bottomup(a, b)
    sa, sb = subsets(s["a"]), subsets(s["b"])
    want = jac(sa, sb) if sa | sb else float(same_tables)
    require(close(up, want), "bottom-up similarity %s instead of %s", up, want)

    down = ana.jointree_similarity_topdown(a, b, **kw)
    require(close(down, ana.jointree_similarity_topdown(b, a, **kw)), "top-down similarity depends on the order of the arguments")
    if disjoint:
        require(down == 0, "top-down similarity %s of disjoint join trees", down)
    else:
        require(down > 0 or not same_tables or len(leaves(s["a"])) > 1 and not s["sym"], "top-down similarity %s of trees with common tables", down)
    best = ana.jointree_similarity_topdown(a, a, **kw)
    require(down <= best + 1e-9, "%s is more similar to %s (%s) than to itself (%s)", a, b, down, best)
    if s["sym"] and not tied(s["a"], s["b"]):
        other = ana.jointree_similarity_topdown(a, build_tree(mirror(s["b"])), **kw)
        require(close(down, other), "symmetric similarity penalizes branches: %s and %s for the mirrored tree", down, other)

    dist = ana.linearized_levenshtein_distance(a, b)
    want = edit(leaves(s["a"]), leaves(s["b"]))
    require(dist == want, "Levenshtein distance %s instead of %s", dist, want)

    for t, tree in ((s["a"], a), (s["b"], b)):
        got = {INDEX[x]: v for x, v in ana.join_depth(tree).items()}
        readings = [depths(t, v)[0] for v in (True, False)]
        require(got in readings, "join depths %s instead of %s", got, readings)
    require(ana.join_depth(JoinTree()) == {}, "depths of an empty join tree")
    return {}


@composite
def scores(d):
    ls = d.some(range(len(TABLES)), 1, 6)
    b = d.permutation(ls) if d.flag(60) else d.some(range(len(TABLES)), 1, 6)
    return {"a": gen_shape(d, ls), "b": gen_shape(d, b), "sym": d.flag(50)}


def check_scores(s):
    """An artificial similarity score in [0, 1]"""
    v = ana.jointree_similarity_topdown(build_tree(s["a"]), build_tree(s["b"]), symmetric=s["sym"])
    require(0 <= v <= 1, "top-down similarity %s is not in [0, 1]", v)
    return {}


def unnormalized(s):
    """KNOWN FINDING: scores of joins are sums over all nodes and not normalized"""
    return "topdown-range" if s["a"][0] == s["b"][0] == "j" and key(s["a"]) & key(s["b"]) else None


# ---------------------------------------------------------------- text, bounds

LINES = ["", "a", "bcd", "  e", "a longer line", "| x |"]


@composite
def texts(d):
    side = lambda: {"lines": [d.int(0, len(LINES) - 1) for _ in range(d.int(0, 4))], "end": d.flag(30)}
    return {"l": side(), "r": side(), "sep": d.choice([None, " | ", " ", "<->"])}


def check_texts(s):
    raw = ["\n".join(LINES[i] for i in x["lines"]) + ("\n" if x["end"] and x["lines"] else "") for x in (s["l"], s["r"])]
    left, right = (x.splitlines() for x in raw)
    sep = " | " if s["sep"] is None else s["sep"]
    out = ana.text_diff(*raw, **({} if s["sep"] is None else {"sep": s["sep"]}))
    width = max(map(len, left), default=0)
    want = [l.ljust(width) + sep + r for l, r in itertools.zip_longest(left, right, fillvalue="")]
    require([x.rstrip() for x in out.split("\n")] == [x.rstrip() for x in want] or not want and out == "", "merged text %r instead of %r", out, want)
    return {}


@composite
def bounds(d):
    return {"n": d.int(1, 7), "joins": d.choice([None, 1, 2, 3]), "scans": d.choice([None, 1, 2, 4]), "alias": d.flag(50)}


def ordered_trees(n):
    return 1 if n == 1 else sum(math.comb(n, k) * ordered_trees(k) * ordered_trees(n - k) for k in range(1, n))


def check_bounds(s):
    n = s["n"]
    q = parser.parse_query("SELECT * FROM " + ", ".join(f"t AS t{i}" if s["alias"] else f"t{i}" for i in range(n)))
    j, c = s["joins"] or 3, s["scans"] or 2
    kw = ({} if s["joins"] is None else {"join_operators": {f"j{i}" for i in range(j)}}) | ({} if s["scans"] is None else {"scan_operators": {f"s{i}" for i in range(c)}})
    got = ana.possible_plans_bound(q, **kw)
    plans = ordered_trees(n) * j ** (n - 1) * c ** n
    require(got >= plans, "upper bound %s, but there are %s plans over %s tables with %s join and %s scan operators", got, plans, n, j, c)
    return {}


# ---------------------------------------------------------------- true costs

@composite
def costs(d):
    t = annotate(gen_shape(d, d.some(range(len(TABLES)), 1, 5)), d)

    def measured(x):
        a = x[-1]
        if a["act"] == "nan":
            a["act"] = 3
        for c in x[1:-1]:
            if isinstance(c, list):
                measured(c)
    if d.flag(80):
        measured(t)
    return {"plan": t, "db": d.choice(["given", "given+pool", "pool"])}


class Recorder:
    """a database that records the plans it is asked to generate hints for"""

    def __init__(self, cost):
        self.cost, self.calls = cost, []

    def hinting(self):
        return self

    def optimizer(self):
        return self

    def generate_hints(self, query, plan=None, **kw):
        self.calls.append((query, plan))
        return ("hinted", query)

    def cost_estimate(self, query):
        self.estimated = query
        return self.cost


def check_costs(s):
    p, q = plan(s["plan"]), parser.parse_query("SELECT * FROM a")
    db, other = Recorder(42.5), Recorder(1.0)
    pool = DatabasePool.get_instance()
    pool.clear()
    if s["db"] != "given":
        pool.register_database("x", db if s["db"] == "pool" else other)
    try:
        analyzed = all(a["act"] != "nan" for a in anns(s["plan"]))
        unknown = all(a["act"] == "nan" for a in anns(s["plan"]))
        try:
            got = ana.actual_plan_cost(q, p, **({} if s["db"] == "pool" else {"database": db}))
        except ValueError:
            require(not analyzed, "an ANALYZE plan is rejected")
            return {"rejected": 1}
        require(not unknown, "a plan without measurements is accepted")
        require(got == 42.5 and not other.calls and len(db.calls) == 1, "cost %s, wrong database?", got)
        require(db.estimated == ("hinted", q) and db.calls[0][0] == q, "estimates the cost of %s", db.estimated)
        compare(db.calls[0][1], s["plan"])
    finally:
        pool.clear()
    return {}


def anns(t):
    return [t[-1]] + [a for c in t[1:-1] if isinstance(c, list) for a in anns(c)]


def compare(p, t):
    a = t[-1]
    require(p.operator is not None and p.operator.name == a["op"] and p.tables() == set(tabs(key(t))), "hints for another plan: %s", p)
    if a["act"] != "nan":
        require(p.estimated_cardinality == a["act"], "estimates %s instead of the actual cardinality %s for %s", p.estimated_cardinality, a["act"], sorted(key(t)))
    if t[0] == "j":
        compare(p.outer_child, t[1])
        compare(p.inner_child, t[2])


# ---------------------------------------------------------------- star queries

@composite
def stars(d):
    n = d.int(1, 3)
    return {"fact": [[d.int(0, 3), d.choice([None, "u", "v"])] for _ in range(d.weighted([(1, 0), (3, 1), (8, d.int(2, 5))]))],
            "dims": [[[d.choice([None, 0, 1, 2, 3, 4, 9]), d.int(0, 3)] for _ in range(d.int(0, 7))] for _ in range(n)],
            "ids": d.permutation([0, 1, 2, 3, 4]), "ffilter": d.choice([None, None, "f.v > 0", "f.v = 1 AND f.w IS NOT NULL", "f.w = 'u'", "f.v = 17"]),
            "dfilter": [d.choice([None, None, "{d}.a > 0", "{d}.a BETWEEN 1 AND 2", "{d}.a IN (1, 3)"]) for _ in range(n)],
            "text": d.flag(25), "flip": d.flag(30), "alias": d.flag(40), "bound": d.flag(50), "select": d.choice(["*", "COUNT(*)", "f.v"]), "pool": d.flag(20), "joins": d.flag(30)}


def check_stars(s):
    from postbound import duckdb as dd
    original, atexit.register = atexit.register, lambda *a, **k: None
    db = None
    pool = DatabasePool.get_instance()
    pool.clear()
    try:
        db = dd.DuckDBInterface(":memory:", cache_enabled=False)
        run_star(s, db, pool)
    finally:
        pool.clear()
        atexit.register = original
        if db is not None:
            db.close()


def run_star(s, db, pool):
    cur = db.cursor()
    cur.execute("SET threads = 1")
    lit = (lambda x: "NULL" if x is None else f"'it''s {x}'") if s["text"] else (lambda x: "NULL" if x is None else str(x))
    typ = "TEXT" if s["text"] else "INTEGER"
    cur.execute(f"CREATE TABLE fact (pk {typ} PRIMARY KEY, v INTEGER, w TEXT)")
    for i, (v, w) in zip(s["ids"], s["fact"]):
        cur.execute(f"INSERT INTO fact VALUES ({lit(i)}, {v}, {'NULL' if w is None else repr(w)})")
    f = "f" if s["alias"] else "fact"
    tables, preds = ["fact f" if s["alias"] else "fact"], []
    on = []
    if s["ffilter"]:
        preds.append(s["ffilter"].replace("f.", f + "."))
    for k, (rows, flt) in enumerate(zip(s["dims"], s["dfilter"])):
        cur.execute(f"CREATE TABLE dim{k} (fk{k} {typ}, a INTEGER)")
        for fk, a in rows:
            cur.execute(f"INSERT INTO dim{k} VALUES ({lit(fk)}, {a})")
        tables.append(f"dim{k} d{k}" if s["alias"] else f"dim{k}")
        name = f"d{k}" if s["alias"] else f"dim{k}"
        join = f"{name}.fk{k} = {f}.pk" if s["flip"] else f"{f}.pk = {name}.fk{k}"
        on.append(join)
        preds.append(join)
        if flt:
            preds.append(flt.format(d=name))
    sql = f"SELECT {s['select'].replace('f.', f + '.')} FROM {', '.join(tables)} WHERE {' AND '.join(preds)}"
    query = parser.parse_query(sql)
    want = cur.execute(f"SELECT COUNT(*) FROM {', '.join(tables)} WHERE {' AND '.join(preds)}").fetchone()[0]
    fact = next(t for t in query.tables() if t.full_name == "fact")
    pk = ColumnReference("pk", fact) if s["bound"] else ColumnReference("pk")
    if s["pool"]:
        pool.register_database("duck", db)
    got = ana.star_query_cardinality(query, pk, **({} if s["pool"] else {"database": db}))
    require(got == want, "cardinality %s instead of %s: %s", got, want, sql)
    return {}


FACETS = [
    Facet("diffs", diffs, check_diffs, 2400, 60000, "at least two differences", nontrivial=lambda s: n_changes(s) >= 2, shards=8,
          classify=lambda s: sorted({"aux"} if s["aux"] else {e[0] for e in reference(s["left"], s["right"])})),
    Facet("trees", trees, check_trees, 2000, 60000, "different join trees with a common table", shards=8,
          nontrivial=lambda s: s["a"] != s["b"] and bool(key(s["a"]) & key(s["b"])), classify=lambda s: ["symmetric" if s["sym"] else "positional"]),
    Facet("scores", scores, check_scores, 200, 4000, "a join tree and a common table", excluded=unnormalized,
          nontrivial=lambda s: s["a"][0] != s["b"][0] and bool(key(s["a"]) & key(s["b"]))),
    Facet("texts", texts, check_texts, 400, 5000, "different numbers of lines", nontrivial=lambda s: len(s["l"]["lines"]) != len(s["r"]["lines"])),
    Facet("bounds", bounds, check_bounds, 100, 400, "several tables", nontrivial=lambda s: s["n"] > 1),
    Facet("costs", costs, check_costs, 500, 8000, "several nodes", nontrivial=lambda s: len(anns(s["plan"])) > 1, classify=lambda s: [s["db"]]),
    Facet("stars", stars, check_stars, 400, 8000, "rows in the fact table and all dimensions", shards=8, nontrivial=lambda s: bool(s["fact"]) and all(s["dims"]),
          classify=lambda s: [f"dims={len(s['dims'])}", f"fact={min(len(s['fact']), 2)}"]),
]
