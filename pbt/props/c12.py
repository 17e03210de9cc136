"""C12: query plans report, transform, serialise and convert exactly the operator tree they were built from."""
from __future__ import annotations

import collections
import copy
import json
import math
import pickle

from pbt.draw import composite
from pbt.engine import Facet, fail, require
from pbt.planlib import INTERS, JOINS, SCANS, TABLES, build_tree, gen_shape, leaves, nodes as tree_nodes, same_num, tab, tabs
from pbt.props.c11 import INDEX, build_ops, build_params, gen_op, gen_param, opr, strip_jt
from postbound import ColumnReference, opt, qal
from postbound._core import Cardinality, IntermediateOperator
from postbound._hints import LogicalJoinTree, jointree_from_plan, operators_from_plan, parameters_from_plan
from postbound._qep import PlanEstimates, PlanMeasures, PlanParams, QueryPlan, SortKey, Subplan
from postbound.util import jsonize

ASSUMPTIONS = ["joins have two children; plans scan each table once; custom metadata values are JSON scalars"]
COLS = ["id", "x", "y"]
AUX = ["Hash", "Aggregate", "Gather", "Limit", "Result"]


# ---------------------------------------------------------------- generation

def gen_card(d):
    return d.weighted([(6, d.int(0, 5000)), (2, "nan"), (1, "inf")])


def gen_node(d, kind, name, nt, ch, table=None, rich=True, refs=()):
    n = {"k": kind, "op": name, "nt": nt, "ch": ch, "tab": table, "est": gen_card(d), "cost": d.choice(["nan", 10, 2.5, 17]), "workers": d.choice([0, 0, 1, 4]),
         "act": "nan", "time": "nan", "hits": None, "miss": None, "flt": None, "sort": [], "index": "", "look": None, "extra": {}, "sub": None,
         "subname": ""}
    if d.flag(50):
        n["act"] = gen_card(d)
        n["time"] = d.choice(["nan", 0.5, 3])
        n["hits"], n["miss"] = d.choice([(None, None), (3, 4), (0, 7)])
    if refs and d.flag(40):
        a = d.choice(refs)
        b = d.choice(list(refs) + [None, None])
        n["flt"] = [a, d.choice(COLS), d.choice(["<", "=", ">="]), d.int(0, 9) if b is None else b, None if b is None else d.choice(COLS)]
    if d.flag(20) and refs:
        n["sort"] = [[[[d.choice(refs), d.choice(COLS)] for _ in range(d.int(1, 2))], d.flag(60)] for _ in range(d.int(1, 2))]
    if kind == "scan" and d.flag(30):
        n["index"] = d.choice(["pk_a", "idx"])
        if d.flag(60):
            n["look"] = [d.choice(refs), d.choice(COLS)]
    if d.flag(15):
        n["extra"] = {d.choice(["custom", "note"]): d.choice([1, "v", True])}
    return n


def gen_plan(d, t, refs, aux=20, subs=True, multi=False):
    if t[0] == "s":
        op = d.choice(SCANS)
        n = gen_node(d, "scan", op, d.choice([op, "Index Scan", "Seq Scan"]), [], t[1], refs=refs)
    else:
        op = d.choice(JOINS)
        n = gen_node(d, "join", op, d.choice([op, "Hash Join"]), [gen_plan(d, t[1], refs, aux, subs), gen_plan(d, t[2], refs, aux, subs)], refs=refs)
    while d.flag(aux):
        if d.flag(50):
            op = d.choice(INTERS)
            n = gen_node(d, "inter", op, op, [n], refs=refs)
        else:
            n = gen_node(d, "aux", None, d.choice(AUX), [n], refs=refs)
    if subs and d.flag(8):
        n["sub"] = gen_plan(d, ["s", d.int(0, 5), None], refs, 10, False)
        n["subname"] = d.choice(["", "sq"])
    return n


def gen_full(d, aux=20, subs=True, multi=True, top=7):
    ls = d.some(range(len(TABLES)), 1, top)
    t = gen_shape(d, ls)
    p = gen_plan(d, t, ls, aux, subs)
    if multi and d.flag(12):
        free = [i for i in range(len(TABLES)) if i not in ls]
        parts = [p] + [gen_plan(d, ["s", i, None], [i], aux, subs) for i in free[:d.int(1, 2)]]
        p = gen_node(d, "aux", None, "Append", d.permutation(parts), refs=ls)
    return p


@composite
def plan_strategy(d):
    p = gen_full(d)
    return {"plan": p, "needle": d.subset(range(len(TABLES)), 40), "dir": d.choice(["outer", "inner"]), "find": d.choice(["type", "card", "join", "scan", "none"]),
            "at": d.int(0, 30), "other": d.choice(["same", "meta", "type", "swap"]), "factor": d.choice([2, 0.5, 1, 3, 0]),
            "kind": d.choice(["estimated", "actual", "both"]), "rec": d.flag(50), "ignore": d.flag(60), "coster": d.flag(50), "keep": d.flag(50),
            "ncard": d.choice([None, 5, 0]), "ncost": d.choice([None, 1.5]), "w": d.int(0, 6)}


# ---------------------------------------------------------------- building and dumping

def col(ref):
    return ColumnReference(ref[1], tab(ref[0]))


def build_filter(f):
    if f is None:
        return None
    a, c, op, b, c2 = f
    left = qal.ColumnExpression(ColumnReference(c, tab(a)))
    right = qal.StaticValueExpression(b) if c2 is None else qal.ColumnExpression(ColumnReference(c2, tab(b)))
    return qal.BinaryPredicate(qal.LogicalOperator(op), left, right)


def num(x):
    return float(x) if x in ("nan", "inf") else x


def build(n, style=0):
    """style 0: keyword arguments, 1: wrapper objects"""
    kids = [build(c, style) for c in n["ch"]]
    kids = kids[0] if len(kids) == 1 and style else kids
    sk = [SortKey.for_equivalence_class([col(r) for r in cols], ascending=asc) for cols, asc in n["sort"]]
    params = dict(base_table=None if n["tab"] is None else tab(n["tab"]), filter_predicate=build_filter(n["flt"]), sort_keys=sk,
                  parallel_workers=n["workers"], index=n["index"], lookup_key=None if n["look"] is None else qal.ColumnExpression(col(n["look"])), **n["extra"])
    op = None if n["op"] is None else opr(n["op"])
    sub = build(n["sub"], style) if n["sub"] else None
    if style:
        return QueryPlan(n["nt"], operator=op, children=kids, plan_params=PlanParams(**params),
                         estimates=PlanEstimates(cardinality=Cardinality(num(n["est"])), cost=num(n["cost"])),
                         measures=PlanMeasures(cardinality=num(n["act"]), execution_time=num(n["time"]), cache_hits=n["hits"], cache_misses=n["miss"]),
                         subplan=Subplan(sub, n["subname"]) if sub else None)
    if op is not None and n["nt"] == n["op"]:
        return QueryPlan(op, children=kids, estimated_cardinality=Cardinality(num(n["est"])), estimated_cost=num(n["cost"]),
                         actual_cardinality=Cardinality(num(n["act"])), execution_time=num(n["time"]), cache_hits=n["hits"], cache_misses=n["miss"],
                         subplan_root=sub, subplan_target_name=n["subname"] if sub else "", **params)
    return QueryPlan(n["nt"], operator=op, children=kids, estimated_cardinality=Cardinality(num(n["est"])), estimated_cost=num(n["cost"]),
                     actual_cardinality=Cardinality(num(n["act"])), execution_time=num(n["time"]), cache_hits=n["hits"], cache_misses=n["miss"],
                     subplan_root=sub, subplan_target_name=n["subname"] if sub else "", **params)


def norm_num(x):
    if x is None:
        return None
    x = float(x)
    return str(x)


BASE_KEYS = {"base_table", "filter_predicate", "sort_keys", "parallel_workers", "index", "lookup_key"}


def dump(p):
    """Everything observable about a plan node, recursively, through its public accessors."""
    require(isinstance(p.estimated_cardinality, Cardinality) and isinstance(p.actual_cardinality, Cardinality), "cardinality types of %s", p)
    extra = {k: v for k, v in p.params.items() if k not in BASE_KEYS}
    return {"k": "scan" if p.is_scan() else "join" if p.is_join() else "other", "op": p.operator.name if p.operator else None, "nt": p.node_type,
            "ch": [dump(c) for c in p.children], "tab": None if p.base_table is None else INDEX[p.base_table], "est": norm_num(p.estimated_cardinality),
            "cost": norm_num(p.estimated_cost), "workers": p.parallel_workers, "act": norm_num(p.actual_cardinality), "time": norm_num(p.execution_time),
            "hits": p.measures.cache_hits, "miss": p.measures.cache_misses, "flt": None if p.filter_predicate is None else str(p.filter_predicate),
            "sort": [[sorted(str(m) for m in k.equivalence_class), k.ascending] for k in p.sort_keys], "index": p.params.index,
            "look": None if p.lookup_key is None else str(p.lookup_key), "extra": extra, "sub": dump(p.subplan.root) if p.subplan else None,
            "subname": p.subplan.target_name if p.subplan else ""}


def want_dump(n):
    out = dict(n)
    out["k"] = n["k"] if n["k"] in ("scan", "join") else "other"
    out["ch"] = [want_dump(c) for c in n["ch"]]
    out["sub"] = want_dump(n["sub"]) if n["sub"] else None
    for k in ("est", "cost", "act", "time"):
        out[k] = norm_num(num(n[k]))
    out["flt"] = None if n["flt"] is None else str(build_filter(n["flt"]))
    out["look"] = None if n["look"] is None else str(qal.ColumnExpression(col(n["look"])))
    out["sort"] = [[sorted({str(qal.ColumnExpression(col(r))) for r in cols}), asc] for cols, asc in n["sort"]]
    return out


def first_difference(a, b, path="plan"):
    if isinstance(a, dict) and isinstance(b, dict):
        for k in sorted(set(a) | set(b)):
            if a.get(k) != b.get(k):
                return first_difference(a.get(k), b.get(k), f"{path}.{k}")
    if isinstance(a, list) and isinstance(b, list) and len(a) == len(b):
        for i, (x, y) in enumerate(zip(a, b)):
            if x != y:
                return first_difference(x, y, f"{path}[{i}]")
    return f"{path}: {a!r} instead of {b!r}"


def same_plan(p, n, what):
    got, want = dump(p), want_dump(n)
    require(got == want, "%s: %s", what, first_difference(got, want))


# ---------------------------------------------------------------- model

def post(n):
    return [x for c in n["ch"] for x in post(c)] + [n]


def pre(n):
    return [n] + [x for c in n["ch"] for x in pre(c)] + (pre(n["sub"]) if n["sub"] else [])


def ref_tables(n):
    out = set()
    if n["tab"] is not None:
        out.add(n["tab"])
    if n["flt"]:
        out.add(n["flt"][0])
        if n["flt"][4] is not None:
            out.add(n["flt"][3])
    if n["look"]:
        out.add(n["look"][0])
    return out


def all_tables(n):
    """table indexes plus names of virtual subplan tables"""
    out = ref_tables(n)
    for c in n["ch"]:
        out |= all_tables(c)
    if n["sub"]:
        out |= all_tables(n["sub"])
        if n["subname"]:
            out.add(n["subname"])
    return out


def to_ids(tables):
    return {INDEX[t] if t in INDEX else t.identifier() for t in tables}


def flt_cols(n):
    if not n["flt"]:
        return set()
    a, c, _, b, c2 = n["flt"]
    return {ColumnReference(c, tab(a))} | (set() if c2 is None else {ColumnReference(c2, tab(b))})


def all_cols(n):
    return flt_cols(n).union(*[all_cols(c) for c in n["ch"]], all_cols(n["sub"]) if n["sub"] else set())


def has_join(n):
    return any(x["k"] == "join" for x in post(n))


def analyzed(n):
    return n["act"] != "nan" or n["time"] != "nan" or n["hits"] is not None


def m_depth(n):
    return 1 + max([m_depth(c) for c in n["ch"]], default=0)


def scan_branch(n):
    return n["k"] == "scan" or (len(n["ch"]) == 1 and scan_branch(n["ch"][0]))


def m_lookup(n, needle):
    mine = all_tables(n)
    if needle == mine:
        return n
    if not needle <= mine:
        return None
    for c in n["ch"]:
        r = m_lookup(c, needle)
        if r is not None:
            return r
    return None


def m_first(n, pred, direction):
    if pred(n):
        return n
    kids = list(n["ch"])
    if direction == "inner":
        kids.reverse()
    for c in kids + ([n["sub"]] if n["sub"] else []):
        r = m_first(c, pred, direction)
        if r is not None:
            return r
    return None


def m_cout(n, aux):
    if not analyzed(n):
        return math.nan
    own = num(n["act"]) if aux or n["k"] in ("scan", "join") else 0
    return own + sum(m_cout(c, aux) for c in n["ch"])


def m_fetch(n):
    if n["k"] == "scan":
        return n["tab"]
    if n["k"] == "join" or len(n["ch"]) != 1:
        return None
    return m_fetch(n["ch"][0])


def node_check(p, n):
    require(p.plan_depth() == len(p) == m_depth(n), "depth of %s: %s", p, p.plan_depth())
    require(p.is_join() == (n["k"] == "join") and p.is_scan() == (n["k"] == "scan") and p.is_auxiliary() == (n["k"] not in ("join", "scan")), "kind of %s", p)
    require(p.is_analyze() == analyzed(n), "is_analyze of %s: %s", p, p.is_analyze())
    require(p.is_ordered() == bool(n["sort"]), "is_ordered of %s", p)
    require((p.input_node is p.children[0]) if len(n["ch"]) == 1 else p.input_node is None, "input_node of %s", p)
    if len(n["ch"]) == 2:
        require(p.outer_child is p.children[0] and p.inner_child is p.children[1], "children of %s", p)
    else:
        require(p.outer_child is None and p.inner_child is None, "children of %s", p)
    js = [x for x in post(n) if x["k"] == "join"]
    bushy = any(has_join(j["ch"][0]) and has_join(j["ch"][1]) for j in js)
    left = not any(has_join(j["ch"][1]) for j in js)
    right = not any(has_join(j["ch"][0]) for j in js)
    got = (p.is_linear(), p.is_bushy(), p.is_left_deep(), p.is_right_deep())
    require(got == (not bushy, bushy, left, right), "shape (linear, bushy, left, right) of %s: %s, expected %s", p, got, (not bushy, bushy, left, right))
    if js:
        require(p.is_zigzag() == (not bushy and not left and not right), "is_zigzag of %s", p)
    elif n["k"] == "scan":
        require(p.is_zigzag(), "is_zigzag of a scan")
    if all(len(x["ch"]) == 1 or x["k"] in ("scan", "join") for x in post(n)):
        x, y = p, n
        while y["k"] != "scan":
            x, y = x.children[0], y["ch"][0]
        require(p.outermost_scan() is x, "outermost_scan of %s: %s", p, p.outermost_scan())
    summary = p.plan_summary()
    require(summary["operator"] == n["nt"] and same_num(summary["estimated_card"], round(num(n["est"]), 3)) and same_num(summary["actual_card"], round(num(n["act"]), 3))
            and same_num(summary["c_out"], p.cout()) and dict(summary["phys_ops"]) == collections.Counter(x.node_type for x in p.iternodes()), "summary of %s: %s", p, summary)
    require(bool(p.is_scan_branch()) == scan_branch(n), "is_scan_branch of %s", p)
    require(p.is_base_join() == (n["k"] == "join" and all(scan_branch(c) for c in n["ch"])), "is_base_join of %s", p)
    want = m_fetch(n)
    require(p.fetch_base_table() == (None if want is None else tab(want)), "fetch_base_table of %s: %s", p, p.fetch_base_table())
    require(to_ids(p.tables()) == all_tables(n), "tables of %s: %s, expected %s", p, p.tables(), all_tables(n))
    require(p.columns() == all_cols(n), "columns of %s: %s, expected %s", p, p.columns(), all_cols(n))
    if not analyzed(n):
        require(math.isnan(p.qerror()) and math.isnan(p.operator_time), "qerror/operator_time without measurements")
    else:
        e, a = num(n["est"]), num(n["act"])
        want = math.nan if math.isnan(e) or math.isnan(a) else (max(e, a) + 1) / (min(e, a) + 1)
        q = float(p.qerror())
        require((math.isnan(q) and math.isnan(want)) or q == want or abs(q - want) <= 1e-9 * abs(want), "qerror(%s, %s) = %s, expected %s", e, a, q, want)
        require(same_num(p.operator_time, num(n["time"]) - sum(num(c["time"]) for c in n["ch"])), "operator_time of %s", p)
    for aux in (True, False):
        require(same_num(p.cout(include_auxiliaries=aux), m_cout(n, aux)), "cout of %s: %s, expected %s", p, p.cout(include_auxiliaries=aux), m_cout(n, aux))
    for k, v in n["extra"].items():
        require(k in p and p[k] == v and p.get(k) == v and p.params[k] == v and getattr(p.params, k) == v, "custom entry %s of %s", k, p)
    require("missing" not in p and p.get("missing", 7) == 7, "missing entry")
    require("cost" in p and same_num(p["cost"], num(n["cost"])) and "base_table" in p and p["base_table"] == p.base_table, "dict access of %s", p)
    for i in range(len(TABLES)):
        require((tab(i) in p) == (i in all_tables(n)), "%s in %s", tab(i), p)


def check_tree(spec):
    n = spec["plan"]
    p = build(n)
    same_plan(p, n, "construction")
    same_plan(build(n, 1), n, "construction from wrappers")
    got = list(p.iternodes())
    require(len(got) == len(post(n)), "iternodes of %s", p)
    for a, b in zip(got, post(n)):
        same_plan(a, b, "iternodes")
        node_check(a, b)
    got = list(p)
    require(len(got) == len(pre(n)), "iteration over %s: %s", p, got)
    for a, b in zip(got, pre(n)):
        same_plan(a, b, "iteration")
    for needle in [set(spec["needle"])] + [all_tables(x) for x in post(n)]:
        if not needle or any(isinstance(x, str) for x in needle):
            continue
        want = m_lookup(n, needle)
        got = p.lookup(set(tabs(needle))) if len(needle) > 1 else p.lookup(tab(next(iter(needle))))
        require((got is None) == (want is None), "lookup of %s in %s: %s", needle, p, got)
        if want is not None:
            same_plan(got, want, "lookup")
        require((set(tabs(needle)) in p) == (needle <= all_tables(n)), "%s in plan", needle)
    target = pre(n)[spec["at"] % len(pre(n))]
    preds = {"type": (lambda q: q.node_type == target["nt"], lambda m: m["nt"] == target["nt"]),
             "card": (lambda q, v=None: norm_num(q.estimated_cardinality) == norm_num(num(target["est"])), lambda m: norm_num(num(m["est"])) == norm_num(num(target["est"]))),
             "join": (QueryPlan.is_join, lambda m: m["k"] == "join"), "scan": (QueryPlan.is_scan, lambda m: m["k"] == "scan"),
             "none": (lambda q: False, lambda m: False)}
    fp, fm = preds[spec["find"]]
    got, want = p.find_first_node(fp, direction=spec["dir"]), m_first(n, fm, spec["dir"])
    require((got is None) == (want is None), "find_first_node in %s: %s, expected %s", p, got, want)
    if want is not None:
        require(fp(got), "find_first_node result does not satisfy the predicate")
        if all(len(x["ch"]) <= 2 for x in pre(n)):
            same_plan(got, want, "find_first_node")
    got, want = list(p.find_all_nodes(fp)), [x for x in pre(n) if fm(x)]
    require(len(got) == len(want) and sorted(json.dumps(dump(x), sort_keys=True) for x in got) == sorted(json.dumps(want_dump(x), sort_keys=True) for x in want), "find_all_nodes in %s: %s", p, got)
    str(p), repr(p), p.inspect(), p.ast(), p.inspect(fields=["estimated_cardinality"])
    require(p.explain() == p.inspect(), "explain")

    other = copy.deepcopy(n)
    if spec["other"] == "meta":
        for x in pre(other):
            x.update(est=1, cost=2, workers=3)
    elif spec["other"] == "type":
        post(other)[spec["at"] % len(post(other))]["nt"] += " X"
    elif spec["other"] == "swap":
        j = [x for x in post(other) if len(x["ch"]) == 2]
        if j:
            x = j[spec["at"] % len(j)]
            x["ch"].reverse()
    skel = lambda x: (x["nt"], x["tab"], tuple(skel(c) for c in x["ch"]))  # noqa: E731
    o = build(other)
    same = skel(other) == skel(n)
    require((p == o) == (o == p) == same and (p != o) == (not same), "equality of %s and %s", p, o)
    require(not same or hash(p) == hash(o), "hash of %s", p)


# ---------------------------------------------------------------- transformations

def m_map(n, fn, children=True, sub=True):
    out = dict(n)
    fn(out)
    if children:
        out["ch"] = [m_map(c, fn) for c in n["ch"]]
        out["sub"] = m_map(n["sub"], fn) if n["sub"] else None
    return out


def clear_measures(n):
    n.update(act="nan", time="nan", hits=None, miss=None)


def m_canonical(n):
    if n["k"] not in ("scan", "join"):
        return m_canonical(n["ch"][0])
    out = dict(n)
    out["ch"] = [] if n["k"] == "scan" else [m_canonical(c) for c in n["ch"]]
    out["sub"] = m_canonical(n["sub"]) if n["sub"] else None
    return out


def check_updates(spec):
    n = spec["plan"]
    p = build(n)

    par = p.parallelize(spec["w"])
    same_plan(par, dict(n, workers=spec["w"]), "parallelize")
    same_plan(p, n, "parallelize changed the plan")

    kw = {}
    if spec["ncard"] is not None:
        kw["cardinality"] = Cardinality(spec["ncard"])
    if spec["ncost"] is not None:
        kw["cost"] = spec["ncost"]
    e = p.with_estimates(keep_measures=spec["keep"], **kw)
    want = dict(n)
    if spec["ncard"] is not None:
        want["est"] = spec["ncard"]
    if spec["ncost"] is not None:
        want["cost"] = spec["ncost"]
    if not spec["keep"]:
        clear_measures(want)
    same_plan(e, want, "with_estimates")
    same_plan(p, n, "with_estimates changed the plan")

    seen = []

    def coster(node, c):
        seen.append((dump(node)["nt"], norm_num(c)))
        return float(c) * 2 if c.is_valid() else 77.0
    a = p.with_actual_card(cost_estimator=coster if spec["coster"] else None, ignore_nan=spec["ignore"])

    def actual(x):
        if not (spec["ignore"] and x["act"] == "nan"):
            x["est"] = x["act"]
            v = num(x["act"])
            x["cost"] = (v * 2 if math.isfinite(v) else 77.0) if spec["coster"] else "nan"
        clear_measures(x)
    got, want = dump(a), want_dump(m_map(n, actual))
    for g, w, orig in zip(flat(got), flat(want), flat(want_dump(n))):  # the cost of nodes without actual cardinality is not judged
        if orig["act"] == "nan":
            g["cost"] = w["cost"]
    require(got == want, "with_actual_card: %s", first_difference(got, want))
    same_plan(p, n, "with_actual_card changed the plan")

    s = p.scale_cardinality(spec["factor"], kind=spec["kind"], recursive=spec["rec"])

    def scale(x):
        for key, kinds in (("est", ("estimated", "both")), ("act", ("actual", "both"))):
            if spec["kind"] in kinds:
                v = num(x[key])
                v = v * spec["factor"]
                x[key] = "nan" if math.isnan(v) else "inf" if math.isinf(v) else ("near", v)
    want = m_map(n, scale, children=spec["rec"])
    near_plan(s, want, "scale_cardinality")
    same_plan(p, n, "scale_cardinality changed the plan")

    if all(len(x["ch"]) <= 1 or x["k"] == "join" for x in pre(n)) and all(x["ch"] or x["k"] == "scan" for x in pre(n)):
        c = p.canonical()
        same_plan(c, m_canonical(n), "canonical")
        require(all(x.is_scan() or x.is_join() for x in c), "canonical keeps auxiliary nodes: %s", c)
        same_plan(c.canonical(), m_canonical(n), "canonical of canonical")
        same_plan(p, n, "canonical changed the plan")

    for q in (p.clone(), p.clone(deep=True), copy.copy(p), copy.deepcopy(p), pickle.loads(pickle.dumps(p))):
        same_plan(q, n, "copy")
        require(q == p and hash(q) == hash(p), "copy of %s", p)
    for q in (p.clone(), p.clone(deep=True)):
        if q.subplan:
            q.subplan.root.params["custom"] = "changed"
            q.subplan.root.estimates["cost"] = 77.5
        q.params["custom"] = "changed"
        q.estimates["cost"] = 1234.5
        q.measures["mine"] = 3
        q["more"] = 5
        require(q["custom"] == "changed" and q["more"] == 5 and q["cost"] == 1234.5 and "more" in q, "assigned entries")
        same_plan(p, n, "changing a copy changed the plan")

    text = jsonize.to_json(p)
    for arg in (text, json.loads(text)):
        back = opt.read_query_plan_json(arg)
        same_plan(back, n, "JSON")
        require(back == p and hash(back) == hash(p), "JSON round trip of %s", p)


def flat(d):
    return [d] + [x for c in d["ch"] for x in flat(c)] + (flat(d["sub"]) if d["sub"] else [])


def near_plan(p, n, what):
    got, want = dump(p), want_near(n)
    for g, w in zip(flat(got), flat(want)):
        for k in ("est", "act"):
            if isinstance(w[k], tuple):
                require(g[k] not in ("nan", "inf") and abs(float(g[k]) - w[k][1]) <= 0.5, "%s: %s is %s, expected %s", what, k, g[k], w[k][1])
                w[k] = g[k]
    require(got == want, "%s: %s", what, first_difference(got, want))


def want_near(n):
    hold = {k: n[k] for k in ("est", "act") if isinstance(n[k], tuple)}
    out = want_dump(dict(n, ch=[], sub=None, **{k: 0 for k in hold}))
    out.update(hold)
    out["ch"] = [want_near(c) for c in n["ch"]]
    out["sub"] = want_near(n["sub"]) if n["sub"] else None
    return out


# ---------------------------------------------------------------- sort keys

@composite
def sort_strategy(d):
    key = lambda: [[[d.int(0, 3), d.choice(COLS)] for _ in range(d.int(1, 3))], d.flag(60)]  # noqa: E731
    return {"a": key(), "b": key(), "col": [d.int(0, 3), d.choice(COLS)]}


def check_sort(spec):
    (ac, aa), (bc, ba) = spec["a"], spec["b"]
    am, bm = {tuple(c) for c in ac}, {tuple(c) for c in bc}
    a = SortKey.for_equivalence_class([col(c) for c in ac], ascending=aa)
    b = SortKey.for_equivalence_class([qal.ColumnExpression(col(c)) for c in bc], ascending=ba)
    c = col(spec["col"])
    require(a.ascending == aa and len(a) == len(am) and a.equivalence_class == {qal.ColumnExpression(col(x)) for x in am}, "content of %s", a)
    require((a == b) == (am == bm and aa == ba) and (a != b or hash(a) == hash(b)), "equality of %s and %s", a, b)
    comp = bool(am & bm) and aa == ba
    require(a.is_compatible_with(b) == b.is_compatible_with(a) == comp == (b in a), "compatibility of %s and %s", a, b)
    require(a.is_compatible_with(c) == (tuple(spec["col"]) in am) == (c in a), "compatibility of %s and %s", a, c)
    single = SortKey.of(c, ascending=aa)
    require(single == SortKey.of(qal.ColumnExpression(c), ascending=aa) and single.column == qal.ColumnExpression(c) and len(single) == 1, "of(%s)", c)
    if aa == ba:
        m = a.merge_with(b)
        require(m == b.merge_with(a) and m.equivalence_class == a.equivalence_class | b.equivalence_class and m.ascending == aa, "merge of %s and %s", a, b)
    else:
        try:
            a.merge_with(b)
        except ValueError:
            return
        fail("merge of keys with different directions")


# ---------------------------------------------------------------- conversions

@composite
def conv_strategy(d):
    ls = d.some(range(6), 1, 5)
    t = gen_shape(d, ls, lambda d: d.weighted([(2, None), (6, d.int(0, 9999)), (1, "nan"), (1, "inf")]))
    inner = list(ls)

    def tset(lo):
        return sorted(leaves(d.choice(tree_nodes(t)))) if d.flag(80) else sorted(d.some(inner, lo, 5))

    ops, prm = [], []
    for _ in range(d.int(0, 6)):
        ts = tset(1)
        if d.flag(15):
            ops.append(["inter", d.choice(INTERS), ts, "set"])
        elif len(ts) == 1:
            ops.append(["scan", d.choice(SCANS), ts[0], "ref", 1])
        else:
            ops.append(["join", d.choice(JOINS), ts, d.choice(["set", "workers"]), 2])
    for _ in range(d.int(0, 5)):
        prm.append(["card", tset(1), "card", d.weighted([(6, d.int(0, 9999)), (1, "nan"), (1, "inf")])] if d.flag(60) else ["workers", tset(1), d.int(0, 4)])
    return {"tree": t, "logical": d.flag(60), "ops": ops, "params": prm, "scan": d.choice(SCANS + [None]), "join": d.choice(JOINS + [None]),
            "use_ops": d.flag(75), "query": d.flag(40), "filters": d.subset(inner, 50), "joins": [d.int(0, 40) for _ in ls[1:]],
            "plan": gen_full(d, 25, False, False, 5), "pops": [gen_op(d) for _ in range(d.int(0, 5))], "pprm": [gen_param(d) for _ in range(d.int(0, 5))],
            "simplify": d.flag(60), "src": d.choice(["estimated", "actual"]), "fallback": d.flag(40), "incl": d.flag(50)}


def conv_query(spec):
    ls = leaves(spec["tree"])
    preds, f, j = [], {}, []
    for i in spec["filters"]:
        p = build_filter([i, "x", "<", 5, None])
        f[i] = p
        preds.append(p)
    for k, r in enumerate(spec["joins"]):
        a, b = ls[k + 1], ls[r % (k + 1)]
        p = build_filter([a, "id", "=", b, "id"])
        j.append(({a, b}, p))
        preds.append(p)
    from postbound.qal import ImplicitFromClause, ImplicitSqlQuery, Select, Where
    where = Where(qal.CompoundPredicate.create_and(preds) if len(preds) > 1 else preds[0]) if preds else None
    return ImplicitSqlQuery(select_clause=Select.star(), from_clause=ImplicitFromClause.create_for(tabs(ls)), where_clause=where), f, j


def conjuncts(p):
    if p is None:
        return set()
    return set(p.children) if isinstance(p, qal.CompoundPredicate) and p.operation.name == "And" else {p}


def check_conv(spec):
    t, logical = spec["tree"], spec["logical"]
    jt = build_tree(t, logical)
    ops, om = build_ops(spec["ops"])
    prm, pm = build_params(spec["params"], "set")
    query, filters, joins = conv_query(spec) if spec["query"] else (None, {}, [])
    dscan, djoin = spec["scan"], spec["join"]
    kw = dict(scan_op=opr(dscan) if dscan else None, join_op=opr(djoin) if djoin else None, plan_params=prm, query=query)
    custom = spec["use_ops"] and bool(ops)
    if spec["use_ops"]:
        kw["physical_ops"] = ops

    def wanted(n):
        ts = frozenset(leaves(n))
        name = (om.s.get(n[1], (None,))[0] if n[0] == "s" else om.j.get(ts, (None,))[0]) if custom else None
        return name or (dscan if n[0] == "s" else djoin)
    missing = [n for n in tree_nodes(t) if wanted(n) is None]
    if missing or (not custom and (dscan is None or djoin is None)):
        try:
            opt.to_query_plan(jt, **kw)
        except ValueError:
            pass
        else:
            fail("to_query_plan without an operator for some node")
    else:
        plan = opt.to_query_plan(jt, **kw)

        def compare(p, n):
            ts = frozenset(leaves(n))
            want_card = pm["c"].get(ts)
            if want_card is None or not math.isfinite(want_card):
                want_card = n[-1] if logical and n[-1] is not None else "nan"
            want_workers = pm["w"].get(ts, 0) if custom else p.parallel_workers
            inter = om.i.get(ts) if custom else None
            if inter == "Materialize":
                require(p.operator == IntermediateOperator.Materialize and len(p.children) == 1, "intermediate operator over %s: %s", ts, p)
                p = p.input_node
            require(p.operator == opr(wanted(n)), "operator of %s: %s, expected %s", tabs(ts), p.operator, wanted(n))
            require(same_num(p.estimated_cardinality, num(want_card)), "cardinality of %s: %s, expected %s", tabs(ts), p.estimated_cardinality, want_card)
            require(p.parallel_workers == want_workers, "workers of %s: %s, expected %s", tabs(ts), p.parallel_workers, want_workers)
            require(p.tables() == set(tabs(ts)), "tables of %s: %s", tabs(ts), p.tables())
            if n[0] == "s":
                require(p.is_scan() and p.base_table == tab(n[1]) and not p.children, "scan of %s: %s", tab(n[1]), p)
                want = {filters[n[1]]} if n[1] in filters else set()
            else:
                require(p.is_join() and len(p.children) == 2, "join of %s: %s", ts, p)
                left, right = set(leaves(n[1])), set(leaves(n[2]))
                want = {q for s, q in joins if s & left and s & right}
                compare(p.outer_child, n[1])
                compare(p.inner_child, n[2])
            if query is not None:
                got = conjuncts(p.filter_predicate)
                require(got == want, "predicates of %s: %s, expected %s", tabs(ts), got, want)
        compare(plan, t)
        back = jointree_from_plan(plan)
        require(isinstance(back, LogicalJoinTree) and strip_jt(back) == strip_jt(jt), "jointree_from_plan(to_query_plan(%s)) = %s", jt, back)
        j2, o2, p2 = opt.explode_query_plan(plan)
        again = opt.to_query_plan(j2, physical_ops=o2, plan_params=p2, query=query)
        require(dump(again.canonical())["ch"] == dump(plan.canonical())["ch"] and again.canonical() == plan.canonical(),
                "to_query_plan(explode_query_plan(%s)) = %s", plan, again)

    # extraction from arbitrary plans
    n = spec["plan"]
    p = build(n)
    check_extract(p, n, spec)
    check_update_plan(p, n, spec)


def base(n):
    return frozenset(x["tab"] for x in post(n) if x["tab"] is not None)


def check_extract(p, n, spec):
    src = spec["src"]
    key = "est" if src == "estimated" else "act"
    jt = jointree_from_plan(p, card_source="estimates" if src == "estimated" else "actual")
    canon = m_canonical(n)

    def cmp(j, c):
        require(isinstance(j, LogicalJoinTree) and isinstance(j.cardinality, Cardinality), "type of join tree node %s", j)
        require(same_num(j.cardinality, num(c[key])), "cardinality of %s in jointree_from_plan: %s, expected %s", j, j.cardinality, c[key])
        if c["k"] == "scan":
            require(j.is_scan() and j.base_table == tab(c["tab"]), "leaf %s", j)
        else:
            require(j.is_join(), "join %s", j)
            cmp(j.outer_child, c["ch"][0])
            cmp(j.inner_child, c["ch"][1])
    cmp(jt, canon)

    def value(x):
        if src == "estimated":
            return x["est"]
        if spec["fallback"]:
            return x["act"] if x["act"] not in ("nan", "inf") else x["est"]
        return x["act"]
    want_c, want_w = {}, {}
    for x in reversed(post(n)):  # the innermost node that computes an intermediate decides
        if value(x) != "nan":
            want_c[base(x)] = num(value(x))
        if x["workers"]:
            want_w[base(x)] = x["workers"]
    params = parameters_from_plan(p, target_cardinality=src, fallback_estimated=spec["fallback"])
    got_c = {frozenset(INDEX[t] for t in k): float(v) for k, v in params.cardinalities.items()}
    got_w = {frozenset(INDEX[t] for t in k): v for k, v in params.parallel_workers.items()}
    require(got_c == want_c, "parameters_from_plan(%s, %s): cardinalities %s, expected %s", p, src, got_c, want_c)
    require(got_w == want_w, "parameters_from_plan(%s): workers %s, expected %s", p, got_w, want_w)

    ops = operators_from_plan(p, include_workers=spec["incl"])
    scans = {x["tab"]: x for x in post(n) if x["k"] == "scan"}
    js = {base(x): x for x in post(n) if x["k"] == "join"}
    inter = {}
    for x in reversed(post(n)):
        if x["k"] == "inter":
            inter[base(x)] = x["op"]
    w = lambda x: x["workers"] if spec["incl"] and x["workers"] else None  # noqa: E731
    wk = lambda a: None if math.isnan(a.parallel_workers) else a.parallel_workers  # noqa: E731
    require({INDEX[t]: (a.operator.name, wk(a)) for t, a in ops.scan_operators.items()} == {i: (x["op"], w(x)) for i, x in scans.items()},
            "scan operators of %s: %s", p, ops)
    require({frozenset(INDEX[t] for t in k): (a.operator.name, wk(a)) for k, a in ops.join_operators.items()} == {k: (x["op"], w(x)) for k, x in js.items()},
            "join operators of %s: %s", p, ops)
    require({frozenset(INDEX[t] for t in k): a.name for k, a in ops.intermediate_operators.items()} == inter and not ops.global_settings,
            "intermediate operators of %s: %s, expected %s", p, ops, inter)
    jt2, ops2, params2 = opt.explode_query_plan(p, card_source=src)
    plain = parameters_from_plan(p, target_cardinality=src)
    require(strip_jt(jt2) == strip_jt(jt) and [norm_num(a.cardinality) for a in jt2.iternodes()] == [norm_num(a.cardinality) for a in jt.iternodes()],
            "join tree of explode_query_plan(%s): %s", p, jt2.inspect())
    require(ops2 == operators_from_plan(p) and {k: norm_num(v) for k, v in params2.cardinalities.items()} == {k: norm_num(v) for k, v in plain.cardinalities.items()}
            and params2.parallel_workers == plain.parallel_workers, "explode_query_plan(%s)", p)


def check_update_plan(p, n, spec):
    ops, om = build_ops(spec["pops"])
    prm, pm = build_params(spec["pprm"], "set")
    if any(all_tables(x) != set(base(x)) for x in pre(n)):
        return  # how nodes that merely reference other tables are matched is not specified
    if any(x["k"] == "scan" and x["tab"] is None for x in pre(n)):
        return
    got = opt.update_plan(p, operators=ops, params=prm, simplify=spec["simplify"])

    def upd(x):
        ts = base(x)
        if x["k"] == "scan" and x["tab"] in om.s:
            new = om.s[x["tab"]][0]
        elif x["k"] == "join" and ts in om.j:
            new = om.j[ts][0]
        else:
            new = x["op"]
        out = dict(x, op=new, nt=x["nt"] if new == x["op"] else new, ch=[upd(c) for c in x["ch"]])
        if ts in pm["c"]:
            v = pm["c"][ts]
            out["est"] = v if math.isfinite(v) else str(v)
        if ts in pm["w"]:
            out["workers"] = pm["w"][ts]
        return out
    a, b = dump(got), want_dump(upd(m_canonical(n) if spec["simplify"] else n))
    for x, y in zip(flat(a), flat(b)):  # the textual node type of replaced operators is not judged
        if x["op"] == y["op"]:
            x["nt"] = y["nt"]
    require(a == b, "update_plan: %s", first_difference(a, b))
    same_plan(p, n, "update_plan changed the plan")


FACETS = [
    Facet("tree", plan_strategy, check_tree, quick=2500, thorough=40000, shards=4,
          rule="plans over 1-7 tables with auxiliary nodes, subplans, n-ary nodes, partial estimates and measurements; non-trivial: a join",
          nontrivial=lambda s: has_join(s["plan"]), classify=lambda s: sorted({x["k"] for x in pre(s["plan"])})),
    Facet("updates", plan_strategy, check_updates, quick=2000, thorough=30000, shards=4,
          rule="as tree; every derived copy, transformation and the JSON round trip against the model; non-trivial: a join",
          nontrivial=lambda s: has_join(s["plan"])),
    Facet("sort-keys", sort_strategy, check_sort, quick=500, thorough=5000, shards=1,
          rule="pairs of sort keys over 4 tables x 3 columns; non-trivial: more than one member", nontrivial=lambda s: len(s["a"][0]) > 1),
    Facet("conversions", conv_strategy, check_conv, quick=2500, thorough=40000, shards=4,
          rule="join tree + operators + parameters (+ query) to plan and back; extraction from and update of arbitrary plans; non-trivial: a join",
          nontrivial=lambda s: s["tree"][0] == "j" and has_join(s["plan"])),
]
