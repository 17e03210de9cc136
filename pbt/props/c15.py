"""C15: the Postgres-style dynamic programming enumerator."""
from __future__ import annotations

import itertools
import math

from pbt import graphlib as gl
from pbt import pb
from pbt.draw import composite
from pbt.engine import Facet, fail, require
from pbt.stubdb import RandomCards, StubPostgres, base_tables, hash01, key_of
from postbound import CostModel
from postbound._core import ColumnReference, JoinOperator, ScanOperator, TableReference
from postbound._qep import QueryPlan, SortKey
from postbound.opt import dynprog
from postbound.qal import ColumnExpression

ASSUMPTIONS = ["cost models are monotone: a plan's cost is a function of its operator and inputs plus its children's costs"]
SCANS = ["SequentialScan", "IndexScan", "IndexOnlyScan", "BitmapScan"]
JOINS = ["NestedLoopJoin", "HashJoin", "SortMergeJoin"]
FLAGS = {"enable_seqscan": "SequentialScan", "enable_indexscan": "IndexScan", "enable_indexonlyscan": "IndexOnlyScan", "enable_bitmapscan": "BitmapScan",
         "enable_nestloop": "NestedLoopJoin", "enable_hashjoin": "HashJoin", "enable_mergejoin": "SortMergeJoin"}


def colname(c):
    return f"{c.table.identifier()}.{c.name}"


class Costs(CostModel):
    """cost = hash(operator, inputs, index, sort key, lookup key, workers) + costs of the inputs"""

    def __init__(self, spec):
        super().__init__()
        self.spec, self.log = spec, []

    def local(self, op, outer, inner=(), extra="", workers=0):
        r = hash01(self.spec["seed"], "cost", op, tuple(outer), tuple(inner), extra, workers)
        return 1 + r * self.spec["scale"].get(op, 100) * (0.4 if workers else 1)

    def initialize(self, target_db, query):
        self.log.append(("init",))

    def cleanup(self):
        self.log.append(("cleanup",))

    def estimate_cost(self, query, plan):
        par = plan.params
        workers = par.parallel_workers
        workers = workers if isinstance(workers, int) and workers > 0 else 0
        ch = list(plan.children)
        sides = [key_of(base_tables(c)) for c in ch] or [[plan.base_table.identifier()]]
        extra = ""
        if plan.is_scan():
            extra = par.index or ""
        elif plan.operator.name == "Sort":
            (col,) = par.sort_keys[0].equivalence_class
            extra = colname(col.column)
        elif plan.operator.name == "Memoize":
            extra = colname(par.lookup_key.column)
        elif plan.operator.name == "NestedLoopJoin" and ch[1].operator.name in ("Memoize", "Materialize"):
            extra = ch[1].operator.name
        return self.local(plan.operator.name, *sides, extra=extra, workers=workers) + sum(c.estimated_cost for c in ch)


@composite
def pg_strategy(d):
    g = gl.gen_graph(d, 1, d.weighted([(4, 3), (1, 4)]), connected=True, max_extra=1)
    n = len(g["tabs"])
    extra = [f"{gl.name(g, d.int(0, n - 1))}.{d.choice(gl.COLS)} {d.choice(['= 1', '> 3', 'IS NOT NULL'])}" for _ in range(d.int(0, 2))]
    sel = d.weighted([(2, "*"), (4, "count(*)"), (1, f"{gl.name(g, 0)}.*"), (2, f"{gl.name(g, d.int(0, n - 1))}.{d.choice(gl.COLS)}")])
    if d.flag(60):
        for j in g["joins"]:
            j[1], j[3] = d.choice(["id", j[1]]), d.choice(["id", j[3]])
    for j in list(g["joins"]):      # bound the number of (implied) join keys
        rest = [x for x in g["joins"] if x is not j]
        if len(gl.closure(g["joins"])) > 6 and gl.connected(range(n), [frozenset((x[0], x[2])) for x in rest]):
            g["joins"].remove(j)
    joins = d.weighted([(5, None), (5, d.some(JOINS, 1, 3))])
    every = SCANS + JOINS + ["Sort", "Memoize", "Materialize"]
    cheap = d.subset(every, 30)
    workers = d.weighted([(5, None), (1, 0), (5, d.int(1, 4))])
    return {"g": g, "keys": gl.gen_keys(d), "extra": extra, "select": sel, "seed": d.int(0, 10 ** 6),
            "scans": d.weighted([(5, None), (4, ["SequentialScan"] + d.subset(SCANS[1:], 50)), (1, d.some(SCANS, 1, 3))]), "joins": joins,
            "db": d.weighted([(5, SCANS + JOINS), (3, ["SequentialScan"] + d.subset(SCANS[1:], 60) + d.some(JOINS, 1, 3))]),
            "scale": {op: (10 if op in cheap else 100) for op in every},
            "sort": d.flag(70), "memo": d.flag(60), "mat": d.flag(60), "workers": workers,
            "pages": [d.weighted([(2, 0), (2, 1), (2, 2), (6, 3 ** d.int(1, 7))]) for _ in range(4)],
            "exact": d.flag(60), "infer": d.flag(25), "twice": d.flag(25)}


def settings(spec):
    """(scan operators, join operators, max workers)"""
    if spec["infer"]:
        return set(SCANS if spec["scans"] is None else spec["scans"]), set(JOINS if spec["joins"] is None else spec["joins"]), spec["workers"] or 0
    return (set(SCANS if spec["scans"] is None else spec["scans"]) & set(spec["db"]), set(JOINS if spec["joins"] is None else spec["joins"]) & set(spec["db"]),
            spec["workers"] or 0)


def pages_of(spec, name):
    i = gl.BASE.index(name[3:5]) if name.startswith("ix_") else gl.BASE.index(name)
    return spec["pages"][i]


def workers_of(spec, name):
    top = settings(spec)[2]
    pages = pages_of(spec, name)
    return min(top, round(math.log(pages, 3))) if top and pages > 0 else 0


def used_columns(spec, i, star=True):
    g = spec["g"]
    base, alias = g["tabs"][i]
    me = alias or base
    used = {c for t, c, u, e in g["joins"] if t == i} | {e for t, c, u, e in g["joins"] if u == i}
    used |= {x.split(".")[1].split()[0] for x in spec["extra"] if x.split(".")[0] == me}
    sel = spec["select"]
    if sel == "*" or sel == f"{me}.*":
        used |= set(gl.COLS if star else ())
    elif "." in sel and sel.split(".")[0] == me:
        used.add(sel.split(".")[1])
    return used


def scan_options(spec, i):
    """All access paths of a relation: (operator, index, sorted by, estimated workers)."""
    base = spec["g"]["tabs"][i][0]
    me = gl.name(spec["g"], i)
    used = used_columns(spec, i)
    ops = settings(spec)[0]
    w = workers_of(spec, base)
    indexed = sorted(c for c in used_columns(spec, i, star=False) if f"{base}.{c}" in spec["keys"])
    out = [("SequentialScan", "", None, w)] if "SequentialScan" in ops else []
    for c in indexed:
        ix = f"ix_{base}_{c}"
        if "IndexScan" in ops:
            out.append(("IndexScan", ix, f"{me}.{c}", workers_of(spec, ix)))
        if "IndexOnlyScan" in ops and used == {c}:
            out.append(("IndexOnlyScan", ix, f"{me}.{c}", workers_of(spec, ix)))
    if indexed and "BitmapScan" in ops:
        out.append(("BitmapScan", "", None, w))
    return out


class NoPlan(Exception):
    pass


class Optimum:
    """Cheapest cost per (set of relations, sort order) over the documented search space."""

    def __init__(self, spec, costs):
        self.spec, self.costs, self.g = spec, costs, spec["g"]
        self.n = len(self.g["tabs"])
        self.names = [gl.tab(self.g, i).identifier() for i in range(self.n)]
        self.joins = self.g["joins"] + [c for c in gl.closure(self.g["joins"])]
        self.jops = settings(spec)[1]
        self.rels = {}
        for s in gl.csg(self.n, {frozenset((j[0], j[2])) for j in self.joins}):
            self.rels[s] = self.build(s)

    def key(self, s):
        return tuple(sorted(self.names[i] for i in s))

    def keys_between(self, o, i):
        out = []
        for a, ca, b, cb in self.joins:
            if a in o and b in i:
                out.append((f"{self.names[a]}.{ca}", f"{self.names[b]}.{cb}"))
            elif b in o and a in i:
                out.append((f"{self.names[b]}.{cb}", f"{self.names[a]}.{ca}"))
        return sorted(set(out))

    def build(self, s):
        serial, partial = {}, {}      # {sort order: cost}, {(sort order, workers): (cost, operator arguments, cost of the inputs)}

        def add(op, sides, extra, sort, inputs, workers=0, only=None):
            cost = self.costs.local(op, *sides, extra=extra) + inputs
            if only != "partial":
                serial[sort] = min(cost, serial.get(sort, math.inf))
            if only != "serial" and workers:
                k = (sort, workers)
                if cost < partial.get(k, (math.inf,))[0]:
                    partial[k] = (cost, (op, sides, extra), inputs)
        if len(s) == 1:
            (i,) = s
            for op, ix, sort, w in scan_options(self.spec, i):
                add(op, [[self.names[i]]], ix, sort and frozenset([sort]), 0, w)
        else:
            for k in range(1, len(s)):
                for o in map(frozenset, itertools.combinations(sorted(s), k)):
                    i = s - o
                    if o in self.rels and i in self.rels and self.keys_between(o, i):
                        self.join(o, i, add)
        if not serial:
            raise NoPlan(self.key(s))
        for (sort, w), (_, (op, sides, extra), inputs) in partial.items():
            cost = self.costs.local(op, *sides, extra=extra, workers=w) + inputs
            serial[sort] = min(cost, serial.get(sort, math.inf))
        return serial, {k: v[0] for k, v in partial.items()}

    def sorted_paths(self, s, paths, col):
        """[(sort order, cost, workers)] of the paths, sorted by the column"""
        out = []
        for k, c in paths:
            sort, w = k
            if sort and col in sort:
                out.append((sort, c, w))
            elif self.spec["sort"]:
                out.append((frozenset([col]), c + self.costs.local("Sort", self.key(s), extra=col), w))
        return out

    def join(self, o, i, add):
        sides = [self.key(o), self.key(i)]
        (so, po), (si, _) = self.rels[o], self.rels[i]
        keys = self.keys_between(o, i)
        for outer, only, w in [(min(so.values()), "serial", 0)] + ([(min(c for c in po.values()), "partial", None)] if po else []):
            if w is None:
                w = min((c, k[1]) for k, c in po.items())[1]
            inner = min(si.values())
            if "NestedLoopJoin" in self.jops:
                opts = [("", inner)]
                if self.spec["memo"]:
                    opts += [("Memoize", inner + self.costs.local("Memoize", self.key(i), extra=ic)) for _, ic in keys]
                if self.spec["mat"] and only == "serial":
                    opts.append(("Materialize", inner + self.costs.local("Materialize", self.key(i))))
                for tag, x in opts:
                    add("NestedLoopJoin", sides, tag, None, outer + x, w, only)
            if "HashJoin" in self.jops:
                add("HashJoin", sides, "", None, outer + inner, w, only)
        if "SortMergeJoin" in self.jops:
            for oc, ic in keys:
                inner = self.sorted_paths(i, [((k, 0), c) for k, c in si.items()], ic)
                for only, outer in [("serial", self.sorted_paths(o, [((k, 0), c) for k, c in so.items()], oc)),
                                    ("partial", self.sorted_paths(o, list(po.items()), oc))]:
                    for (k1, c1, w), (k2, c2, _) in itertools.product(outer, inner):
                        add("SortMergeJoin", sides, "", k1 | k2, c1 + c2, w, only)


def keep_all(enum, rel, path, is_partial):
    """Hook: keep the cheapest path per sort order (and number of workers), without any further pruning."""
    paths = rel.partial_paths if is_partial else rel.pathlist

    def key(p):
        return (tuple(p.sort_keys), p.get("estimated_workers", 0) if is_partial else 0)
    for pos, old in enumerate(paths):
        if key(old) == key(path):
            if path.estimated_cost < old.estimated_cost:
                paths[pos] = path
            return
    paths.append(path)


def conjuncts(p):
    if p is None:
        return set()
    if p.is_base():
        return {p}
    return set().union(*map(conjuncts, p.children)) if str(p.operation).endswith("And") or p.operation.name == "And" else {p}


def single(col_expr):
    return colname(col_expr.column)


def check_plan(plan, spec, q, cards, costs):
    g, n = spec["g"], len(spec["g"]["tabs"])
    T = [gl.tab(g, i) for i in range(n)]
    scan_ops, join_ops, _ = settings(spec)
    leaves, preds = [], set()
    known = {frozenset(((gl.name(g, a), ca), (gl.name(g, b), cb))) for a, ca, b, cb in g["joins"] + gl.closure(g["joins"])}

    def orders(p):
        require(len(p.sort_keys) <= 1, "sort keys %s", p.sort_keys)
        return {single(c) for k in p.sort_keys for c in k.equivalence_class}

    def visit(p, parent=None):
        nonlocal preds
        preds |= conjuncts(p.filter_predicate)
        ch = list(p.children)
        w = p.params.parallel_workers
        if isinstance(w, int) and w > 0:
            require(0 < w <= settings(spec)[2], "%s workers, allowed are %s", w, spec["workers"])
            require(p.is_scan() or p.is_join(), "parallel %s", p.operator)
        if p.is_scan():
            require(not ch, "scan with inputs: %s", p)
            leaves.append(p.base_table)
            i = T.index(p.base_table)
            opts = {(op, ix): sort for op, ix, sort, _ in scan_options(spec, i)}
            k = (p.operator.name, p.params.index or "")
            require(k in opts, "%s is not possible for %s", k, p.base_table)
            require(orders(p) == ({opts[k]} if opts[k] else set()), "%s sorted by %s", k, orders(p))
            require(q.predicates().filters_for(p.base_table) is None or conjuncts(p.filter_predicate) >= conjuncts(q.predicates().filters_for(p.base_table)),
                    "filter of %s: %s", p.base_table, p.filter_predicate)
        elif p.is_join():
            require(p.operator.name in join_ops, "join operator %s is not allowed", p.operator)
            require(len(ch) == 2, "join with %s inputs", len(ch))
            o, i = base_tables(ch[0]), base_tables(ch[1])
            between = [k for k in known if any(t.identifier() == x for x, _ in k for t in o) and any(t.identifier() == x for x, _ in k for t in i)]
            require(between, "cross product of %s and %s", o, i)
            cols = {frozenset((c.table.identifier(), c.name) for c in x.columns()) for x in conjuncts(p.filter_predicate)}
            require(cols == set(between), "join condition %s between %s and %s", p.filter_predicate, o, i)
            if p.operator.name == "SortMergeJoin":
                so, si = orders(ch[0]), orders(ch[1])
                require(any({f"{x}.{y}" for x, y in k} & so and {f"{x}.{y}" for x, y in k} & si for k in between),
                        "merge join of %s and %s with inputs sorted by %s and %s", o, i, so, si)
                require(orders(p) == so | si, "merge join sorted by %s", orders(p))
            else:
                require(not orders(p), "%s sorted by %s", p.operator, orders(p))
            visit(ch[0], p)
            visit(ch[1], p)
        else:
            op = p.operator.name
            require(len(ch) == 1 and parent is not None, "%s at the wrong place", op)
            require((op == "Sort" and parent.operator.name == "SortMergeJoin" and spec["sort"]) or
                    (op in ("Memoize", "Materialize") and parent.operator.name == "NestedLoopJoin" and parent.inner_child is p
                     and spec["memo" if op == "Memoize" else "mat"]), "%s below %s", op, parent.operator)
            if op == "Memoize":
                key = p.params.lookup_key.column
                tabs = base_tables(p)
                partner = {x for x, _ in map(tuple, [(t.identifier(), 0) for t in base_tables(parent.outer_child)])}
                require(key.table in tabs and any((key.table.identifier(), key.name) in k and any(x in partner for x, _ in k) for k in known),
                        "memoization of %s", key)
            if op == "Sort":
                require(len(orders(p)) == 1, "sorted by %s", orders(p))
            else:
                require(not orders(p), "%s sorted by %s", op, orders(p))
            visit(ch[0], p)
        require(p.estimated_cardinality == cards.card(key_of(base_tables(p))), "cardinality of %s: %s", p, p.estimated_cardinality)
        require(math.isclose(p.estimated_cost, costs.estimate_cost(q, p), rel_tol=1e-9), "cost of %s: %s", p, p.estimated_cost)
    visit(plan)
    require(sorted(map(str, leaves)) == sorted(map(str, T)), "plan over %s instead of %s", leaves, T)
    missing = conjuncts(q.predicates().root) - preds if q.predicates() else set()
    missing = {m for m in missing if frozenset((c.table.identifier(), c.name) for c in m.columns()) not in
               {frozenset((c.table.identifier(), c.name) for c in p.columns()) for p in preds}}
    require(not missing, "predicates %s are not part of the plan", missing)


def check_pg(spec):
    g = spec["g"]
    schema = gl.schema_stub(spec["keys"])
    q = pb.parse(gl.sql(g, spec["extra"], spec["select"]))
    cards, costs = RandomCards(spec["seed"]), Costs(spec)
    pages = {b: p for b, p in zip(gl.BASE, spec["pages"])} | {f"ix_{b}_{c}": p for b, p in zip(gl.BASE, spec["pages"]) for c in gl.COLS}
    scan_ops, join_ops, workers = settings(spec)
    config = {k: "on" if op in scan_ops | join_ops else "off" for k, op in FLAGS.items()}
    config |= {"enable_material": "on" if spec["mat"] else "off", "enable_memoize": "on" if spec["memo"] else "off",
               "enable_sort": "on" if spec["sort"] else "off", "max_parallel_workers_per_gather": str(workers)}
    db = StubPostgres(spec["db"], schema, pages, config)
    hook = keep_all if spec["exact"] else None
    if spec["infer"]:
        enum = dynprog.PostgresDynProg(target_db=db, add_path_hook=hook)
        enum.infer_settings()
    else:
        enum = dynprog.PostgresDynProg(
            supported_scan_ops=None if spec["scans"] is None else {o for o in ScanOperator if o.name in spec["scans"]},
            supported_join_ops=None if spec["joins"] is None else {o for o in JoinOperator if o.name in spec["joins"]},
            enable_materialize=spec["mat"], enable_memoize=spec["memo"], enable_sort=spec["sort"], max_parallel_workers=spec["workers"],
            target_db=db, add_path_hook=hook)
    full = frozenset(range(len(g["tabs"])))
    try:
        opt = Optimum(spec, costs)
        want = min(opt.rels[full][0].values())
    except NoPlan:
        want = None
    for _ in range(2 if spec["twice"] else 1):
        cards.log.clear()
        costs.log.clear()
        try:
            plan = enum.generate_execution_plan(q, cost_model=costs, cardinality_estimator=cards)
        except Exception:
            if want is None:
                return
            raise
        require(want is not None, "no plan exists, got %s", plan)
        check_plan(plan, spec, q, cards, costs)
        if spec["exact"]:
            require(math.isclose(plan.estimated_cost, want, rel_tol=1e-9), "cost %s, but the optimum without pruning is %s: %s", plan.estimated_cost, want, plan)
        elif not workers:       # the cost of a parallel plan is not monotone in the cost of its sequential form
            require(plan.estimated_cost >= want * (1 - 1e-9), "cost %s is below the optimum %s", plan.estimated_cost, want)
            if (len(g["tabs"]) <= 2 or "SortMergeJoin" not in join_ops):
                top = want * 1.01 ** (2 * len(g["tabs"]))
                require(plan.estimated_cost <= top, "cost %s, but the optimum is %s: %s", plan.estimated_cost, want, plan)
        for log in (cards.log, costs.log):
            require(log[0][0] == "init" and log[-1] == ("cleanup",) and sum(x[0] in ("init", "cleanup") for x in log) == 2, "initialize/cleanup protocol: %s",
                    [x[0] for x in log][:5])


# ---------------------------------------------------------------- pruning

@composite
def prune_strategy(d):
    return {"paths": [[d.weighted([(6, 100 + d.int(0, 40) / 10), (4, d.int(1, 400))]), d.weighted([(3, []), (5, d.permutation(d.some(["x", "y", "z"], 1, 3)))])]
                      for _ in range(d.int(1, 9))], "partial": d.flag(30)}


def check_prune(spec):
    db = StubPostgres(SCANS + JOINS, None)
    enum = dynprog.PostgresDynProg(target_db=db)
    tab = TableReference("t0")
    other = QueryPlan(ScanOperator.SequentialScan, base_table=tab, estimated_cost=1)
    rel = dynprog.RelOptInfo(intermediate=frozenset([tab]), pathlist=[] if spec["partial"] else [other][:0], partial_paths=[], cheapest_path=None,
                             cheapest_partial_path=None, cardinality=None)
    added = []

    def order(p):
        return [k.column.column.name for k in p.sort_keys]
    for pos, (cost, cols) in enumerate(spec["paths"]):
        p = QueryPlan(ScanOperator.IndexScan, base_table=tab, index=f"ix{pos}", estimated_cost=cost, estimated_workers=1,
                      sort_keys=[SortKey([ColumnExpression(ColumnReference(c, tab))]) for c in cols])
        added.append((cost, cols, p))
        enum.standard_add_path(rel, p, is_partial=spec["partial"])
        kept, rest = (rel.partial_paths, rel.pathlist) if spec["partial"] else (rel.pathlist, rel.partial_paths)
        require(not rest, "path added to the wrong list")
        require(len({k.params.index for k in kept}) == len(kept) and {k.params.index for k in kept} <= {x.params.index for _, _, x in added}, "kept paths %s", kept)
        for c, cs, a in added:
            require(any(order(k)[:len(cs)] == cs and k.estimated_cost <= c * 1.01 ** 4 * (1 + 1e-9) for k in kept),
                    "no path sorted by %s for at most the cost of %s: %s are left of %s", cs, c, [(k.estimated_cost, order(k)) for k in kept],
                    [(x, y) for x, y, _ in added])
            dupes = [k for k in kept if order(k) == cs]
            require(len(dupes) <= 1, "several paths sorted by %s: %s", cs, [k.estimated_cost for k in dupes])


FACETS = [
    Facet("plans", pg_strategy, check_pg, quick=1600, thorough=25000, shards=8,
          rule="connected equi-join queries over 1-4 relations, indexes, page counts, operator restrictions, planner flags, worker limits and monotone cost "
               "models; exact optimum of the documented space (pruning replaced by the hook) or bounded (standard pruning); non-trivial: at least 2 tables",
          nontrivial=lambda s: len(s["g"]["tabs"]) >= 2,
          classify=lambda s: ["exact" if s["exact"] else "pruned", "parallel" if s["workers"] else "serial", f"{len(s['g']['tabs'])} tables"]),
    Facet("pruning", prune_strategy, check_prune, quick=1500, thorough=40000, shards=2,
          rule="histories of up to 9 added paths with sort orders of up to 3 columns; non-trivial: at least 3 paths and 2 sort orders",
          nontrivial=lambda s: len(s["paths"]) >= 3 and len({tuple(c) for _, c in s["paths"]}) > 1, classify=lambda s: ["partial" if s["partial"] else "full"]),
]
