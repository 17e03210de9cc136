"""C18: DuckDB hints request exactly the given plan and do not change query results (checked on quacklab)."""
from __future__ import annotations

import json
import re
import random
from pathlib import Path

from pbt import duck, pb, pgnorm, planlib as pln
from pbt.draw import composite
from pbt.engine import Facet, fail, require
from postbound import TableReference
from postbound._core import Cardinality, IntermediateOperator, JoinOperator, ScanOperator
from postbound._hints import (DirectionalJoinOperatorAssignment, HintType, JoinOperatorAssignment, JoinTree, LogicalJoinTree,
                              PhysicalOperatorAssignment, PlanParameterization, ScanOperatorAssignment)
from postbound._qep import QueryPlan
from postbound.db import UnsupportedDatabaseFeatureError
from postbound import duckdb as dd

ASSUMPTIONS = ["join direction is chosen by DuckDB itself (build side swap): executed plans are compared as unordered trees",
               "operator hints other than hash joins and sequential scans are only checked as text (documented as unreliable in DuckDB)"]
BASE = ["t0", "t1", "t2", "t3", "t4", "t5"]
ROWS = [17, 30, 25, 40, 12, 33]
SCANS = {"SequentialScan": "SeqScan", "IndexScan": "IdxScan"}
JOINS = {"NestedLoopJoin": "NestLoop", "HashJoin": "HashJoin", "SortMergeJoin": "MergeJoin"}
GLOBALS = {"NestedLoopJoin": "enable_nestloop", "HashJoin": "enable_hashjoin", "SortMergeJoin": "enable_mergejoin"}
# settings that change neither results nor the presence of join nodes -> allowed values
SETTINGS = {"threads": [1, 2, 3], "preserve_insertion_order": ["true"], "prefer_range_joins": ["false"], "default_null_order": ["nulls_last", "nulls_first"],
            "perfect_ht_threshold": [10, 12], "ordered_aggregate_threshold": [262144, 131072], "scalar_subquery_error_on_multiple_rows": ["false", "true"]}
JCOLS = ["id", "x", "y", "u", "v", "w", "p", "q"]
_DB = None


def database():
    """one in-memory database per process"""
    global _DB
    if _DB is None:
        _DB = dd.DuckDBInterface(Path(":memory:"))
        rnd = random.Random(7)
        for t, n in zip(BASE, ROWS):
            _DB.cursor().execute(f"CREATE TABLE {t} (id INTEGER PRIMARY KEY, x INTEGER, y INTEGER, z VARCHAR, u INTEGER, v INTEGER, w INTEGER, p INTEGER, q INTEGER)")
            for i in range(n):
                _DB.cursor().execute(f"INSERT INTO {t} VALUES (?, ?, ?, ?, ?, ?, ?, ?, ?)",
                                     [i, rnd.randrange(9) if rnd.random() < .9 else None, rnd.randrange(5), rnd.choice(["a", "b", "ab", None]),
                                      *(rnd.randrange(12) if rnd.random() < .9 else None for _ in range(5))])
    return _DB


def op_of(name):
    return next(o for kind in (ScanOperator, JoinOperator, IntermediateOperator) for o in kind if o.name == name)


# ---------------------------------------------------------------- generation

def gen_card(d):
    return d.weighted([(6, d.int(0, 5000)), (1, "nan"), (1, "inf"), (1, 12.0), (1, 0)])


def gen_base(d, lo=1):
    n = d.weighted([(1, 1), (3, 2), (4, 3), (3, 4), (2, 5), (1, 6)])
    n = max(n, lo)
    distinct = d.flag(75)
    tabs, order = [], d.permutation(range(6))
    for i in range(n):
        b = BASE[order[i]] if distinct else BASE[d.int(0, 3)]
        alias = "" if b not in [t for t, _ in tabs] and d.flag(50) else f"{'rsmn'[d.int(0, 3)]}{i}"
        tabs.append([b, alias])
    edges = [[d.int(0, i - 1), i] for i in range(1, n)]
    extra = [[i, j] for j in range(2, n) for i in range(j) if [i, j] not in edges]
    edges += d.some(extra, 0, min(2, len(extra))) if extra and d.flag(30) else []
    # every column is used in at most one join predicate: quacklab itself fails for join orders over derived equalities
    free = {i: d.permutation(JCOLS) for i in range(n)}
    preds = [[i, j, [free[i].pop(), free[j].pop()]] for i, j in edges]
    filters = [[i, d.choice(["{t}.y > 1", "{t}.id < 9", "{t}.z = 'a'", "{t}.x IN (1, 2, 5)", "{t}.z LIKE 'a%'", "{t}.y BETWEEN 1 AND 3", "({t}.x = 3 OR {t}.y = 2)"])]
               for i in d.subset(range(n), 25)]
    q = {"select": d.choice(["*", "count(*)", "min", "cols", "group"]), "join": d.choice(["implicit", "implicit", "explicit"]), "order": d.flag(20),
         "limit": d.weighted([(5, None), (1, 4), (1, 0)]), "explain": d.weighted([(5, False), (1, True)])}
    return {"tabs": tabs, "preds": preds, "filters": filters, "query": q}


def connected_shape(d, n, preds):
    """a random join tree without cross products"""
    comps = [(["s", i, None], {i}) for i in range(n)]
    while len(comps) > 1:
        cands = [(a, b) for a in range(len(comps)) for b in range(len(comps)) if a != b
                 and any((i in comps[a][1] and j in comps[b][1]) or (j in comps[a][1] and i in comps[b][1]) for i, j, _ in preds)]
        a, b = d.choice(cands)
        merged = (["j", comps[a][0], comps[b][0], None], comps[a][1] | comps[b][1])
        comps = [c for k, c in enumerate(comps) if k not in (a, b)] + [merged]
    return comps[0][0]


def tree_sets(t):
    return [sorted(pln.leaves(x)) for x in pln.nodes(t)]


@composite
def exec_strategy(d):
    spec = gen_base(d, 2)
    n = len(spec["tabs"])
    names = [t for t, _ in spec["tabs"]]    # quacklab itself confuses an unaliased table with further aliases of the same table
    spec["tabs"] = [[t, a or (f"k{i}" if names.count(t) > 1 else "")] for i, (t, a) in enumerate(spec["tabs"])]
    jo = connected_shape(d, n, spec["preds"]) if d.flag(80) else None
    spec["query"]["explain"] = False
    sets = tree_sets(jo) if jo else [[i] for i in range(n)]
    cards = [[s, d.choice([d.int(1, 5000), d.int(1, 50)])] for s in sets if d.flag(45)]
    ops = {"scans": [[i, "SequentialScan", None] for i in d.subset(range(n), 30)], "joins": [[s, "HashJoin", None, 0] for s in sets if len(s) > 1 and d.flag(30)],
           "inter": [], "global": [["HashJoin", True]] if d.flag(10) else []} if d.flag(40) else None
    settings = [[k, d.choice(SETTINGS[k])] for k in d.some(sorted(SETTINGS), 1, 2)] if d.flag(30) else []
    params = {"cards": cards, "workers": [], "settings": settings} if d.flag(80) else None
    return {**spec, "jo": jo, "logical": d.flag(40), "ops": ops, "params": params, "plan": d.flag(25) and jo is not None, "mode": d.choice(["execute", "plan", "timed"])}


@composite
def text_strategy(d):
    spec = gen_base(d)
    n = len(spec["tabs"])
    jo = pln.gen_shape(d, d.permutation(range(n))) if d.flag(70) else None
    odd = d.weighted([(6, None), (1, "scan"), (1, "inter"), (1, "workers"), (1, "global")])
    ops = params = None
    if d.flag(75):
        sets = {tuple(s) for s in (tree_sets(jo) if jo and d.flag(70) else [sorted(d.some(range(n), 1, n)) for _ in range(3)]) if len(s) > 1}
        ops = {"scans": [[i, d.choice(sorted(SCANS)), None] for i in d.subset(range(n), 60)], "inter": [],
               "joins": [[list(s), d.choice(sorted(JOINS)), None, d.int(1, len(s) - 1) if d.flag(25) else 0] for s in sorted(sets) if d.flag(75)],
               "global": [[o, d.flag(50)] for o in d.some(sorted(GLOBALS), 0, 2)]}
        if odd == "scan" and ops["scans"]:
            ops["scans"][0][1] = d.choice(["IndexOnlyScan", "BitmapScan"])
        if odd == "inter":
            ops["inter"] = [[sorted(d.some(range(n), 1, n)), d.choice(["Sort", "Materialize", "Memoize"])]]
        if odd == "global":
            ops["global"] = [[d.choice(["BitmapScan", "IndexOnlyScan", "IndexScan", "SequentialScan", "Sort"]), d.flag(50)]]
    if d.flag(75):
        params = {"cards": [[list(s), gen_card(d)] for s in sorted({tuple(sorted(d.some(range(n), 1, n))) for _ in range(d.int(0, 4))})],
                  "workers": [[[0], 3]] if odd == "workers" else [],
                  "settings": [[k, d.choice(SETTINGS[k])] for k in d.some(sorted(SETTINGS), 0, 2)]}
    return {**spec, "jo": jo, "logical": d.flag(40), "ops": ops, "params": params, "plan": False}


@composite
def plan_strategy(d):
    spec = gen_base(d)

    def node(t):
        if t[0] == "s":
            n = {"k": "scan", "op": d.choice(sorted(SCANS)), "i": t[1], "ch": []}
        else:
            n = {"k": "join", "op": d.choice(sorted(JOINS)), "ch": [node(t[1]), node(t[2])]}
        n |= {"est": gen_card(d), "act": gen_card(d)}
        if d.flag(10):
            n = {"k": "aux", "op": None, "ch": [n], "est": d.choice(["nan", n["est"]]), "act": "nan"}
        return n
    root = node(pln.gen_shape(d, d.permutation(range(len(spec["tabs"])))))
    if d.flag(40):
        root = {"k": "aux", "op": None, "ch": [root], "est": d.choice(["nan", 1]), "act": "nan"}
    return {**spec, "tree": root}


# ---------------------------------------------------------------- building

def tab(spec, i):
    return TableReference(*spec["tabs"][i])


def ident(spec, i):
    return spec["tabs"][i][1] or spec["tabs"][i][0]


def sql_of(spec):
    q, n = spec["query"], len(spec["tabs"])
    ids = [ident(spec, i) for i in range(n)]
    frm = [f"{t} AS {a}" if a else t for t, a in spec["tabs"]]
    on = {}
    for i, j, (a, b) in spec["preds"]:
        on.setdefault(j, []).append(f"{ids[i]}.{a} = {ids[j]}.{b}")
    where = [f.format(t=ids[i]) for i, f in spec["filters"]]
    if q["join"] == "explicit":
        body = frm[0] + "".join(f" JOIN {frm[j]} ON " + " AND ".join(on[j]) for j in range(1, n))
    else:
        body = ", ".join(frm)
        where = [p for j in range(1, n) for p in on[j]] + where
    cols = ", ".join(f"{i}.id" for i in ids)
    sel = {"*": "*", "count(*)": "count(*)", "min": ", ".join(f"min({i}.id), max({i}.x)" for i in ids), "cols": cols, "group": f"{ids[0]}.y, count(*)"}[q["select"]]
    sql = f"SELECT {sel} FROM {body}" + (" WHERE " + " AND ".join(where) if where else "")
    ordered = False
    if q["select"] == "group":
        sql += f" GROUP BY {ids[0]}.y"
        if q["order"]:
            sql += f" ORDER BY {ids[0]}.y"
            ordered = True
    elif q["select"] in ("cols", "*") and (q["order"] or q["limit"] is not None):
        sql += f" ORDER BY {cols}"
        ordered = True
    if q["limit"] is not None and (ordered or q["select"] in ("count(*)", "min")):
        sql += f" LIMIT {q['limit']}"
    return ("EXPLAIN " if q["explain"] else "") + sql, ordered


def build_jo(spec, t, logical):
    cls = LogicalJoinTree if logical else JoinTree
    if t[0] == "s":
        return cls.scan(tab(spec, t[1]))
    return cls.join(build_jo(spec, t[1], logical), build_jo(spec, t[2], logical))


def build_parts(spec):
    jo = build_jo(spec, spec["jo"], spec["logical"]) if spec["jo"] else None
    ops = params = None
    if spec["ops"] is not None:
        ops = PhysicalOperatorAssignment()
        for i, o, _ in spec["ops"]["scans"]:
            ops.add(ScanOperatorAssignment(op_of(o), tab(spec, i)))
        for s, o, _, k in spec["ops"]["joins"]:
            ts = [tab(spec, i) for i in s]
            ops.add(DirectionalJoinOperatorAssignment(op_of(o), ts[:k], ts[k:]) if k else JoinOperatorAssignment(op_of(o), ts))
        for s, o in spec["ops"]["inter"]:
            ops.add(op_of(o), [tab(spec, i) for i in s])
        for o, on in spec["ops"]["global"]:
            ops.set_operator_enabled_globally(op_of(o), on)
    if spec["params"] is not None:
        params = PlanParameterization()
        for s, c in spec["params"]["cards"]:
            params.add_cardinality([tab(spec, i) for i in s], Cardinality(pln.num(c)))
        for s, w in spec["params"]["workers"]:
            params.set_workers([tab(spec, i) for i in s], w)
        for k, v in spec["params"]["settings"]:
            params.set_system_settings(k, v)
    return jo, ops, params


def build_plan(spec, n):
    kw = dict(children=[build_plan(spec, c) for c in n["ch"]], estimated_cardinality=Cardinality(pln.num(n["est"])), actual_cardinality=Cardinality(pln.num(n["act"])))
    if n["k"] == "scan":
        return QueryPlan(op_of(n["op"]), base_table=tab(spec, n["i"]), **kw)
    return QueryPlan("UNGROUPED_AGGREGATE" if n["k"] == "aux" else op_of(n["op"]), **kw)


def exec_plan(spec, t, cards):
    s = sorted(pln.leaves(t))
    kw = {"estimated_cardinality": Cardinality(cards[tuple(s)])} if tuple(s) in cards else {}
    if t[0] == "s":
        return QueryPlan(ScanOperator.SequentialScan, base_table=tab(spec, t[1]), **kw)
    return QueryPlan(JoinOperator.HashJoin, children=[exec_plan(spec, t[1], cards), exec_plan(spec, t[2], cards)], **kw)


# ---------------------------------------------------------------- reading hint blocks

def tree_of(args, what):
    if isinstance(args, str):
        return args
    if len(args) == 1:
        return tree_of(args[0], what)
    require(len(args) == 2, "not a binary join order: %s", what)
    return [tree_of(args[0], what), tree_of(args[1], what)]


def read_hints(hinted, sql):
    """-> order, ops, cards, globals, settings of the hinted query; the query itself must still be the same"""
    hints = hinted.hints
    text = str(hinted)
    if hints is None:
        require(pgnorm.normal_form(text) == pgnorm.normal_form(sql), "the query has a different meaning: %s instead of %s", text, sql)
        return None, [], {}, {}, {}
    prep, block = hints.preparatory_statements, hints.query_hints
    require(not block or (block.startswith("/*=quack_lab=") and block.rstrip().endswith("*/") and block.count("*/") == 1), "not a quack_lab hint block: %s", block)
    require(text.startswith((prep + "\n" if prep and block else prep) + block), "the hints are not at the start of the query: %s", text)
    rest = text[len(prep):].lstrip()[len(block):]
    require(pgnorm.normal_form(rest) == pgnorm.normal_form(sql), "the hinted query has a different meaning: %s instead of %s", rest, sql)
    settings = {}
    for st in filter(None, (s.strip() for s in (prep or "").split(";"))):
        m = re.fullmatch(r"SET (?:SESSION )?(\w+) *(?:=|TO) *'?(\w+)'?", st, flags=re.I)
        require(m is not None, "not a SET statement: %s", st)
        settings[m.group(1)] = m.group(2)
    order, ops, cards, glob = None, [], {}, {}
    toks = re.findall(r"[()=]|'[^']*'|[^\s()'=]+", block.strip()[len("/*=quack_lab="):-2]) if block else []
    pos = 0

    def group():
        nonlocal pos
        out = []
        while True:
            require(pos < len(toks), "unbalanced parentheses in the hint block %s", block)
            t = toks[pos]
            pos += 1
            if t == ")":
                return out
            out.append(group() if t == "(" else t)
    while pos < len(toks):
        name = toks[pos]
        require(pos + 1 < len(toks) and toks[pos + 1] == "(", "cannot read the hint block at %s: %s", name, block)
        pos += 2
        args = group()
        if name == "JoinOrder":
            require(order is None, "two join orders: %s", block)
            order = tree_of(args, block)
        elif name in (*SCANS.values(), *JOINS.values()):
            require(all(isinstance(a, str) for a in args) and len(set(args)) == len(args) and args, "bad operator hint %s(%s)", name, args)
            ops.append((name, frozenset(args)))
        elif name == "Card":
            require(len(args) > 1 and re.fullmatch(r"#\d+(\.0)?", args[-1]) and len(set(args)) == len(args), "bad cardinality hint %s", args)
            cards[frozenset(args[:-1])] = float(args[-1][1:])
        elif name == "Set":
            require(len(args) == 3 and args[1] == "=" and args[2] in ("'on'", "'off'"), "bad setting %s", args)
            require(args[0] in GLOBALS.values(), "quacklab does not know the setting %s", args[0])
            glob[args[0]] = args[2] == "'on'"
        else:
            fail("unknown hint %s(%s)", name, args)
    return order, ops, cards, glob, settings


def pairs(spec, t):
    return ident(spec, t[1]) if t[0] == "s" else [pairs(spec, t[1]), pairs(spec, t[2])]


def check_read(spec, hinted, sql, order, ops, cards, glob, settings):
    r_order, r_ops, r_cards, r_glob, r_settings = read_hints(hinted, sql)
    n = len(spec["tabs"])
    require(r_order == order or r_order is None and (order is None or n < 3), "join order %s instead of %s", r_order, order)
    require(sorted(map(str, map(srt, r_ops))) == sorted(map(str, map(srt, ops))), "operator hints %s instead of %s", sorted(map(srt, r_ops)), sorted(map(srt, ops)))
    require(r_cards == cards, "cardinality hints %s instead of %s", r_cards, cards)
    require(r_glob == glob, "operator settings %s instead of %s", r_glob, glob)
    require(r_settings == {k: str(v) for k, v in settings}, "system settings %s instead of %s", r_settings, settings)


def srt(x):
    return x[0], sorted(x[1])


def wanted(spec):
    ids = [ident(spec, i) for i in range(len(spec["tabs"]))]
    o = spec["ops"] or {"scans": [], "joins": [], "inter": [], "global": []}
    p = spec["params"] or {"cards": [], "workers": [], "settings": []}
    ops = [(SCANS.get(x), frozenset([ids[i]])) for i, x, _ in o["scans"]] + [(JOINS[x], frozenset(ids[i] for i in s)) for s, x, _, _ in o["joins"]]
    cards = {frozenset(ids[i] for i in s): float(c) for s, c in p["cards"] if c not in ("nan", "inf")}
    bad = any(x not in SCANS for _, x, _ in o["scans"]) or o["inter"] or p["workers"] or any(x not in GLOBALS for x, _ in o["global"])
    return pairs(spec, spec["jo"]) if spec["jo"] else None, ops, cards, {GLOBALS.get(x): on for x, on in o["global"]}, p["settings"], bool(bad)


def check_text(spec):
    pb.reset()
    sql, _ = sql_of(spec)
    q = pb.parse(sql)
    before = str(q)
    jo, ops, params = build_parts(spec)
    svc = database().hinting()
    order, w_ops, cards, glob, settings, bad = wanted(spec)
    try:
        hinted = svc.generate_hints(q, join_order=jo, physical_operators=ops, plan_parameters=params)
    except UnsupportedDatabaseFeatureError as e:
        require(bad, "supported hints are rejected: %s", e)
        return
    require(not bad, "unsupported hints are accepted: %s", hinted)
    require(str(q) == before, "the input query was modified")
    check_read(spec, hinted, sql, order, w_ops, cards, glob, settings)
    for kind in (ScanOperator, JoinOperator, IntermediateOperator):
        for o in kind:
            require(svc.supports_hint(o) == (o.name in SCANS or o.name in JOINS), "supports_hint(%s) is %s", o, svc.supports_hint(o))
    for h, want in ((HintType.LinearJoinOrder, True), (HintType.BushyJoinOrder, True), (HintType.Cardinality, True)):
        require(svc.supports_hint(h) == want, "supports_hint(%s) is %s", h, not want)


def nodes_of(n):
    return [n] + [x for c in n["ch"] for x in nodes_of(c)]


def leaf_set(spec, n):
    return frozenset(ident(spec, x["i"]) for x in nodes_of(n) if x["k"] == "scan")


def check_plan(spec):
    pb.reset()
    sql, _ = sql_of(spec)
    q = pb.parse(sql)
    svc = database().hinting()
    plan = build_plan(spec, spec["tree"])
    hinted = svc.generate_hints(q, plan)

    def order(n):
        return ident(spec, n["i"]) if n["k"] == "scan" else [order(c) for c in n["ch"]] if n["k"] == "join" else order(n["ch"][0])
    real = [n for n in nodes_of(spec["tree"]) if n["k"] != "aux"]
    ops = [((SCANS | JOINS)[n["op"]], leaf_set(spec, n)) for n in real]
    cards = {leaf_set(spec, n): float(n["est"]) for n in real if n["est"] not in ("nan", "inf")}
    r_cards = read_hints(hinted, sql)[2]
    for n in nodes_of(spec["tree"]):      # an estimate of an auxiliary node is used if the actual node has none
        if n["k"] == "aux" and leaf_set(spec, n) not in cards and r_cards.get(leaf_set(spec, n)) == n["est"]:
            cards[leaf_set(spec, n)] = float(n["est"])
    check_read(spec, hinted, sql, order(spec["tree"]), ops, cards, {}, [])
    for kw in ({"join_order": JoinTree.scan(tab(spec, 0))}, {"plan_parameters": PlanParameterization()}, {"physical_operators": PhysicalOperatorAssignment()}):
        try:
            svc.generate_hints(q, plan, **kw)
        except ValueError:
            continue
        fail("a plan and %s are hinted together", list(kw))


# ---------------------------------------------------------------- execution

JOIN_NODES = {"HASH_JOIN", "NESTED_LOOP_JOIN", "PIECEWISE_MERGE_JOIN", "CROSS_PRODUCT", "BLOCKWISE_NL_JOIN", "IE_JOIN", "DELIM_JOIN"}


def explain(con, text):
    return json.loads(con.execute(text).fetchall()[0][1])[0]


def engine_tree(n, by_table, found):
    """-> nested frozensets of aliases, None if the plan was pruned; collects estimates by leaf set"""
    name = n["name"].strip()
    est = n.get("extra_info", {}).get("Estimated Cardinality")
    ch = [engine_tree(c, by_table, found) for c in n["children"]]
    if name == "SEQ_SCAN" or name == "INDEX_SCAN":
        t = by_table[n["extra_info"]["Table"].split(".")[-1]]
        found.append((frozenset([t]), est, "scan"))
        return t
    if name in JOIN_NODES:
        if None in ch:
            return None
        s = frozenset([ch[0], ch[1]])
        found.append((flat(s), est, "join"))
        return s
    return ch[0] if len(ch) == 1 else None


def flat(t):
    return frozenset([t]) if isinstance(t, str) else frozenset().union(*map(flat, t))


def unordered(t):
    return t if isinstance(t, str) else frozenset(map(unordered, t))


def check_exec(spec):
    pb.reset()
    sql, ordered = sql_of(spec)
    q = pb.parse(sql)
    db = database()
    con = db.cursor()
    reference = con.execute(sql).fetchall()
    order, ops, cards, glob, settings, _ = wanted(spec)
    if spec["plan"]:
        plan = exec_plan(spec, spec["jo"], {tuple(s): c for s, c in (spec["params"] or {"cards": []})["cards"]})
        hinted = db.hinting().generate_hints(q, plan)
        ops = [("SeqScan" if len(s) == 1 else "HashJoin", frozenset(ident(spec, i) for i in s)) for s in tree_sets(spec["jo"])]
        glob, settings = {}, []
        check_read(spec, hinted, sql, order, ops, cards, glob, settings)
    else:
        jo, p_ops, params = build_parts(spec)
        hinted = db.hinting().generate_hints(q, join_order=jo, physical_operators=p_ops, plan_parameters=params)
        check_read(spec, hinted, sql, order, ops, cards, glob, settings)
    defaults = {k: db._cur.execute(f"SELECT current_setting('{k}')").fetchone()[0] for k, _ in settings}
    try:
        if spec["mode"] == "timed":
            rt = db.time_query(hinted)
            require(0 <= rt < 60 and db.last_query_runtime() == rt, "runtime is %s", rt)
        if spec["mode"] == "plan":
            qep = db.optimizer().query_plan(hinted)
            require(isinstance(qep, QueryPlan), "no plan: %s", qep)
            qep2 = db.optimizer().analyze_plan(hinted)
            # (whether an index is scanned is only decided at runtime)
            require(len(leaves_of(qep)) == len(leaves_of(qep2)), "EXPLAIN and EXPLAIN ANALYZE plans differ: %s and %s", qep, qep2)
        rows = db.execute_query(hinted, cache_enabled=False, raw=True)
        require(duck.same(rows, reference, ordered), "the hinted query %s\nreturns %s\ninstead of %s", hinted, rows[:5], reference[:5])
        for k, v in settings:
            now = db._cur.execute(f"SELECT current_setting('{k}')").fetchone()[0]
            require(str(now).lower() == str(v).lower(), "%s is %s instead of %s during the query", k, now, v)
        if len({t for t, _ in spec["tabs"]}) < len(spec["tabs"]):
            return
        text = str(hinted.hints.query_hints) + " EXPLAIN (FORMAT JSON) " + sql if hinted.hints and hinted.hints.query_hints else "EXPLAIN (FORMAT JSON) " + sql
        found = []
        tree = engine_tree(explain(con, text), {t: a or t for t, a in spec["tabs"]}, found)
        if tree is None:
            return
        if order is not None:
            require(tree == unordered(order), "DuckDB uses the join order %s instead of %s", show(tree), order)
        for s, est, kind in found:
            if s in cards and est is not None and kind == "join":
                require(float(est) == cards[s], "DuckDB estimates %s for %s instead of %s", est, sorted(s), cards[s])
    finally:
        for k, v in defaults.items():
            db._cur.execute(f"SET {k} = '{v}'")


def leaves_of(n):
    return [n] if not n.children else [x for c in n.children for x in leaves_of(c)]


def show(t):
    return t if isinstance(t, str) else sorted((show(c) for c in t), key=str)


FACETS = [
    Facet("text", text_strategy, check_text, quick=2500, thorough=60000, shards=3,
          rule="queries over 1-6 tables with random join orders, operators, cardinalities and settings, some of them unsupported; non-trivial: at least 2 tables and 2 kinds of hints",
          nontrivial=lambda s: len(s["tabs"]) > 1 and sum(map(bool, (s["jo"], s["ops"], s["params"]))) > 1),
    Facet("plans", plan_strategy, check_plan, quick=1500, thorough=40000, shards=2,
          rule="complete plans with estimates, measured cardinalities and auxiliary nodes; non-trivial: at least one join", nontrivial=lambda s: len(s["tabs"]) > 1),
    Facet("execute", exec_strategy, check_exec, quick=1500, thorough=40000, shards=8,
          rule="connected join queries over 2-6 tables with cross-product-free join orders, cardinalities and settings, executed on quacklab; non-trivial: at least 3 tables and a join order",
          nontrivial=lambda s: len(s["tabs"]) > 2 and bool(s["jo"]), classify=lambda s: [s["mode"], *(["plan"] if s["plan"] else [])]),
]
