"""C17: Postgres hint blocks encode the plan exactly and leave the query's meaning unchanged."""
from __future__ import annotations

import re

from pbt import graphlib as gl
from pbt import pb, pgnorm, planlib as pln
from pbt.draw import composite
from pbt.engine import Facet, fail, require
from pbt.stubdb import StubPostgres
from postbound import TableReference, qal
from postbound._core import Cardinality, IntermediateOperator, JoinOperator, ScanOperator
from postbound._hints import (DirectionalJoinOperatorAssignment, JoinOperatorAssignment, JoinTree, LogicalJoinTree, PhysicalOperatorAssignment,
                              PlanParameterization, ScanOperatorAssignment)
from postbound._qep import QueryPlan
from postbound.postgres import PostgresHintService, PostgresOptimizer

ASSUMPTIONS = ["table names and aliases are plain identifiers (the grammar of quoted names in pg_lab hints is not known offline)",
               "the hint block is parsed by an independent reader of the documented pg_hint_plan / pg_lab syntax; it is not executed on a server"]
SCANS = ["SequentialScan", "IndexScan", "IndexOnlyScan", "BitmapScan"]
JOINS = ["NestedLoopJoin", "HashJoin", "SortMergeJoin"]
INTERS = {"pg_hint_plan": ["Memoize"], "pg_lab": ["Memoize", "Materialize"]}
NAMES = {"pg_hint_plan": {"SequentialScan": {"SeqScan"}, "IndexScan": {"IndexScan", "IndexOnlyScan"}, "IndexOnlyScan": {"IndexOnlyScan"},
                          "BitmapScan": {"BitmapScan"}, "NestedLoopJoin": {"NestLoop"}, "HashJoin": {"HashJoin"}, "SortMergeJoin": {"MergeJoin"}, "Memoize": {"Memoize"}},
         "pg_lab": {"SequentialScan": {"SeqScan"}, "IndexScan": {"IdxScan"}, "IndexOnlyScan": {"IdxScan"}, "BitmapScan": {"BitmapScan"},
                    "NestedLoopJoin": {"NestLoop"}, "HashJoin": {"HashJoin"}, "SortMergeJoin": {"MergeJoin"}, "Memoize": {"Memo"}, "Materialize": {"Material"}}}
SETTINGS = {"SequentialScan": "enable_seqscan", "IndexScan": "enable_indexscan", "IndexOnlyScan": "enable_indexonlyscan", "BitmapScan": "enable_bitmapscan",
            "NestedLoopJoin": "enable_nestloop", "HashJoin": "enable_hashjoin", "SortMergeJoin": "enable_mergejoin", "Memoize": "enable_memoize",
            "Materialize": "enable_material", "Sort": "enable_sort"}


def op_of(name):
    return next(o for kind in (ScanOperator, JoinOperator, IntermediateOperator) for o in kind if o.name == name)


# ---------------------------------------------------------------- generation

def gen_card(d):
    return d.weighted([(6, d.int(0, 5000)), (1, "nan"), (1, "inf"), (1, 12.0), (1, 0)])


def gen_query(d, n):
    return {"select": d.choice(["*", "count(*)", "distinct r.id"]), "where": d.flag(70), "limit": d.weighted([(4, None), (2, 10), (2, 0)]),
            "offset": d.weighted([(4, None), (1, 5), (1, 0)]), "fetch": d.flag(20), "order": d.flag(30), "explain": d.weighted([(3, ""), (1, "EXPLAIN"), (1, "EXPLAIN ANALYZE"), (
                1, "EXPLAIN (FORMAT JSON)"), (1, "EXPLAIN (ANALYZE, FORMAT JSON)")]), "hint": d.flag(10), "cte": d.flag(10), "sub": d.flag(15)}


def gen_tabs(d):
    n = d.weighted([(1, 1), (3, 2), (4, 3), (3, 4), (2, 5), (1, 6)])
    tabs = []
    for i in range(n):
        base = d.choice(gl.BASE)
        alias = "" if base not in [t for t, _ in tabs] and d.flag(50) else f"{'rsmn'[d.int(0, 3)]}{i}"
        tabs.append([base, alias])
    return tabs


def gen_sub(d, n):
    return sorted(d.some(range(n), 1, n))


@composite
def parts_strategy(d):
    tabs = gen_tabs(d)
    n = len(tabs)
    backend = d.choice(["pg_hint_plan", "pg_lab"])
    jo = pln.gen_shape(d, d.permutation(range(n))) if d.flag(70) else None
    workers = d.choice([0, 15, 40])
    ops = None
    if d.flag(80):
        ops = {"scans": [[i, d.choice(SCANS), d.int(1, 8) if d.flag(workers) else None] for i in d.subset(range(n), 60)], "joins": [], "inter": [], "global": []}
        sets = {tuple(s) for s in ([sorted(pln.leaves(t)) for t in pln.nodes(jo) if t[0] == "j"] if jo and d.flag(70) else [gen_sub(d, n) for _ in range(3)]) if len(s) > 1}
        for s in sorted(sets):
            if d.flag(75):
                ops["joins"].append([list(s), d.choice(JOINS), d.int(1, 8) if d.flag(workers) else None, d.int(1, len(s) - 1) if d.flag(25) else 0])
        ops["inter"] = [[list(s), d.choice(INTERS[backend])] for s in sorted({tuple(gen_sub(d, n)) for _ in range(d.int(0, 2))})]
        ops["global"] = [[o, d.flag(50)] for o in d.some(list(SETTINGS), 0, 3)]
    params = None
    if d.flag(75):
        params = {"cards": [[list(s), gen_card(d)] for s in sorted({tuple(gen_sub(d, n)) for _ in range(d.int(0, 4))})],
                  "workers": [[list(s), d.int(1, 8)] for s in sorted({tuple(gen_sub(d, n)) for _ in range(d.int(0, 2))})] if d.flag(workers) else [],
                  "settings": [[k, d.choice(["on", "off", 4, "1GB"])] for k in d.some(["jit", "work_mem", "enable_sort", "random_page_cost"], 0, 2)],
                  "mode": d.choice([None, None, None, "sequential", "parallel"])}
    return {"tabs": tabs, "backend": backend, "jo": jo, "logical": d.flag(40), "ops": ops, "params": params, "query": gen_query(d, n), "geqo": d.int(2, 8)}


@composite
def plan_strategy(d):
    tabs = gen_tabs(d)
    backend = d.choice(["pg_hint_plan", "pg_lab"])
    par = d.flag(25)

    def node(t):
        if t[0] == "s":
            n = {"k": "scan", "op": d.choice(SCANS), "i": t[1], "ch": []}
        else:
            n = {"k": "join", "op": d.choice(JOINS), "ch": [node(t[1]), node(t[2])]}
        n |= {"est": gen_card(d), "act": gen_card(d) if d.flag(30) else "nan", "workers": 0}
        if d.flag(15):
            n = {"k": "inter", "op": d.choice(INTERS[backend]), "ch": [n], "est": n["est"], "act": n["act"], "workers": 0}
        elif d.flag(8):
            n = {"k": "aux", "op": None, "ch": [n], "est": n["est"], "act": n["act"], "workers": 0}
        return n
    root = node(pln.gen_shape(d, d.permutation(range(len(tabs)))))
    if par:
        if d.flag(50):
            root = {"k": "aux", "op": None, "ch": [root], "est": root["est"], "act": root["act"], "workers": d.int(1, 6)}
        else:
            d.choice(all_nodes(root))["workers"] = d.int(1, 6)
    if d.flag(40):
        root = {"k": "aux", "op": None, "ch": [root], "est": root["est"], "act": root["act"], "workers": 0}
    return {"tabs": tabs, "backend": backend, "plan": root, "query": gen_query(d, len(tabs)), "geqo": d.int(2, 8)}


def all_nodes(n):
    return [n] + [x for c in n["ch"] for x in all_nodes(c)]


# ---------------------------------------------------------------- building

def tab(spec, i):
    return TableReference(*spec["tabs"][i])


def ident(spec, i):
    return spec["tabs"][i][1] or spec["tabs"][i][0]


def sql_of(spec):
    q, n = spec["query"], len(spec["tabs"])
    ids = [ident(spec, i) for i in range(n)]
    parts = [f"{t} AS {a}" if a else t for t, a in spec["tabs"]]
    where = [f"{ids[i]}.id = {ids[i - 1]}.x" for i in range(1, n)] if q["where"] else []
    extra = 0
    if q["sub"]:
        where.append(f"{ids[0]}.id IN (SELECT q.id FROM t1 AS q WHERE q.x > 2)")
        extra += 1
    sel = f"distinct {ids[0]}.id" if q["select"].startswith("distinct") else q["select"]
    sql = f"SELECT {sel} FROM {', '.join(parts)}" + (" WHERE " + " AND ".join(where) if where else "")
    if q["cte"]:
        sql = "WITH c AS (SELECT k.id FROM t3 AS k) " + sql
        extra += 1
    if q["order"]:
        sql += f" ORDER BY {ids[0]}.id"
    if q["fetch"] and q["limit"] is not None:
        sql += (f" OFFSET {q['offset']} ROWS" if q["offset"] is not None else "") + f" FETCH FIRST {q['limit']} ROWS ONLY"
    else:
        sql += (f" LIMIT {q['limit']}" if q["limit"] is not None else "") + (f" OFFSET {q['offset']}" if q["offset"] is not None else "")
    sql = (q["explain"] + " " if q["explain"] else "") + sql
    return sql, extra


def build_jo(spec, t, logical):
    cls = LogicalJoinTree if logical else JoinTree
    if t[0] == "s":
        return cls.scan(tab(spec, t[1]))
    return cls.join(build_jo(spec, t[1], logical), build_jo(spec, t[2], logical))


def build_parts(spec):
    jo = build_jo(spec, spec["jo"], spec["logical"]) if spec["jo"] else None
    ops = params = None
    if spec["ops"] is not None:
        ops = PhysicalOperatorAssignment()
        for i, o, w in spec["ops"]["scans"]:
            ops.add(ScanOperatorAssignment(op_of(o), tab(spec, i), *([w] if w else [])))
        for s, o, w, k in spec["ops"]["joins"]:
            ts = [tab(spec, i) for i in s]
            kw = {"parallel_workers": w} if w else {}
            ops.add(DirectionalJoinOperatorAssignment(op_of(o), ts[:k], ts[k:], **kw) if k else JoinOperatorAssignment(op_of(o), ts, **kw))
        for s, o in spec["ops"]["inter"]:
            ops.add(op_of(o), [tab(spec, i) for i in s])
        for o, on in spec["ops"]["global"]:
            ops.set_operator_enabled_globally(op_of(o), on)
    if spec["params"] is not None:
        params = PlanParameterization()
        for s, c in spec["params"]["cards"]:
            params.add_cardinality([tab(spec, i) for i in s], Cardinality(pln.num(c)))
        for s, w in spec["params"]["workers"]:
            params.set_workers([tab(spec, i) for i in s], w)
        for k, v in spec["params"]["settings"]:
            params.set_system_settings(k, v)
        params.execution_mode = spec["params"]["mode"]
    return jo, ops, params


def build_plan(spec, n):
    ch = [build_plan(spec, c) for c in n["ch"]]
    kw = dict(children=ch, estimated_cardinality=Cardinality(pln.num(n["est"])), actual_cardinality=Cardinality(pln.num(n["act"])), parallel_workers=n["workers"])
    if n["k"] == "scan":
        return QueryPlan(op_of(n["op"]), base_table=tab(spec, n["i"]), **kw)
    if n["k"] == "aux":
        return QueryPlan("Gather" if n["workers"] else "Result", **kw)
    return QueryPlan(op_of(n["op"]), **kw)


def service(spec):
    svc = object.__new__(PostgresHintService)
    svc._postgres_db = StubPostgres([], None, config={"geqo_threshold": str(spec["geqo"])})
    svc.backend = spec["backend"]
    return svc


# ---------------------------------------------------------------- reading hint blocks

def read_block(text, backend):
    """-> [(name, args)], args: nested lists of tokens"""
    start = {"pg_hint_plan": "/*+", "pg_lab": "/*=pg_lab="}[backend]
    require(text.startswith(start) and text.endswith("*/"), "not a %s hint block: %s", backend, text)
    toks = re.findall(r"[()]|'[^']*'|[^\s()']+", text[len(start):-2])
    pos = 0
    hints = []

    def group():
        nonlocal pos
        out = []
        while True:
            require(pos < len(toks), "unbalanced parentheses in the hint block %s", text)
            t = toks[pos]
            pos += 1
            if t == ")":
                return out
            out.append(group() if t == "(" else t)
    while pos < len(toks):
        name = toks[pos]
        pos += 1
        require(pos < len(toks) and toks[pos] == "(" and re.fullmatch(r"\w+", name), "cannot read the hint block at %s: %s", name, text)
        pos += 1
        hints.append((name, group()))
    return hints


def tree_of(args, what):
    """Leading/JoinOrder arguments -> nested pairs"""
    if isinstance(args, str):
        return args
    if len(args) == 1:
        return tree_of(args[0], what)
    require(len(args) == 2, "not a binary join order: %s", what)
    return [tree_of(args[0], what), tree_of(args[1], what)]


def as_bool(v):
    v = str(v).strip("'").lower()
    return True if v in ("on", "true", "1", "yes") else False if v in ("off", "false", "0", "no") else v


class Block:
    """the content of a hint block"""

    def __init__(self, hints, backend, text):
        self.order, self.ops, self.cards, self.workers, self.settings, self.config = None, [], {}, [], {}, []
        ops = {x for names in NAMES[backend].values() for x in names}
        for name, args in hints:
            if name in ("Leading", "JoinOrder"):
                require(self.order is None and name == {"pg_hint_plan": "Leading", "pg_lab": "JoinOrder"}[backend], "more than one join order: %s", text)
                self.order = tree_of(args, text)
            elif name in ops:
                meta = [a for a in args if isinstance(a, list)]
                tabs = [a for a in args if isinstance(a, str)]
                require(len(set(tabs)) == len(tabs) and tabs, "duplicate tables in %s(%s)", name, args)
                self.ops.append((name, frozenset(tabs)))
                if meta:
                    require(backend == "pg_lab" and len(meta) == 1 and len(meta[0]) == 1 and meta[0][0].startswith("workers="), "bad metadata %s", meta)
                    self.workers.append((frozenset(tabs), int(meta[0][0][8:])))
            elif name in ("Rows", "Card"):
                require(name == {"pg_hint_plan": "Rows", "pg_lab": "Card"}[backend] and args[-1].startswith("#"), "bad cardinality hint %s(%s)", name, args)
                key = frozenset(args[:-1])
                require(self.cards.get(key, float(args[-1][1:])) == float(args[-1][1:]), "two cardinalities for %s: %s", sorted(key), text)
                require(len(key) == len(args) - 1, "duplicate tables in %s(%s)", name, args)
                self.cards[key] = float(args[-1][1:])
            elif name == "Parallel":
                require(backend == "pg_hint_plan" and args[-1] == "hard", "bad parallel hint %s", args)
                self.workers.append((frozenset(args[:-2]), int(args[-2])))
            elif name == "Set":
                args = [a for a in args if a != "="]
                require(len(args) == 2, "bad setting %s in %s", args, text)
                self.settings[args[0]] = as_bool(args[1])
            elif name in ("Config", "Result") and backend == "pg_lab":
                self.config.append((name, "".join(args)))
            else:
                fail("unknown hint %s(%s)", name, args)


def check_common(spec, hinted, original, sql):
    """the hinted query is the original query plus one hint block in front -> preparatory statements, Block"""
    backend = spec["backend"]
    require(type(hinted) is type(original), "hints turn a %s into a %s", type(original).__name__, type(hinted).__name__)
    require(hinted.hints is not None, "no hints in %s", hinted)
    text = str(hinted)
    prep, hint = hinted.hints.preparatory_statements, hinted.hints.query_hints
    require(text.startswith((prep + "\n" if prep else "") + hint), "the hints are not at the start of the query: %s", text)
    rest = text[len(prep):].lstrip()[len(hint):]
    target = pgnorm.normal_form(sql)
    formatted = service(spec).format_query(hinted)
    for what, t in (("hinted query", rest), ("formatted query", formatted[formatted.index(hint) + len(hint):])):
        require(hint in (text if what == "hinted query" else formatted), "the hint block is missing in the %s", what)
        require(strip_explain(pgnorm.normal_form(t)) == strip_explain(target), "the %s has a different meaning:\n%s\ninstead of\n%s", what, t, sql)
        require(not pgnorm.comments(t), "more than one comment in %s", t)
        require(("ANALYZE" in sql) == ("ANALYZE" in t.split("SELECT")[0]), "EXPLAIN mode differs: %s", t)
    settings = {}
    for m in re.finditer(r"SET LOCAL (\w+) TO '([^']*)';", prep):
        settings[m.group(1)] = as_bool(m.group(2))
    require(re.fullmatch(r"(SET LOCAL \w+ TO '[^']*';\s*)*", prep), "unexpected preparatory statements: %s", prep)
    b = Block(read_block(hint, backend), backend, hint)
    b.settings |= settings
    return b


def strip_explain(nf):
    out = nf
    while isinstance(out, list) and len(out) == 1:
        out = out[0]
    if isinstance(out, dict) and "ExplainStmt" in out:
        return out["ExplainStmt"]["query"]
    return out


def pairs(spec, t):
    return ident(spec, t[1]) if t[0] == "s" else [pairs(spec, t[1]), pairs(spec, t[2])]


def check_settings(spec, b, n_tables, user):
    want = dict(user)
    geqo = b.settings.pop("geqo", None)
    if spec["backend"] == "pg_hint_plan":
        # pg_hint_plan has no effect on GEQO, which is used for queries with at least geqo_threshold FROM items
        if n_tables >= spec["geqo"]:
            require(geqo is False, "GEQO is not disabled: %d tables, threshold %d", n_tables, spec["geqo"])
    require(b.settings == want, "settings are %s instead of %s", b.settings, want)


def check_parts(spec):
    pb.reset()
    sql, extra = sql_of(spec)
    q = pb.parse(sql)
    if spec["query"]["hint"]:
        from postbound import transform
        q = transform.add_clause(q, qal.Hint("", "/*+ SeqScan(zz) */"))
    before = str(q)
    jo, ops, params = build_parts(spec)
    hinted = service(spec).generate_hints(q, join_order=jo, physical_operators=ops, plan_parameters=params)
    require(str(q) == before, "the input query was modified")
    b = check_common(spec, hinted, q, sql)
    names, ids = NAMES[spec["backend"]], [ident(spec, i) for i in range(len(spec["tabs"]))]
    # join order
    if spec["jo"] and len(spec["tabs"]) > 1:
        require(b.order == pairs(spec, spec["jo"]), "join order %s instead of %s", b.order, pairs(spec, spec["jo"]))
    else:
        require(b.order is None or b.order == pairs(spec, spec["jo"]), "join order %s without any request", b.order)
    # operators
    o = spec["ops"] or {"scans": [], "joins": [], "inter": [], "global": []}
    want = [(names[x], frozenset([ids[i]])) for i, x, _ in o["scans"]] + [(names[x], frozenset(ids[i] for i in s)) for s, x, _, _ in o["joins"]]
    want += [(names[x], frozenset(ids[i] for i in s)) for s, x in o["inter"]]
    match_ops(b, want)
    # cardinalities
    p = spec["params"] or {"cards": [], "workers": [], "settings": [], "mode": None}
    want_cards = {frozenset(ids[i] for i in s): float(c) for s, c in p["cards"] if c not in ("nan", "inf")}
    require(b.cards == want_cards, "cardinalities %s instead of %s", b.cards, want_cards)
    user = {SETTINGS[x]: on for x, on in o["global"]}
    clash = {k for k, _ in p["settings"]} & set(user)
    if not clash:
        check_settings(spec, b, len(spec["tabs"]) + spec["query"]["sub"], user | {k: as_bool(v) for k, v in p["settings"]})
    # parallel workers: at most one parallel part can be requested
    reqs = [(frozenset([ids[i]]), w) for i, _, w in o["scans"] if w and w > 1] + [(frozenset(ids[i] for i in s), w) for s, _, w, _ in o["joins"] if w and w > 1]
    own = [(frozenset(ids[i] for i in s), w) for s, w in p["workers"] if w > 1]
    if spec["backend"] == "pg_lab":
        known = {s for _, s in want}
        base = {s for names_, s in want[:len(o["scans"]) + len(o["joins"])]}
        allowed = [r for r in reqs if r[0] not in {s for s, _ in p_all(p, ids)}] + [r for r in own if r[0] in base]
        require(all(w in allowed or w in reqs for w in b.workers), "parallel workers %s, requested were %s and %s", b.workers, reqs, own)
        require(len(b.workers) == (1 if allowed else 0) or (not allowed and b.workers == reqs[:1]) or known != base and len(b.workers) <= 1,
                "parallel workers %s, requested were %s", b.workers, allowed)
        modes = [c for n_, c in b.config if c.startswith("exec_mode")]
        require(modes == ([f"exec_mode={p['mode']}"] if p["mode"] else []), "execution mode hints %s instead of %s", modes, p["mode"])
        require(("Config", "plan_mode=anchored") in b.config, "no plan mode in %s", b.config)
    else:
        for s, w in b.workers:
            require((s, w) in reqs + own or any(s < rs and w == rw for rs, rw in reqs), "parallel workers %s for %s are not requested: %s", w, sorted(s), reqs + own)
        require(bool(b.workers) == bool(reqs + own), "parallel workers %s, requested were %s", b.workers, reqs + own)
        single = reqs + own
        if len(single) == 1:
            cover = frozenset().union(*[s for s, _ in b.workers])
            require(cover == single[0][0], "parallel workers are set for %s instead of %s", sorted(cover), sorted(single[0][0]))


def p_all(p, ids):
    return [(frozenset(ids[i] for i in s), w) for s, w in p["workers"]]


def match_ops(b, want):
    rest = list(b.ops)
    for names, s in want:
        hit = next((x for x in rest if x[1] == s and x[0] in names), None)
        require(hit is not None, "no hint %s(%s) in %s", sorted(names), sorted(s), b.ops)
        rest.remove(hit)
    require(not rest, "additional operator hints %s", rest)


def leaf_set(spec, n):
    return frozenset(ident(spec, x["i"]) for x in all_nodes(n) if x["k"] == "scan")


def plan_order(spec, n):
    if n["k"] == "scan":
        return ident(spec, n["i"])
    if n["k"] == "join":
        return [plan_order(spec, c) for c in n["ch"]]
    return plan_order(spec, n["ch"][0])


def check_plan(spec):
    pb.reset()
    sql, extra = sql_of(spec)
    q = pb.parse(sql)
    plan = build_plan(spec, spec["plan"])
    svc = service(spec)
    hinted = svc.generate_hints(q, plan)
    b = check_common(spec, hinted, q, sql)
    names = NAMES[spec["backend"]]
    want = plan_order(spec, spec["plan"])
    require(b.order == want or isinstance(want, str) and b.order is None, "join order %s instead of %s", b.order, want)
    nodes = all_nodes(spec["plan"])
    match_ops(b, [(names[n["op"]], leaf_set(spec, n)) for n in nodes if n["op"]])
    cards = {}
    for n in nodes:
        if n["k"] in ("scan", "join"):
            c = n["act"] if n["act"] not in ("nan", "inf") else n["est"]
            if c not in ("nan", "inf"):
                cards[leaf_set(spec, n)] = float(c)
    require(b.cards == cards, "cardinalities %s instead of %s", b.cards, cards)
    check_settings(spec, b, len(spec["tabs"]) + spec["query"]["sub"], {})
    par = [n for n in nodes if n["workers"]]
    workers = b.workers + [(leaf_set(spec, spec["plan"]), int(c.split("=")[1])) for k, c in b.config if k == "Result"]
    if spec["backend"] == "pg_lab":
        require(("Config", "plan_mode=full") in b.config, "no plan mode in %s", b.config)
        require(len(workers) == len(par), "workers %s, requested were %s", workers, par)
        for (s, w), n in zip(workers, par):
            require(w == n["workers"] and s <= leaf_set(spec, n), "workers %s for %s, requested were %s for %s", w, sorted(s), n["workers"], sorted(leaf_set(spec, n)))
    else:
        want_w = [(leaf_set(spec, n), n["workers"]) for n in par if n["workers"] != 1]
        require(workers == want_w, "workers %s instead of %s", workers, want_w)
    for kw in ({"join_order": JoinTree.scan(tab(spec, 0))}, {"plan_parameters": PlanParameterization()}, {"physical_operators": PhysicalOperatorAssignment()}):
        try:
            svc.generate_hints(q, plan, **kw)
        except ValueError:
            continue
        fail("a plan and %s are hinted together", list(kw))


# ---------------------------------------------------------------- operators of a connection

@composite
def configure_strategy(d):
    ops = sorted(SETTINGS)
    return {"steps": [[d.choice(ops), d.flag(50)] for _ in range(d.int(1, 8))]}


class Recorder:
    def __init__(self):
        self.statements = []

    def cursor(self):
        return self

    def execute(self, sql, *args):
        self.statements.append(sql)


def check_configure(spec):
    """configure_operator issues one SET statement for the GUC of the operator"""
    pb.reset()
    con = Recorder()
    opt = object.__new__(PostgresOptimizer)
    opt._pg_instance = con
    for op, on in spec["steps"]:
        opt.configure_operator(op_of(op), enabled=on)
    require(len(con.statements) == len(spec["steps"]), "statements %s for %s", con.statements, spec["steps"])
    for sql, (op, on) in zip(con.statements, spec["steps"]):
        m = re.fullmatch(r"SET (?:SESSION )?(\w+) (?:TO|=) '?(\w+)'?;?", sql, flags=re.I)
        require(m is not None and m.group(1).lower() == SETTINGS[op] and as_bool(m.group(2)) is on, "%s for %s enabled=%s", sql, op, on)
    plain = [o for o in (*SCANS, *JOINS) if o not in SETTINGS]
    for op in plain:
        try:
            opt.configure_operator(op_of(op), enabled=True)
        except ValueError:
            continue
        fail("%s can be configured, but it has no setting", op)


FACETS = [
    Facet("configure", configure_strategy, check_configure, quick=300, thorough=3000, shards=1,
          rule="sequences of operators to enable and disable; non-trivial: at least 2 steps", nontrivial=lambda s: len(s["steps"]) > 1),
    Facet("parts", parts_strategy, check_parts, quick=3000, thorough=80000, shards=4,
          rule="queries over 1-6 tables with random join orders, operators, workers, cardinalities, settings for both backends; non-trivial: at least 2 tables and "
               "2 kinds of hints",
          nontrivial=lambda s: len(s["tabs"]) > 1 and sum(map(bool, (s["jo"], s["ops"], s["params"]))) > 1, classify=lambda s: [s["backend"]]),
    Facet("plans", plan_strategy, check_plan, quick=2000, thorough=60000, shards=4,
          rule="complete plans with intermediate and auxiliary nodes, cardinalities and workers; non-trivial: at least one join",
          nontrivial=lambda s: len(s["tabs"]) > 1, classify=lambda s: [s["backend"], *(["parallel"] if any(n["workers"] for n in all_nodes(s["plan"])) else [])]),
]
