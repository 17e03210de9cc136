"""C26: relational algebra trees compute the same result as their query, and tree operations keep trees intact."""
from __future__ import annotations

from pbt import duck, pb, sqlgen
from pbt.draw import composite
from pbt.engine import Facet, fail, require
from postbound import ColumnReference, TableReference, parse_query, relalg, transform
from postbound.qal import (BetweenPredicate, BinaryPredicate, CaseExpression, CastExpression, ColumnExpression, CompoundOperator, CompoundPredicate,
                           FunctionExpression, InPredicate, MathExpression, StarExpression, StaticValueExpression, SubqueryExpression, UnaryPredicate,
                           LogicalOperator, as_predicate)

ASSUMPTIONS = ["queries with subqueries inside of expressions, window functions, LIMIT and explicit JOIN syntax are not judged (no operator / documented as unsupported)",
               "Union is the bag union (it represents UNION ALL), Intersection and Difference work on sets",
               "the result is computed by translating every operator on its own into a SQL derived table on quacklab"]
NUM = {t: [c for c, ty in cols if ty == "int"] for t, cols in sqlgen.SCHEMA.items()}
TXT = {t: [c for c, ty in cols if ty == "text"] for t, cols in sqlgen.SCHEMA.items()}
COLS = {t: [c for c, _ in cols] for t, cols in sqlgen.SCHEMA.items()}


# ---------------------------------------------------------------- queries (SQL text is generated directly)

def gen_tables(d, lo=1, hi=4):
    n = d.weighted([(2, 1), (4, 2), (3, 3), (1, 4)])
    n = min(max(n, lo), hi)
    out = []
    for i in range(n):
        t = d.choice(["r", "s", "w", "m"])
        alias = t if t not in [a for _, a in out] and d.flag(60) else f"x{i}"
        out.append([t, alias])
    return out


def num(d, tab, depth=1):
    t, a = tab
    col = f"{a}.{d.choice(NUM[t])}"
    if not depth or d.flag(60):
        return col
    k = d.choice(["+", "-", "*", "abs", "coalesce", "case", "cast", "neg", "two"])
    if k in "+-*":
        return f"({col} {k} {d.int(1, 3)})" if d.flag(70) else f"({num(d, tab, depth - 1)} {k} {num(d, tab, depth - 1)})"
    return {"abs": f"abs({num(d, tab, depth - 1)})", "coalesce": f"coalesce({col}, {d.int(0, 4)})", "neg": f"(-{col})",
            "case": f"CASE WHEN {col} > {d.int(0, 4)} THEN {d.int(0, 3)} ELSE {num(d, tab, depth - 1)} END",
            "cast": f"CAST({num(d, tab, depth - 1)} AS bigint)", "two": f"({col} + {a}.{d.choice(NUM[t])})"}[k]


def filt(d, tab, depth=1):
    t, a = tab
    k = d.choice(["cmp", "cmp", "cmp", "between", "in", "null", "like", "or", "or", "not", "and", "flag"])
    if k in ("or", "and") and depth:
        return "(" + f" {k.upper()} ".join(filt(d, tab, depth - 1) for _ in range(d.int(2, 3))) + ")"
    if k == "not" and depth:
        return f"NOT ({filt(d, tab, depth - 1)})"
    if k == "between":
        return f"{num(d, tab)} BETWEEN {d.int(0, 3)} AND {num(d, tab, 0) if d.flag(20) else d.int(2, 6)}"
    if k == "in":
        return f"{num(d, tab)} {'NOT ' if d.flag(25) else ''}IN ({', '.join(str(x) for x in d.some(list(range(7)), 1, 3))})"
    if k == "null":
        return f"{a}.{d.choice(COLS[t])} IS {'NOT ' if d.flag(50) else ''}NULL"
    if k == "like" and TXT[t]:
        return f"{a}.{TXT[t][0]} {d.choice(['LIKE', 'NOT LIKE', '=', '<>'])} {sqlgen.lit(d.choice(['', 'a%', '%b', 'x']))}"
    return f"{num(d, tab)} {d.choice(['=', '<', '>', '<=', '>=', '<>'])} {d.int(0, 5) if d.flag(80) else num(d, tab, 0)}"


def join(d, a, b, depth=1):
    k = d.weighted([(6, "eq"), (2, "theta"), (2, "expr"), (1, "or"), (1, "andor"), (2, "post"), (1, "between"), (1, "not")])
    x, y = num(d, a, 0), num(d, b, 0)
    if k == "eq":
        return f"{x} = {y}"
    if k == "theta":
        return f"{x} {d.choice(['<', '>=', '<>'])} {y}"
    if k == "expr":
        return f"{num(d, a)} {d.choice(['=', '=', '<'])} {num(d, b)}"
    if k == "or":
        return f"({x} = {y} OR {num(d, a, 0)} = {num(d, b, 0)})"
    if k == "andor":
        return f"({filt(d, a, 0)} OR {x} = {y})"
    if k == "post":
        return f"{x} + {y} {d.choice(['<', '>', '='])} {d.int(2, 9)}"
    if k == "between":
        return f"{x} BETWEEN {y} AND {d.int(2, 6)}"
    return f"NOT ({x} = {y})"


def gen_core(d, tabs, width=None, plain=False):
    """the text pieces of one SELECT"""
    preds = []
    for i in range(1, len(tabs)):
        if d.flag(90):
            preds.append(join(d, tabs[d.int(0, i - 1)], tabs[i]))
    if len(tabs) > 1 and d.flag(25):
        i, j = d.some(list(range(len(tabs))), 2, 2)
        preds.append(join(d, tabs[i], tabs[j]))
    preds += [filt(d, t) for t in tabs if d.flag(45)]
    preds += [filt(d, t) for t in tabs if d.flag(15)]
    preds = d.permutation(preds)
    anynum = lambda depth=1: num(d, d.choice(tabs), depth)  # noqa: E731
    kind = "cols" if plain else d.weighted([(4, "cols"), (2, "star"), (3, "agg"), (4, "group")])
    sel, group, having, order = [], [], None, []
    n = width or d.int(1, 3)
    distinct = False
    if kind == "cols":
        sel = [anynum() if d.flag(90) or width else str(d.int(0, 9)) for _ in range(n)]
        if len(tabs) > 1 and d.flag(15):
            sel[0] = f"{anynum(0)} + {anynum(0)}"
        distinct = d.flag(20)
    elif kind == "star":
        sel = ["*"]
        distinct = d.flag(10)
    else:
        def agg():
            f = d.choice(["count(*)", "count", "sum", "min", "max", "count(DISTINCT"])
            return f if f == "count(*)" else f"{f} {anynum()})" if f.endswith("DISTINCT") else f"{f}({anynum()})"
        sel = [agg() if d.flag(75) else f"({agg()} + {d.int(1, 3)})" for _ in range(n)]
        if kind == "group":
            group = [anynum(1 if d.flag(30) else 0) for _ in range(d.int(1, 2))]
            distinct = d.flag(25)
            kept = group if not distinct or width else d.some(group, 0, len(group))
            sel = d.permutation(kept + (sel if d.flag(80) or not kept else []))
        if d.flag(30):
            having = f"{agg()} {d.choice(['>', '<', '>=', '<>'])} {d.int(0, 5)}"
            if d.flag(20):
                having += f" AND {agg()} >= {d.int(0, 3)}"
    if not width and d.flag(30):
        cand = [g for g in group if not distinct or g in sel] if kind == "group" else sel if kind == "agg" or distinct else [anynum() for _ in range(2)]
        cand = [c for c in cand if c != "*" and not c.isdigit()]
        order = [f"{c}{d.choice(['', ' DESC', ' ASC'])}" for c in d.some(cand, 1, 2)] if cand else []
    return {"tabs": tabs, "preds": preds, "sel": sel, "distinct": distinct, "group": group, "having": having, "order": order}


def text(c, names=None):
    sel = [f"{e} AS {n}" for e, n in zip(c["sel"], names)] if names else c["sel"]
    s = f"SELECT {'DISTINCT ' if c['distinct'] else ''}{', '.join(sel)} FROM " + ", ".join(t if t == a else f"{t} AS {a}" for t, a in c["tabs"])
    s += (" WHERE " + " AND ".join(c["preds"])) if c["preds"] else ""
    s += (" GROUP BY " + ", ".join(c["group"])) if c["group"] else ""
    s += (" HAVING " + c["having"]) if c["having"] else ""
    s += (" ORDER BY " + ", ".join(c["order"])) if c["order"] else ""
    return s


@composite
def select_spec(d):
    return {"core": gen_core(d, gen_tables(d)), "variant": d.int(0, sqlgen.DATA_VARIANTS - 1)}


# ---------------------------------------------------------------- reference evaluation of a tree

class Unsupported(Exception):
    pass


class Ev:
    """translates each operator into SELECT ... FROM (input); an env maps PostBOUND expressions to output columns"""

    def __init__(self, query=None):
        self.n = 0
        self.complex_ok = False

    def fresh(self, p="c"):
        self.n += 1
        return f"{p}{self.n}"

    def sub(self, sql):
        return f"({sql}) AS {self.fresh('q')}"

    # -- expressions
    def ex(self, e, env):
        if e in env:
            return env[e]
        if isinstance(e, ColumnExpression):
            fail("the operator uses %s but its input only provides %s" % (e, sorted(map(str, env))))
        if isinstance(e, StaticValueExpression):
            v = e.value
            return "NULL" if v is None else str(v) if not isinstance(v, str) else sqlgen.lit(v)
        if isinstance(e, MathExpression):
            ops = {"+": "+", "-": "-", "*": "*", "/": "/", "%": "%", "||": "||"}
            o = ops[e.operator.value]
            if e.second_arg is None:
                return f"({o}{self.ex(e.first_arg, env)})"
            rest = list(e.second_arg) if isinstance(e.second_arg, (list, tuple)) else [e.second_arg]
            return "(" + f" {o} ".join([self.ex(e.first_arg, env)] + [self.ex(x, env) for x in rest]) + ")"
        if isinstance(e, CastExpression):
            return f"CAST({self.ex(e.casted_expression, env)} AS {e.target_type})"
        if isinstance(e, CaseExpression):
            s = "CASE " + "".join(f"WHEN {self.ex(c, env)} THEN {self.ex(v, env)} " for c, v in e.cases)
            return s + (f"ELSE {self.ex(e.else_expression, env)} END" if e.else_expression is not None else "END")
        if isinstance(e, FunctionExpression):
            if e.is_aggregate():
                fail("the operator uses the aggregate %s but its input only provides %s" % (e, sorted(map(str, env))))
            return f"{e.function}({', '.join(self.ex(a, env) for a in e.arguments)})"
        return self.pred(e, env)

    def pred(self, p, env):
        if isinstance(p, CompoundPredicate):
            if p.operation == CompoundOperator.Not:
                return f"(NOT {self.pred(p.children, env)})"
            return "(" + (" AND " if p.operation == CompoundOperator.And else " OR ").join(self.pred(c, env) for c in p.children) + ")"
        if isinstance(p, BinaryPredicate):
            return f"({self.ex(p.first_argument, env)} {p.operation.value} {self.ex(p.second_argument, env)})"
        if isinstance(p, BetweenPredicate):
            return f"({self.ex(p.column, env)} BETWEEN {self.ex(p.interval_start, env)} AND {self.ex(p.interval_end, env)})"
        if isinstance(p, InPredicate):
            return f"({self.ex(p.column, env)} IN ({', '.join(self.ex(v, env) for v in p.values)}))"
        if isinstance(p, UnaryPredicate):
            if p.operation == LogicalOperator.Is or p.operation.value.upper() in ("IS", "IS NOT"):
                raise Unsupported(str(p))
            return f"({self.ex(p.column, env)})"
        raise Unsupported(type(p).__name__)

    def need(self, e, env):
        """complex expressions are computed before the operator that uses them"""
        if isinstance(e, CompoundPredicate):
            for c in [e.children] if e.operation == CompoundOperator.Not else e.children:
                self.need(c, env)
        elif isinstance(e, (BinaryPredicate, BetweenPredicate, InPredicate, UnaryPredicate)):
            for x in e.iterexpressions():
                self.need(x, env)
        elif not isinstance(e, (StaticValueExpression, StarExpression)):
            require(e in env, "%s is not computed before it is used, the input only provides %s", e, sorted(map(str, env)))

    # -- operators: (sql, env, ordered output columns, order columns)
    def rel(self, node):
        k = type(node).__name__
        return getattr(self, "n_" + k)(node)

    def n_Relation(self, node):
        t = node.table
        if node.subquery_input is not None:
            sql, _, out = self.rel(node.subquery_input)
            names = self.names[t.identifier()]
            new = [self.fresh() for _ in names]
            require(len(out) == len(names), "the subtree for %s returns %d columns instead of %r", t, len(out), names)
            env = {ColumnExpression(ColumnReference(c, t)): n for c, n in zip(names, new)}
            return f"SELECT {', '.join(f'{o} AS {n}' for o, n in zip(out, new))} FROM {self.sub(sql)}", env, new
        cols = COLS[t.full_name]
        new = {c: self.fresh() for c in cols}
        require(all(isinstance(x, ColumnExpression) and x.column.name in new for x in node.provided_expressions()),
                "relation %s provides %s", t, sorted(map(str, node.provided_expressions())))
        env = {x: new[x.column.name] for x in node.provided_expressions()}
        return f"SELECT {', '.join(f'{c} AS {n}' for c, n in new.items())} FROM {t.full_name}", env, list(new.values())

    def n_Selection(self, node):
        sql, env, out = self.rel(node.input_node)
        self.need(node.predicate, env)
        return f"SELECT * FROM {self.sub(sql)} WHERE {self.pred(node.predicate, env)}", env, out

    def both(self, node):
        ls, le, lo = self.rel(node.left_input)
        rs, re, ro = self.rel(node.right_input)
        return ls, rs, {**le, **re}, lo + ro

    def n_CrossProduct(self, node):
        ls, rs, env, out = self.both(node)
        return f"SELECT * FROM {self.sub(ls)}, {self.sub(rs)}", env, out

    def n_ThetaJoin(self, node):
        ls, rs, env, out = self.both(node)
        self.need(node.predicate, env)
        return f"SELECT * FROM {self.sub(ls)}, {self.sub(rs)} WHERE {self.pred(node.predicate, env)}", env, out

    def n_Map(self, node):
        sql, env, out = self.rel(node.input_node)
        env, new = dict(env), []
        todo = [(set(args), e) for args, targets in node.mapping.items() for e in targets]
        given = dict(env)
        for args, e in todo:
            require(args == {c for c in e.iterchildren() if not isinstance(c, (StaticValueExpression, StarExpression))},
                    "Map derives %s from %s", e, sorted(map(str, args)))
            if e in given:
                continue
            n = self.fresh()
            new.append(f"{self.ex(e, given)} AS {n}")
            env[e] = n
        return f"SELECT *{''.join(', ' + x for x in new)} FROM {self.sub(sql)}", env, out

    def n_Projection(self, node):
        sql, env, _ = self.rel(node.input_node)
        for e in node.columns:
            self.need(e, env)
        new = [self.fresh() for _ in node.columns]
        order = [n for n in self.sorted_by(node.input_node, env)]
        return f"SELECT {', '.join(f'{self.ex(e, env)} AS {n}' for e, n in zip(node.columns, new))} FROM {self.sub(sql)}{order[0] if order else ''}", dict(zip(node.columns, new)), new

    def sorted_by(self, node, env):
        """order of the input of a projection"""
        while isinstance(node, relalg.Map):
            node = node.input_node
        if isinstance(node, relalg.Sort):
            yield self.order(node, env)

    def order(self, node, env):
        require(all(s in ("asc", "desc") for _, s in node.sorting), "bad sort direction in %r", node.sorting)
        return " ORDER BY " + ", ".join(f"{self.ex(e, env)} {s}" for e, s in node.sorting)

    def n_Sort(self, node):
        sql, env, out = self.rel(node.input_node)
        return f"SELECT * FROM {self.sub(sql)}{self.order(node, env)}", env, out

    def n_Grouping(self, node):
        sql, env, _ = self.rel(node.input_node)
        new, items = {}, []
        for g in node.group_columns:
            if g not in new:
                new[g] = self.fresh()
                items.append(f"{self.ex(g, env)} AS {new[g]}")
        for args, funcs in node.aggregates.items():
            for f in funcs:
                require(frozenset(f.arguments) == frozenset(args), "Grouping computes %s from %s", f, sorted(map(str, args)))
                for x in f.arguments:
                    self.need(x, env)
                a = ", ".join("*" if isinstance(x, StarExpression) else self.ex(x, env) for x in f.arguments)
                new[f] = self.fresh()
                items.append(f"{f.function}({'DISTINCT ' if f.distinct else ''}{a}) AS {new[f]}")
        grp = " GROUP BY " + ", ".join(self.ex(g, env) for g in node.group_columns) if node.group_columns else ""
        return f"SELECT {', '.join(items)} FROM {self.sub(sql)}{grp}", new, list(new.values())

    def n_DuplicateElimination(self, node):
        sql, env, out = self.rel(node.input_node)
        return f"SELECT DISTINCT {', '.join(out)} FROM {self.sub(sql)}", env, out

    def setop(self, node, op):
        ls, le, lo = self.rel(node.left_input)
        rs, _, ro = self.rel(node.right_input)
        return f"SELECT {', '.join(lo)} FROM {self.sub(ls)} {op} SELECT {', '.join(ro)} FROM {self.sub(rs)}", le, lo

    def n_Union(self, node):
        return self.setop(node, "UNION ALL")

    def n_Intersection(self, node):
        return self.setop(node, "INTERSECT")

    def n_Difference(self, node):
        return self.setop(node, "EXCEPT")

    def n_SubqueryScan(self, node):
        return self.rel(node.input_node)


def evaluate(tree, variant, names=None):
    ev = Ev()
    ev.names = names or {}
    sql, env, out = ev.rel(tree)
    order = tuple(ev.sorted_by(tree, env))
    sql = f"SELECT {', '.join(out)} FROM {ev.sub(sql)}{order[0] if order else ''}"
    try:
        return sql, duck.run(sql, variant)
    except duck.ExecError as e:
        fail(f"the algebra tree cannot be evaluated: {e}\n{tree.inspect()}\n{sql}")


def check_select(spec):
    pb.reset()
    c = spec["core"]
    sql = text(c)
    try:
        expected = duck.run(sql, spec["variant"])
    except duck.ExecError:
        return
    q = parse_query(sql, bind_columns=False)
    try:
        tree = relalg.parse_relalg(q)
    except Exception as e:  # noqa: BLE001
        fail(f"no algebra tree for {sql}: {type(e).__name__}: {e}")
    structure(tree)
    want = {TableReference(t, "" if t == a else a) for t, a in c["tabs"]}
    require(tree.tables() == want, "%s: tables of the tree are %s", sql, sorted(map(str, tree.tables())))
    got_leafs = [n.table for n in tree.dfs_walk() if isinstance(n, relalg.Relation)]
    require(len(got_leafs) == len(want) and set(got_leafs) == want, "%s: relations of the tree are %s", sql, sorted(map(str, got_leafs)))
    try:
        _, got = evaluate(tree, spec["variant"])
    except Unsupported as e:
        fail(f"unknown predicate {e}")
    if c["sel"] == ["*"]:
        rels = [n.table.identifier() for n in tree.dfs_walk() if isinstance(n, relalg.Relation)]
        pos, at = {}, 0
        for r in rels:
            base = next(t for t, a in c["tabs"] if a == r)
            pos[r] = list(range(at, at + len(COLS[base])))
            at += len(COLS[base])
        idx = [i for _, a in c["tabs"] for i in pos[a]]
        require(not got or len(got[0]) == at, "%s: %d columns instead of %d", sql, len(got[0]) if got else 0, at)
        got = [tuple(row[i] for i in idx) for row in got]
    if not duck.same(expected, got, False):
        fail(f"{sql}\nreturns {duck.bag(expected) - duck.bag(got)} (missing) {duck.bag(got) - duck.bag(expected)} (extra) with\n{tree.inspect()}")
    sorts = [n for n in tree.dfs_walk() if isinstance(n, relalg.Sort)]
    require(len(sorts) == (1 if c["order"] else 0), "%s: %d sort operators", sql, len(sorts))
    if sorts:
        require([x for _, x in sorts[0].sorting] == ["desc" if o.endswith(" DESC") else "asc" for o in c["order"]], "%s: sorting is %r", sql, sorts[0].sorting)
        require([e for e, _ in sorts[0].sorting] == [o.column for o in q.orderby_clause.expressions], "%s: sorting is %r", sql, sorts[0].sorting)


def structure(tree):
    """linkage of an arbitrary algebra DAG"""
    seen = {}
    parents = {}
    stack = [tree]
    require(tree.parent_node is None and not tree.sideways_pass, "the root %s has a parent", tree)
    while stack:
        n = stack.pop()
        if id(n) in seen:
            continue
        seen[id(n)] = n
        for c in n.children():
            parents.setdefault(id(c), []).append(n)
            stack.append(c)
    for i, n in seen.items():
        require(n.root() is tree, "root() of %s is %s", n, n.root())
        if n is tree:
            continue
        consumers = {id(p) for p in parents[i]}
        require(n.parent_node is not None and id(n.parent_node) in consumers, "parent of %s is %s, which does not consume it", n, n.parent_node)
        links = {id(n.parent_node)} | {id(p) for p in n.sideways_pass}
        require(links == consumers, "%s is consumed by %s but links to %s", n, [str(p) for p in parents[i]], [str(n.parent_node)] + [str(p) for p in n.sideways_pass])
    return list(seen.values())


# ---------------------------------------------------------------- set queries and CTEs

@composite
def set_spec(d):
    width = d.int(1, 2)
    n = d.weighted([(4, 2), (2, 3)])
    parts = []
    for _ in range(n):
        c = gen_core(d, gen_tables(d, 1, 2), width, plain=True)
        parts.append(c)
    ops = [d.choice(["UNION", "UNION ALL", "INTERSECT", "EXCEPT"]) for _ in range(n - 1)]
    return {"parts": parts, "ops": ops, "left": d.flag(50), "variant": d.int(0, sqlgen.DATA_VARIANTS - 1)}


def set_text(spec):
    ts = [text(c) for c in spec["parts"]]
    if len(ts) == 2:
        return f"{ts[0]} {spec['ops'][0]} {ts[1]}"
    a, b = spec["ops"]
    return f"({ts[0]} {a} {ts[1]}) {b} {ts[2]}" if spec["left"] else f"{ts[0]} {a} ({ts[1]} {b} {ts[2]})"


def check_set(spec):
    pb.reset()
    sql = set_text(spec)
    try:
        expected = duck.run(sql, spec["variant"])
    except duck.ExecError:
        return
    q = parse_query(sql, bind_columns=False)
    try:
        tree = relalg.parse_relalg(q)
    except Exception as e:  # noqa: BLE001
        fail(f"no algebra tree for {sql}: {type(e).__name__}: {e}")
    structure(tree)
    _, got = evaluate(tree, spec["variant"])
    if not duck.same(expected, got, False):
        fail(f"{sql}\nreturns {duck.bag(expected) - duck.bag(got)} (missing) {duck.bag(got) - duck.bag(expected)} (extra) with\n{tree.inspect()}")


@composite
def virtual_spec(d):
    """derived tables in FROM and CTEs"""
    inner = []
    for i in range(d.weighted([(3, 1), (1, 2)])):
        c = gen_core(d, gen_tables(d, 1, 2), d.int(1, 2))
        inner.append({"kind": d.weighted([(4, "cte"), (4, "from"), (1, "unused")]), "core": c, "name": f"v{i}"})
    tabs = gen_tables(d, 1, 2) if d.flag(60) else []
    preds = []
    for i, x in enumerate(inner):
        x["src"] = None
        if i and inner[0]["kind"] == "cte" and d.flag(35):
            x["src"] = inner[0]["name"]  # reads the first CTE: joins it and returns one of its columns
            x["core"]["extra"] = [f"v0.o{d.int(0, len(inner[0]['core']['sel']) - 1)}", num(d, d.choice(x["core"]["tabs"]), 0)]
    again = inner[0]["kind"] == "cte" and d.flag(20)
    used = [x for x in inner if x["kind"] != "unused"]
    if again:
        used = used + [{**inner[0], "name": "va", "kind": "again"}]
    if not used and not tabs:
        tabs = gen_tables(d, 1, 2)
    vcols = {x["name"]: [f"{x['name']}.o{k}" for k in range(len(x["core"]["sel"]))] for x in used}
    names = [x["name"] for x in used]
    for x in used:
        if tabs and d.flag(80):
            preds.append(f"{d.choice(vcols[x['name']])} {d.choice(['=', '=', '<'])} {num(d, d.choice(tabs), 0)}")
        if d.flag(40):
            preds.append(f"{d.choice(vcols[x['name']])} {d.choice(['>', '<='])} {d.int(0, 5)}")
    for i in range(1, len(tabs)):
        preds.append(join(d, tabs[0], tabs[i]))
    if len(names) > 1 and d.flag(70):
        preds.append(f"{d.choice(vcols[names[0]])} = {d.choice(vcols[names[1]])}")
    pool = [c for cs in vcols.values() for c in cs] + [num(d, t, 0) for t in tabs]
    agg = d.flag(25)
    sel = d.some(pool, 1, 3)
    return {"inner": inner, "tabs": tabs, "preds": d.permutation(preds), "sel": [f"{d.choice(['sum', 'max', 'count'])}({x})" for x in sel] if agg else sel,
            "first": d.flag(50), "again": again, "set": d.choice([None, None, None, "UNION ALL", "UNION", "EXCEPT"]), "variant": d.int(0, sqlgen.DATA_VARIANTS - 1)}


def virtual_text(spec):
    ctes, froms = [], [t if t == a else f"{t} AS {a}" for t, a in spec["tabs"]]
    virt = []
    for x in spec["inner"]:
        core = dict(x["core"])
        if x["src"]:
            core["tabs"] = core["tabs"] + [["v0", "v0"]]
            core["preds"] = core["preds"] + [" = ".join(core["extra"])]
        inner = text(core, [f"o{k}" for k in range(len(core["sel"]))])
        if x["kind"] in ("cte", "unused"):
            ctes.append(f"{x['name']} AS ({inner})")
            virt += [x["name"]] if x["kind"] == "cte" else []
        else:
            virt.append(f"({inner}) AS {x['name']}")
    if spec["again"]:
        virt.append("v0 AS va")
    froms = virt + froms if spec["first"] else froms + virt
    main = f"SELECT {', '.join(spec['sel'])} FROM {', '.join(froms)}" + (" WHERE " + " AND ".join(spec["preds"]) if spec["preds"] else "")
    if spec["set"]:
        x = next((x for x in spec["inner"] if x["kind"] == "cte"), None)
        other = f"SELECT {', '.join([x['name'] + '.o0'] * len(spec['sel']))} FROM {x['name']}" if x else f"SELECT {', '.join(['m.k'] * len(spec['sel']))} FROM m"
        main = f"{main} {spec['set']} {other}"
    return (f"WITH {', '.join(ctes)} " if ctes else "") + main


def check_virtual(spec):
    pb.reset()
    if any(x["core"]["sel"] == ["*"] for x in spec["inner"]):
        return
    sql = virtual_text(spec)
    try:
        expected = duck.run(sql, spec["variant"])
    except duck.ExecError:
        return
    q = parse_query(sql, bind_columns=False)
    try:
        tree = relalg.parse_relalg(q)
    except Exception as e:  # noqa: BLE001
        fail(f"no algebra tree for {sql}: {type(e).__name__}: {e}")
    structure(tree)
    names = {x["name"]: [f"o{k}" for k in range(len(x["core"]["sel"]))] for x in spec["inner"]}
    names["va"] = names["v0"]
    _, got = evaluate(tree, spec["variant"], names)
    if not duck.same(expected, got, False):
        fail(f"{sql}\nreturns {duck.bag(expected) - duck.bag(got)} (missing) {duck.bag(got) - duck.bag(expected)} (extra) with\n{tree.inspect()}")


# ---------------------------------------------------------------- trees: linkage, equality, visitors, mutation

TABS = ["r", "s", "w", "m", "r", "s"]
BIN = {"cross": relalg.CrossProduct, "union": relalg.Union, "inter": relalg.Intersection, "diff": relalg.Difference}
VISIT = {"Selection": "visit_selection", "CrossProduct": "visit_cross_product", "Union": "visit_union", "Intersection": "visit_intersection",
         "Difference": "visit_difference", "Relation": "visit_base_relation", "ThetaJoin": "visit_theta_join", "Projection": "visit_projection",
         "Grouping": "visit_grouping", "Rename": "visit_rename", "Sort": "visit_sort", "Map": "visit_map", "DuplicateElimination": "visit_duplicate_elim",
         "SemiJoin": "visit_semijoin", "AntiJoin": "visit_antijoin", "SubqueryScan": "visit_subquery"}


def tref(i):
    return TableReference(TABS[i], f"t{i}")


def col(i, k):
    t = TABS[i]
    return ColumnReference(COLS[t][k % len(COLS[t])], tref(i))


def cexp(c):
    return ColumnExpression(col(*c))


def prd(p):
    return as_predicate(col(*p[0]), {"=": LogicalOperator.Equal, "<": LogicalOperator.Less, ">": LogicalOperator.Greater}[p[1]], p[2] if isinstance(p[2], int) else col(*p[2]))


_SUBQ = {}


def subq(i):
    if i not in _SUBQ:
        _SUBQ[i] = parse_query(f"SELECT r.a FROM r WHERE r.b = {i}", bind_columns=False)
    return _SUBQ[i]


def aggs(a):
    return {frozenset([cexp(c)]): frozenset([FunctionExpression(f, [cexp(c)]) for f in fs]) for c, fs in a}


def mapping(m):
    return {frozenset([cexp(c)]): frozenset([FunctionExpression("abs", [cexp(c)]), FunctionExpression(f, [cexp(c)])]) for c, f in m}


def sorting(so):
    return [(cexp(c), dr) if dr else cexp(c) for c, dr in so]


# the parameters of every operator: generated as data, turned into constructor arguments by ARGS
def g_col(d):
    return [d.int(0, 5), d.int(0, 4)]


def g_pred(d):
    return [g_col(d), d.choice("=<>"), d.int(0, 50) if d.flag(60) else g_col(d)]


def g_params(d, op):
    if op == "rel":
        t = d.int(0, 5)
        return {"table": t, "provided_columns": [[t, k] for k in d.subset(range(4), 50)]}
    if op in ("sel", "join"):
        return {"predicate": g_pred(d)}
    if op in ("semi", "anti"):
        return {"predicate": g_pred(d) if d.flag(60) else None}
    if op == "proj":
        return {"targets": [g_col(d) for _ in range(d.int(1, 3))]}
    if op == "group":
        return {"group_columns": [g_col(d) for _ in range(d.int(0, 2))], "aggregates": [[g_col(d), d.some(["sum", "min", "max"], 1, 2)]]}
    if op == "rename":
        return {"mapping": [[g_col(d), g_col(d)]]}
    if op == "sort":
        return {"sorting": [[g_col(d), d.choice(["asc", "desc", None])] for _ in range(d.int(1, 2))]}
    if op == "map":
        return {"mapping": [[g_col(d), d.choice(["lower", "upper", "floor"])]]}
    if op == "subq":
        return {"subquery": d.int(0, 5)}
    return {}


def arg(op, name, v):
    if v is None:
        return None
    if name == "table":
        return tref(v)
    if name == "provided_columns":
        return [col(*c) for c in v]
    if name == "predicate":
        return prd(v)
    if name in ("targets", "group_columns"):
        return [cexp(c) for c in v]
    if name == "aggregates":
        return aggs(v)
    if name == "mapping":
        return {col(*a): col(*b) for a, b in v} if op == "rename" else mapping(v)
    if name == "sorting":
        return sorting(v)
    if name == "subquery":
        return subq(v)
    raise AssertionError(name)


OPS = {"rel": (relalg.Relation, []), "sel": (relalg.Selection, ["input_node"]), "join": (relalg.ThetaJoin, ["left_input", "right_input"]),
       "cross": (relalg.CrossProduct, ["left_input", "right_input"]), "union": (relalg.Union, ["left_input", "right_input"]),
       "inter": (relalg.Intersection, ["left_input", "right_input"]), "diff": (relalg.Difference, ["left_input", "right_input"]),
       "proj": (relalg.Projection, ["input_node"]), "group": (relalg.Grouping, ["input_node"]), "rename": (relalg.Rename, ["input_node"]),
       "sort": (relalg.Sort, ["input_node"]), "map": (relalg.Map, ["input_node"]), "dup": (relalg.DuplicateElimination, ["input_node"]),
       "semi": (relalg.SemiJoin, ["input_node", "subquery_node"]), "anti": (relalg.AntiJoin, ["input_node", "subquery_node"]),
       "subq": (relalg.SubqueryScan, ["input_node"]), "view": (relalg.Relation, ["subquery_input"])}


def canon(op, name, v):
    """parameters up to notation: what must be stored"""
    if name == "provided_columns":
        return frozenset(cexp(c) for c in v)
    if name == "sorting":
        return tuple((cexp(c), dr or "asc") for c, dr in v)
    v = arg(op, name, v)
    if isinstance(v, list):
        return tuple(v)
    if isinstance(v, dict):
        return tuple(sorted(((str(sorted(map(str, k))) if isinstance(k, frozenset) else str(k), str(sorted(map(str, x))) if isinstance(x, frozenset) else str(x)) for k, x in v.items())))
    return v


def stored(node, name):
    if name == "provided_columns":
        return frozenset(node.provided_expressions()) if not node.children() else None
    v = getattr(node, {"targets": "columns"}.get(name, name))
    if name in ("aggregates", "mapping"):
        return tuple(sorted(((str(sorted(map(str, k))) if isinstance(k, frozenset) else str(k), str(sorted(map(str, x))) if isinstance(x, frozenset) else str(x)) for k, x in v.items())))
    return tuple(v) if isinstance(v, (list, tuple)) else v


def gen_dag(d):
    """[[op, params, children]...], the last one is the root, everything is reachable from it, no two nodes are equal"""
    nodes, keys = [], {}
    free = []
    scope = [0, 0]  # SemiJoin and AntiJoin copy their subquery: nothing is shared across that border

    def add(op, params, children):
        key = repr((scope[0], op, params, children))
        if key not in keys:
            keys[key] = len(nodes)
            nodes.append([op, params, children])
        return keys[key]

    def make(depth):
        if free and d.flag(15):
            return d.choice(free)
        ops = ["rel"] if not depth else ["rel", "sel", "sel", "join", "join", "cross", "union", "inter", "diff", "proj", "group", "rename", "sort", "map", "dup", "semi", "anti", "view"]
        op = d.choice(ops)
        if op == "rel":
            i = add(op, g_params(d, op), [])
        elif op == "view":
            s = add("subq", g_params(d, "subq"), [make(depth - 1)])
            i = add("view", g_params(d, "rel"), [s])
        elif op in ("semi", "anti"):
            a = make(depth - 1)
            outer, saved = scope[0], list(free)
            scope[1] += 1
            scope[0] = scope[1]
            free.clear()
            s = add("subq", g_params(d, "subq"), [make(depth - 1)])
            scope[0] = outer
            free[:] = saved
            i = add(op, g_params(d, op), [a, s])
        else:
            i = add(op, g_params(d, op), [make(depth - 1) for _ in OPS[op][1]])
        free.append(i)
        return i
    root = make(d.int(1, 4))
    need, stack = set(), [root]
    while stack:
        i = stack.pop()
        if i not in need:
            need.add(i)
            stack += nodes[i][2]
    order = sorted(need)
    pos = {i: k for k, i in enumerate(order)}
    return [[nodes[i][0], nodes[i][1], [pos[c] for c in nodes[i][2]]] for i in order]


@composite
def tree_spec(d):
    dag = gen_dag(d)
    at = d.int(0, len(dag) - 1)
    op, params, children = dag[at]
    names = list(params)
    change = g_params(d, op if op != "view" else "rel")
    keep = {n: change[n] for n in d.subset(names, 60)}
    repl = {}
    if children and d.flag(50):
        k = d.int(0, len(children) - 1)
        kind = d.choice(["wrap", "foreign", "down"]) if dag[children[k]][0] != "subq" else "foreign"
        repl[str(k)] = [kind, g_params(d, "sel"), gen_dag(d)]
    return {"dag": dag, "at": at, "change": keep, "repl": repl, "as_root": d.flag(30)}


def build(dag):
    out = []
    for op, params, children in dag:
        cls, slots = OPS[op]
        kw = {n: arg(op, n, v) for n, v in params.items()}
        kw.update({s: out[c] for s, c in zip(slots, children)})
        out.append(cls(**kw))
    return out


def shape(dag, i, over=None):
    """unfolded reference tree"""
    op, params, children = dag[i]
    kids = [shape(dag, c, over) for c in children]
    if over and i in over:
        ch, repl = over[i]
        params = {**params, **{n: v for n, v in ch.items() if v is not None}}
        kids = [repl.get(k, s) for k, s in enumerate(kids)]
    return [op, params, kids]


def same_tree(node, ref, what):
    op, params, kids = ref
    cls = OPS[op][0]
    require(type(node) is cls, "%s: %s instead of a %s", what, node, cls.__name__)
    for n, v in params.items():
        if n == "provided_columns" and kids:
            continue
        require(stored(node, n) == canon(op, n, v), "%s: %s of %s is %s instead of %s", what, n, node, stored(node, n), canon(op, n, v))
    children = list(node.children())
    require(len(children) == len(kids), "%s: %s has %d children", what, node, len(children))
    for slot, c, k in zip(OPS[op][1], children, kids):
        require(getattr(node, slot) is c, "%s: %s of %s is not its child", what, slot, node)
        same_tree(c, k, what)


def ref_tables(ref, ignore):
    op, params, kids = ref
    own = {tref(params["table"])} if op in ("rel", "view") else set()
    if ignore and op == "subq":
        return set()
    if ignore and op == "view":
        return own
    return own.union(*(ref_tables(k, ignore) for k in kids))


def preorder(ref):
    return [ref[0]] + [x for k in ref[2] for x in preorder(k)]


class Visit(relalg.RelNodeVisitor):
    pass


for _t, _m in VISIT.items():
    setattr(Visit, _m, (lambda m: lambda self, node: (m, node))(_m))
Visit.__abstractmethods__ = frozenset()


def locate(node, dag, i, found):
    found[i] = node
    for c, k in zip(node.children(), dag[i][2]):
        locate(c, dag, k, found)
    return found


def check_tree(spec):
    dag = spec["dag"]
    nodes = build(dag)
    root = nodes[-1]
    ref = shape(dag, len(dag) - 1)
    same_tree(root, ref, "constructed tree")
    structure(root)
    for n in {id(x): x for x in root.dfs_walk()}.values():
        r = n.accept_visitor(Visit())
        require(r[0] == VISIT[type(n).__name__] and r[1] is n, "visitor for %s: %r", n, r)
    require([type(n) for n in root.dfs_walk()] == [OPS[o][0] for o in preorder(ref)], "dfs_walk() visits %s", [str(n) for n in root.dfs_walk()])
    for ign in (False, True):
        require(root.tables(ignore_subqueries=ign) == ref_tables(ref, ign), "tables(ignore_subqueries=%s) are %s", ign, sorted(map(str, root.tables(ignore_subqueries=ign))))
    r, n = ref, root
    while len(r[2]) == 1:
        r, n = r[2][0], n.children()[0]
    require(root.leaf() is (n if not r[2] else None), "leaf() is %s", root.leaf())
    # equality and hash
    again = build(dag)[-1]
    require(root == again and hash(root) == hash(again), "two identical trees differ (== %s, hash %s)\n%s", root == again, hash(root) == hash(again), root.inspect())
    # a different tree
    at, change = spec["at"], spec["change"]
    nodes = locate(root, dag, len(dag) - 1, {})
    refs = [norm_ref(shape(dag, i)) for i in range(len(dag))]
    if refs.count(refs[at]) > 1:
        return  # equal nodes are one node for mutate()
    target = nodes[at]
    op = dag[at][0]
    over_repl, kw = {}, {}
    for n, v in change.items():
        if v is not None:
            kw[n] = arg(op, n, v)
    for k, (kind, par, foreign) in spec["repl"].items():
        k = int(k)
        child = dag[at][2][k]
        slot = OPS[op][1][k]
        if kind == "wrap":
            kw[slot] = relalg.Selection(nodes[child], prd(par["predicate"]))
            over_repl[k] = ["sel", par, [shape(dag, child)]]
        elif kind == "down":
            c2 = dag[child][2]
            if not c2 or dag[c2[0]][0] == "subq":
                continue
            kw[slot] = nodes[c2[0]]
            over_repl[k] = shape(dag, c2[0])
        else:
            if dag[child][0] == "subq":
                foreign = foreign + [["subq", {"subquery": 3}, [len(foreign) - 1]]]
            kw[slot] = build(foreign)[-1]
            over_repl[k] = shape(foreign, len(foreign) - 1)
    if op == "group" and not kw.get("group_columns", True) and not kw.get("aggregates", True):
        return
    new = target.mutate(as_root=spec["as_root"], **kw)
    want = shape(dag, at, {at: (change, over_repl)})
    same_tree(new, want, "mutated node")
    if spec["as_root"]:
        require(new.parent_node is None, "the new root has a parent")
    whole = want if spec["as_root"] else shape(dag, len(dag) - 1, {at: (change, over_repl)})
    same_tree(new.root(), whole, "tree of the mutated node")
    structure(new.root())
    same_tree(root, ref, "original tree after mutate()")
    structure(root)
    fresh = make_ref(whole)
    require(new.root() == fresh and hash(new.root()) == hash(fresh), "the mutated tree and a new tree with the same content differ (== %s, hash %s)\n%s",
            new.root() == fresh, hash(new.root()) == hash(fresh), fresh.inspect())
    # equality: only if nothing changed
    if not spec["as_root"]:
        require((new.root() == root) == (norm_ref(whole) == norm_ref(ref)), "== says %s for\n%s\n%s", new.root() == root, root.inspect(), new.root().inspect())


def norm_ref(ref):
    op, params, kids = ref
    return (op, tuple((n, canon(op, n, v)) for n, v in sorted(params.items())), tuple(norm_ref(k) for k in kids))


def make_ref(ref):
    op, params, kids = ref
    kw = {n: arg(op, n, v) for n, v in params.items()}
    kw.update(dict(zip(OPS[op][1], [make_ref(k) for k in kids])))
    return OPS[op][0](**kw)


FACETS = [
    Facet("select", select_spec, check_select, quick=2000, thorough=25000, rule="at least two tables and a predicate",
          nontrivial=lambda s: len(s["core"]["tabs"]) > 1 and s["core"]["preds"], classify=lambda s: [f"{len(s['core']['tabs'])} tables"]),
    Facet("set", set_spec, check_set, quick=800, thorough=10000, rule="two different tables", nontrivial=lambda s: len({t for p in s["parts"] for t, _ in p["tabs"]}) > 1),
    Facet("virtual", virtual_spec, check_virtual, quick=800, thorough=10000, rule="virtual table and base table", nontrivial=lambda s: len(s["tabs"]) > 0),
    Facet("tree", tree_spec, check_tree, quick=1500, thorough=20000, rule="mutated node is not the root and has changes",
          nontrivial=lambda s: len(s["dag"]) > 2 and s["at"] < len(s["dag"]) - 1 and (s["change"] or s["repl"])),
]
