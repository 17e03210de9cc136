"""Predicates over a fixed list of relations: generator, SQL renderer and reference decomposition rules.

Relations: [[name, alias], ...]; columns are ["col", relation index, name].
Predicates: ["cmp", op, l, r] ["between", x, lo, hi] ["in", x, [v]] ["like", x, pat] ["isnull", x] ["notnull", x]
            ["exists", sub] ["insq", x, sub] ["truth", e]  ["and"|"or", [p...]] ["not", p]
Expressions: ["col", i, name] ["int", n] ["text", s] ["math", op, l, r] ["abs", e] ["add2", l, r] (a function call)
            ["cast", e, type] ["scalar", sub]
Subqueries (sub): {"table": [name, alias], "corr": null | [i, column]}  - selects max(k), optionally correlated with relation i
"""
from __future__ import annotations

import itertools

INT_COLS = ["a", "b", "c"]
BASE = ["r", "s", "w"]


def ident(rel):
    return rel[1] or rel[0]


# ---------------------------------------------------------------- generation

def gen_relations(d, lo=2, hi=4):
    out = []
    for i in range(d.int(lo, hi)):
        name = d.choice(BASE)
        alias = f"x{i}" if any(ident(r) == name for r in out) or d.flag(35) else None
        out.append([name, alias])
    return out


def gen_expr(d, n, depth=1, subq=True):
    opts = [(60, "col"), (20, "int")]
    if depth > 0:
        opts += [(8, "math"), (5, "abs"), (5, "add2"), (5, "cast")]
        if subq:
            opts += [(6, "scalar")]
    k = d.weighted(opts)
    if k == "col":
        return ["col", d.int(0, n - 1), d.choice(INT_COLS)]
    if k == "int":
        return ["int", d.int(0, 6)]
    if k == "math":
        return ["math", d.choice(["+", "-", "*"]), gen_expr(d, n, depth - 1, subq), gen_expr(d, n, depth - 1, subq)]
    if k == "abs":
        return ["abs", gen_expr(d, n, depth - 1, subq)]
    if k == "add2":
        return ["add2", gen_expr(d, n, depth - 1, subq), gen_expr(d, n, depth - 1, subq)]
    if k == "cast":
        return ["cast", gen_expr(d, n, depth - 1, subq), d.choice(["integer", "bigint"])]
    return ["scalar", gen_sub(d, n)]


def gen_sub(d, n):
    name = d.choice(["m", "r"])
    return {"table": [name, f"{name}q{d.int(0, 2)}"], "corr": [d.int(0, n - 1), d.choice(INT_COLS)] if d.flag(50) else None}


def gen_base(d, n, subq=True):
    k = d.weighted([(45, "cmp"), (10, "eqjoin"), (10, "between"), (9, "in"), (4, "isnull"), (3, "notnull"), (5, "const"), (4, "like")] +
                   ([(4, "exists"), (4, "insq")] if subq else []))
    if k == "eqjoin":
        i = d.int(0, n - 1)
        return ["cmp", "=", ["col", i, d.choice(INT_COLS)], ["col", (i + d.int(1, n - 1)) % n if n > 1 else i, d.choice(INT_COLS)]]
    if k == "const":
        l, r = ["col", d.int(0, n - 1), d.choice(INT_COLS)], ["int", d.int(0, 6)]
        if d.flag(40):
            l, r = r, l
        return ["cmp", d.choice(["=", "<", "<=", ">", ">=", "<>"]), l, r]
    if k == "cmp":
        return ["cmp", d.choice(["=", "<", "<=", ">", ">=", "<>", "IS DISTINCT FROM", "IS NOT DISTINCT FROM"]),
                gen_expr(d, n, 1, subq), gen_expr(d, n, 1, subq)]
    if k == "between":
        return ["between", gen_expr(d, n, 1, subq), gen_expr(d, n, 1, subq), gen_expr(d, n, 1, subq)]
    if k == "in":
        return ["in", gen_expr(d, n, 1, subq), [gen_expr(d, n, 0) if d.flag(25) else ["int", d.int(0, 6)] for _ in range(d.int(1, 3))]]
    if k == "like":
        return ["like", ["cast", ["col", d.int(0, n - 1), d.choice(INT_COLS)], "text"], ["text", d.choice(["1%", "%", "_"])]]
    if k in ("isnull", "notnull"):
        return [k, gen_expr(d, n, 1, subq)]
    if k == "exists":
        return ["exists", gen_sub(d, n)]
    return ["insq", gen_expr(d, n, 0), gen_sub(d, n)]


def gen_pred(d, n, depth=2, subq=True):
    k = d.weighted([(55, "base"), (25 if depth else 0, "and"), (14 if depth else 0, "or"), (6 if depth else 0, "not")])
    if k == "base":
        return gen_base(d, n, subq)
    if k == "not":
        return ["not", gen_pred(d, n, depth - 1, subq)]
    return connect(k, [gen_pred(d, n, depth - 1, subq) for _ in range(d.int(2, 3))])


def connect(k, parts):
    """AND / OR without redundant nesting (which the SQL parser removes)."""
    return [k, [x for p in parts for x in (p[1] if p[0] == k else [p])]]


# ---------------------------------------------------------------- rendering

def rx(e, rels):
    k = e[0]
    if k == "col":
        return f"{ident(rels[e[1]])}.{e[2]}"
    if k == "int":
        return str(e[1])
    if k == "text":
        return f"'{e[1]}'"
    if k == "math":
        return f"({rx(e[2], rels)} {e[1]} {rx(e[3], rels)})"
    if k == "abs":
        return f"abs({rx(e[1], rels)})"
    if k == "add2":
        return f"coalesce({rx(e[1], rels)}, {rx(e[2], rels)})"
    if k == "cast":
        return f"CAST({rx(e[1], rels)} AS {e[2]})"
    if k == "scalar":
        return rsub(e[1], rels)
    if k == "cmp":
        return f"({rx(e[2], rels)} {e[1]} {rx(e[3], rels)})"
    if k == "between":
        return f"({rx(e[1], rels)} BETWEEN {rx(e[2], rels)} AND {rx(e[3], rels)})"
    if k == "in":
        return f"({rx(e[1], rels)} IN ({', '.join(rx(v, rels) for v in e[2])}))"
    if k == "like":
        return f"({rx(e[1], rels)} LIKE {rx(e[2], rels)})"
    if k == "isnull":
        return f"({rx(e[1], rels)} IS NULL)"
    if k == "notnull":
        return f"({rx(e[1], rels)} IS NOT NULL)"
    if k == "exists":
        return f"EXISTS {rsub(e[1], rels)}"
    if k == "insq":
        return f"({rx(e[1], rels)} IN {rsub(e[2], rels)})"
    if k in ("and", "or"):
        return "(" + f" {k.upper()} ".join(rx(c, rels) for c in e[1]) + ")"
    if k == "not":
        return f"(NOT {rx(e[1], rels)})"
    raise AssertionError(k)


def rsub(sub, rels):
    name, alias = sub["table"]
    col = "k" if name == "m" else "a"
    where = ""
    if sub["corr"]:
        i, c = sub["corr"]
        where = f" WHERE {alias}.{col} = {ident(rels[i])}.{c}"
    return f"(SELECT max({alias}.{col}) FROM {name} AS {alias}{where})"


def rfrom(rels):
    return ", ".join(r[0] + (f" AS {r[1]}" if r[1] else "") for r in rels)


# ---------------------------------------------------------------- reference rules

def subexprs(e):
    k = e[0]
    if k in ("math", "cmp"):
        return [e[2], e[3]]
    if k in ("abs", "isnull", "notnull", "cast", "insq"):
        return [e[1]]
    if k in ("add2", "like"):
        return [e[1], e[2]]
    if k == "between":
        return [e[1], e[2], e[3]]
    if k == "in":
        return [e[1], *e[2]]
    if k in ("and", "or"):
        return list(e[1])
    if k == "not":
        return [e[1]]
    return []


def subs(e):
    """Direct subqueries of the node."""
    return [e[1]] if e[0] in ("scalar", "exists") else [e[2]] if e[0] == "insq" else []


def walk(e):
    yield e
    for c in subexprs(e):
        yield from walk(c)


def cols(e):
    """Columns outside of subqueries: set of (relation index, name)."""
    return {(n[1], n[2]) for n in walk(e) if n[0] == "col"}


def tabs(e):
    return {i for i, _ in cols(e)}


def sub_tables(e, rels):
    """Identifiers of all relations including those of subqueries."""
    out = {ident(rels[i]) for i in tabs(e)}
    for n in walk(e):
        for s in subs(n):
            out.add(ident(s["table"]))
            if s["corr"]:
                out.add(ident(rels[s["corr"][0]]))
    return out


def required(e, rels):
    out = {ident(rels[i]) for i in tabs(e)}
    for n in walk(e):
        for s in subs(n):
            if s["corr"]:
                out.add(ident(rels[s["corr"][0]]))
    return out


def is_compound(p):
    return p[0] in ("and", "or", "not")


def is_join(p):
    k = p[0]
    if k in ("and", "or"):
        return any(is_join(c) for c in p[1])
    if k == "not":
        return is_join(p[1])
    if k == "between":
        return len(tabs(p[1]) | tabs(p[2])) > 1 or len(tabs(p[1]) | tabs(p[3])) > 1
    if k == "in":
        return any(len(tabs(p[1]) | tabs(v)) > 1 for v in p[2])
    if k == "insq":
        return len(tabs(p[1])) > 1
    return len(tabs(p)) > 1


def _pairs(c):
    return {frozenset((a, b)) for a, b in itertools.combinations(sorted(c), 2) if a[0] != b[0]}


def partners(p):
    """Set of frozensets of two (relation, column) pairs."""
    k = p[0]
    if k in ("and", "or"):
        return set().union(*[partners(c) for c in p[1] if is_join(c)])
    if k == "not":
        return partners(p[1])
    if k == "between":
        return _pairs(cols(p[1]) | cols(p[2])) | _pairs(cols(p[1]) | cols(p[3]))
    if k == "in":
        return set().union(*[_pairs(cols(p[1]) | cols(v)) for v in p[2]])
    return _pairs(cols(p))


def decompose(p, want_joins):
    """The filters / joins of a predicate as a list of predicates."""
    k = p[0]
    if k == "and":
        return [x for c in p[1] for x in decompose(c, want_joins)]
    if k == "or":
        mine = [c for c in p[1] if is_join(c) == want_joins]
        return mine if len(mine) < 2 else [["or", mine]]
    return [p] if is_join(p) == want_joins else []


def bases(p):
    if p[0] in ("and", "or"):
        for c in p[1]:
            yield from bases(c)
    elif p[0] == "not":
        yield from bases(p[1])
    else:
        yield p
