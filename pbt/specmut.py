"""Single-node mutations of sqlgen query specifications; sites are [path, kind] with a JSON path."""
from __future__ import annotations

import copy

CMP = ["=", "<", "<=", ">", ">=", "<>", "IS DISTINCT FROM"]
MATH = ["+", "-", "*", "/", "%"]
SETOPS = ["UNION", "UNION ALL", "INTERSECT", "EXCEPT"]
JOINS = ["JOIN", "LEFT JOIN", "RIGHT JOIN", "FULL JOIN"]


def _is_expr(n):
    return isinstance(n, list) and n and isinstance(n[0], str) and n[0] in (
        "col", "int", "text", "bool", "null", "float", "math", "neg", "concat", "cast", "func", "star", "case", "scase", "ssq",
        "cmp", "like", "between", "in", "notin", "insq", "notinsq", "exists", "quant", "isnull", "notnull", "and", "or", "not",
        "window")


def _expr_kinds(n):
    k = n[0]
    if k in ("int", "text", "bool"):
        yield "literal"
    if k in ("cmp", "math", "like", "quant"):
        yield "operator"
    if k == "quant":
        yield "quantifier"
    if k in ("cmp", "math", "concat", "between"):
        yield "swap-operands"
    if k in ("in", "notin", "insq", "notinsq", "isnull", "notnull", "and", "or"):
        yield "flip-node"
    if k == "not":
        yield "drop-not"
    if k == "case" and n[2]:
        yield "drop-else"
    if k == "scase" and n[3]:
        yield "drop-else"
    if k == "func":
        if n[3].get("filter"):
            yield "drop-filter"
        if n[1] in ("sum", "min", "max", "count") and n[2][0][0] != "star":
            yield "func-distinct"
            yield "func-name"
        if n[1] in ("lower", "upper"):
            yield "func-name"
    if k == "cast":
        yield "cast-type"
    if k == "window":
        if n[2]:
            yield "drop-partition"
        if n[4]:
            yield "drop-window-filter"
        if n[3]:
            yield "window-order-dir"
            yield "window-drop-order"


def _query_kinds(n):
    if n.get("ctes"):
        yield "recursive"
    if "setop" in n:
        yield "setop"
        yield "swap-arms"
    else:
        if not n.get("distinct_on"):
            yield "distinct"
        if n.get("where"):
            yield "drop-where"
        if n.get("having"):
            yield "drop-having"
        if n.get("group"):
            yield "drop-group"
        if len(n["targets"]) > 1:
            yield "swap-targets"
        if any(t[0] not in ("*", "t.*") for t in n["targets"]):
            yield "target-alias"
        if len(n["from"]) > 1:
            yield "swap-from"
    if n.get("order"):
        yield "order-dir"
        yield "order-nulls"
    if n.get("limit") is not None:
        yield "limit"
    if n.get("offset") is not None:
        yield "offset"


def mutation_sites(spec):
    out = []

    def rec(n, path):
        if isinstance(n, dict):
            if "targets" in n or "setop" in n:
                out.extend([path, k] for k in _query_kinds(n))
            if n.get("kind") == "join" and n["type"] in JOINS:
                out.append([path, "join-type"])
                out.append([path, "join-swap"])
            if n.get("kind") == "table":
                out.append([path, "table-alias"])
            if "mat" in n and "name" in n:
                out.append([path, "materialized"])
            if isinstance(n.get("rows"), list) and n.get("cols") and "targets" not in n:
                out.append([path, "values-column"])
            if n.get("kind") == "sub":
                out.append([path, "lateral"])
            for k, v in n.items():
                rec(v, path + [k])
        elif isinstance(n, list):
            if _is_expr(n):
                out.extend([path, k] for k in _expr_kinds(n))
            for i, v in enumerate(n):
                if isinstance(v, (dict, list)):
                    rec(v, path + [i])
    rec(spec, [])
    return out


def _next(seq, cur):
    return seq[(seq.index(cur) + 1) % len(seq)] if cur in seq else seq[0]


def mutate(spec, site):
    spec = copy.deepcopy(spec)
    path, kind = site
    n = spec
    for p in path:
        n = n[p]
    if kind == "literal":
        n[1] = n[1] + 1 if n[0] == "int" else (n[1] + "q" if n[0] == "text" else not n[1])
    elif kind == "operator":
        n[1] = _next({"cmp": CMP, "math": MATH, "like": ["LIKE", "NOT LIKE", "ILIKE", "NOT ILIKE"], "quant": CMP[:6]}[n[0]], n[1])
    elif kind == "values-column":
        n["cols"][-1] = n["cols"][-1] + "q"
    elif kind == "quantifier":
        n[2] = "ALL" if n[2] == "ANY" else "ANY"
    elif kind == "swap-operands":
        i, j = {"cmp": (2, 3), "math": (2, 3), "concat": (1, 2), "between": (2, 3)}[n[0]]
        n[i], n[j] = n[j], n[i]
    elif kind == "flip-node":
        n[0] = {"in": "notin", "notin": "in", "insq": "notinsq", "notinsq": "insq", "isnull": "notnull", "notnull": "isnull",
                "and": "or", "or": "and"}[n[0]]
    elif kind == "drop-not":
        child = n[1]
        n[:] = child
    elif kind == "drop-else":
        n[2 if n[0] == "case" else 3] = None
    elif kind == "drop-filter":
        del n[3]["filter"]
    elif kind == "func-distinct":
        n[3]["distinct"] = not n[3].get("distinct")
    elif kind == "func-name":
        n[1] = _next(["sum", "min", "max", "count"] if n[1] not in ("lower", "upper") else ["lower", "upper"], n[1])
    elif kind == "cast-type":
        n[2] = _next(["integer", "bigint", "double precision", "text", "varchar"], n[2])
    elif kind == "drop-partition":
        n[2] = []
    elif kind == "drop-window-filter":
        n[4] = None
    elif kind == "window-order-dir":
        o = n[3][-1]
        o[1] = False if o[1] in (None, True) else True
    elif kind == "window-drop-order":
        n[3] = []
    elif kind == "setop":
        n["setop"] = _next(SETOPS, n["setop"])
    elif kind == "swap-arms":
        n["left"], n["right"] = n["right"], n["left"]
    elif kind == "recursive":
        n["recursive"] = not n.get("recursive")
    elif kind == "distinct":
        n["distinct"] = not n.get("distinct")
    elif kind.startswith("drop-"):
        n[kind[5:]] = None
    elif kind == "swap-targets":
        n["targets"][0], n["targets"][1] = n["targets"][1], n["targets"][0]
    elif kind == "swap-from":
        n["from"][0], n["from"][1] = n["from"][1], n["from"][0]
    elif kind == "target-alias":
        t = next(t for t in n["targets"] if t[0] not in ("*", "t.*"))
        t[1] = (t[1] or "") + "z"
    elif kind == "order-dir":
        o = n["order"][-1]
        o[1] = False if o[1] in (None, True) else True
    elif kind == "order-nulls":
        o = n["order"][-1]
        o[2] = None if o[2] else True
    elif kind in ("limit", "offset"):
        n[kind] += 1
    elif kind == "join-type":
        n["type"] = _next(JOINS, n["type"])
    elif kind == "join-swap":
        n["left"], n["right"] = n["right"], n["left"]
    elif kind == "table-alias":
        n["alias"] = (n["alias"] or "") + "z"
    elif kind == "materialized":
        n["mat"] = {None: True, True: False, False: None}[n["mat"]]
    elif kind == "lateral":
        n["lateral"] = not n.get("lateral")
    else:
        raise AssertionError(kind)
    return spec
