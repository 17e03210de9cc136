"""Scope- and type-correct random SQL over a small fixed schema, as plain JSON trees, plus a renderer.

Expression nodes (lists):
  ["col", qualifier|None, name, type, source]   source = [table identifier, kind] of the relation that provides it
  ["int", n] ["text", s] ["bool", b] ["null"] ["float", text]
  ["math", op, l, r] ["neg", x] ["concat", l, r] ["cast", x, type]
  ["func", name, [args], {distinct, filter}] ["star"] (only as count argument)
  ["case", [[cond, result]...], else|None] ["scase", operand, [[value, result]...], else|None]
  ["ssq", query]
  ["cmp", op, l, r] ["like", op, l, pattern] ["between", x, lo, hi] ["in", x, [vals]] ["notin", x, [vals]]
  ["insq", x, query] ["notinsq", x, query] ["exists", query] ["quant", op, "ANY"|"ALL", x, query]
  ["isnull", x] ["notnull", x] ["and", [..]] ["or", [..]] ["not", p]
  ["window", func, [partition], [order], filter|None]
Query nodes (dicts): see gen_query.
"""
from __future__ import annotations

SCHEMA = {
    "r": [("id", "int"), ("a", "int"), ("b", "int"), ("t", "text")],
    "s": [("sid", "int"), ("r_id", "int"), ("c", "int"), ("u", "text"), ("flag", "bool")],
    "w": [("wid", "int"), ("s_id", "int"), ("a", "int"), ("v", "text")],
    "m": [("k", "int"), ("val", "int")],
}
# a relation that needs quoting everywhere
QUOTED = {"Order": [("Key", "int"), ("select", "int"), ("odd name", "text")]}

RESERVED = {"select", "order"}


def q(name: str) -> str:
    if name and name.replace("_", "").isalnum() and name == name.lower() and not name[0].isdigit() \
            and name not in RESERVED:
        return name
    return '"' + name.replace('"', '""') + '"'


def lit(s: str) -> str:
    return "'" + s.replace("'", "''") + "'"


# ---------------------------------------------------------------- rendering

def rx(e) -> str:
    k = e[0]
    if k == "col":
        return (q(e[1]) + "." if e[1] else "") + q(e[2])
    if k == "int":
        return str(e[1]) if e[1] >= 0 else f"({e[1]})"
    if k == "float":
        return e[1]
    if k == "text":
        return lit(e[1])
    if k == "bool":
        return "TRUE" if e[1] else "FALSE"
    if k == "null":
        return "NULL"
    if k == "star":
        return "*"
    if k == "math":
        return f"({rx(e[2])} {e[1]} {rx(e[3])})"
    if k == "neg":
        return f"(- {rx(e[1])})"
    if k == "concat":
        return f"({rx(e[1])} || {rx(e[2])})"
    if k == "cast":
        return f"CAST({rx(e[1])} AS {e[2]})"
    if k == "func":
        opt = e[3]
        s = f"{e[1]}({'DISTINCT ' if opt.get('distinct') else ''}{', '.join(rx(x) for x in e[2])})"
        if opt.get("filter"):
            s += f" FILTER (WHERE {rx(opt['filter'])})"
        return s
    if k == "case":
        s = "CASE " + " ".join(f"WHEN {rx(c)} THEN {rx(v)}" for c, v in e[1])
        return "(" + s + (f" ELSE {rx(e[2])}" if e[2] else "") + " END)"
    if k == "scase":
        s = f"CASE {rx(e[1])} " + " ".join(f"WHEN {rx(c)} THEN {rx(v)}" for c, v in e[2])
        return "(" + s + (f" ELSE {rx(e[3])}" if e[3] else "") + " END)"
    if k == "ssq":
        return f"({rq(e[1])})"
    if k == "cmp":
        return f"({rx(e[2])} {e[1]} {rx(e[3])})"
    if k == "like":
        return f"({rx(e[2])} {e[1]} {rx(e[3])})"
    if k == "between":
        return f"({rx(e[1])} BETWEEN {rx(e[2])} AND {rx(e[3])})"
    if k in ("in", "notin"):
        return f"({rx(e[1])} {'NOT ' if k == 'notin' else ''}IN ({', '.join(rx(x) for x in e[2])}))"
    if k in ("insq", "notinsq"):
        return f"({rx(e[1])} {'NOT ' if k == 'notinsq' else ''}IN ({rq(e[2])}))"
    if k == "exists":
        return f"EXISTS ({rq(e[1])})"
    if k == "quant":
        return f"({rx(e[3])} {e[1]} {e[2]} ({rq(e[4])}))"
    if k == "isnull":
        return f"({rx(e[1])} IS NULL)"
    if k == "notnull":
        return f"({rx(e[1])} IS NOT NULL)"
    if k in ("and", "or"):
        return "(" + f" {k.upper()} ".join(rx(x) for x in e[1]) + ")"
    if k == "not":
        return f"(NOT {rx(e[1])})"
    if k == "window":
        parts = []
        if e[2]:
            parts.append("PARTITION BY " + ", ".join(rx(x) for x in e[2]))
        if e[3]:
            parts.append("ORDER BY " + ", ".join(rorder(o) for o in e[3]))
        filt = f" FILTER (WHERE {rx(e[4])})" if e[4] else ""
        return f"{rx(e[1])}{filt} OVER ({' '.join(parts)})"
    raise AssertionError(k)


def rorder(o) -> str:
    s = rx(o[0])
    if o[1] is not None:
        s += " ASC" if o[1] else " DESC"
    if o[2] is not None:
        s += " NULLS FIRST" if o[2] else " NULLS LAST"
    return s


def rfrom(f) -> str:
    k = f["kind"]
    if k == "table":
        return q(f["name"]) + (f" AS {q(f['alias'])}" if f["alias"] else "")
    if k == "cte":
        return q(f["name"]) + (f" AS {q(f['alias'])}" if f["alias"] else "")
    if k == "sub":
        return ("LATERAL " if f.get("lateral") else "") + f"({rq(f['query'])}) AS {q(f['alias'])}"
    if k == "values":
        rows = ", ".join("(" + ", ".join(rx(x) for x in row) + ")" for row in f["rows"])
        return f"(VALUES {rows}) AS {q(f['alias'])}({', '.join(q(c) for c in f['cols'])})"
    if k == "func":
        return f"generate_series({f['lo']}, {f['hi']}) AS {q(f['alias'])}"
    if k == "join":
        left, right = rfrom(f["left"]), rfrom(f["right"])
        if f["right"]["kind"] == "join":
            right = f"({right})"
        if f["type"] == "CROSS JOIN":
            return f"{left} CROSS JOIN {right}"
        return f"{left} {f['type']} {right} ON {rx(f['on'])}"
    raise AssertionError(k)


def rq(qq, *, top=False) -> str:
    """Renders a query node."""
    out = []
    if qq.get("ctes"):
        items = []
        for c in qq["ctes"]:
            mat = {None: "", True: "MATERIALIZED ", False: "NOT MATERIALIZED "}[c.get("mat")]
            if "rows" in c:
                rows = ", ".join("(" + ", ".join(rx(x) for x in row) + ")" for row in c["rows"])
                items.append(f"{q(c['name'])}({', '.join(q(x) for x in c['cols'])}) AS {mat}(VALUES {rows})")
            else:
                items.append(f"{q(c['name'])} AS {mat}({rq(c['query'])})")
        out.append(("WITH RECURSIVE " if qq.get("recursive") else "WITH ") + ", ".join(items))
    if "setop" in qq:
        out.append(f"({rq(qq['left'])}) {qq['setop']} ({rq(qq['right'])})")
    else:
        sel = "SELECT "
        if qq.get("distinct_on"):
            sel += "DISTINCT ON (" + ", ".join(rx(x) for x in qq["distinct_on"]) + ") "
        elif qq.get("distinct"):
            sel += "DISTINCT "
        tg = []
        for t in qq["targets"]:
            if t[0] == "*":
                tg.append("*")
            elif t[0] == "t.*":
                tg.append(f"{q(t[1])}.*")
            else:
                tg.append(rx(t[0]) + (f" AS {q(t[1])}" if t[1] else ""))
        out.append(sel + ", ".join(tg))
        if qq["from"]:
            out.append("FROM " + ", ".join(rfrom(f) for f in qq["from"]))
        if qq.get("where"):
            out.append("WHERE " + rx(qq["where"]))
        if qq.get("group"):
            out.append("GROUP BY " + ", ".join(rx(x) for x in qq["group"]))
        if qq.get("having"):
            out.append("HAVING " + rx(qq["having"]))
    if qq.get("order"):
        out.append("ORDER BY " + ", ".join(rorder(o) for o in qq["order"]))
    if qq.get("limit") is not None:
        if qq.get("fetch"):
            if qq.get("offset") is not None:
                out.append(f"OFFSET {qq['offset']}")
            out.append(f"FETCH {qq['fetch']} {qq['limit']} ROWS ONLY")
        else:
            out.append(f"LIMIT {qq['limit']}")
    if qq.get("offset") is not None and not qq.get("fetch"):
        out.append(f"OFFSET {qq['offset']}")
    return " ".join(out)


# ---------------------------------------------------------------- walking

def children(e):
    """Direct sub-expressions of an expression node (queries excluded)."""
    k = e[0]
    if k in ("math",):
        return [e[2], e[3]]
    if k in ("neg", "isnull", "notnull", "not", "cast"):
        return [e[1]]
    if k == "concat":
        return [e[1], e[2]]
    if k == "func":
        return list(e[2]) + ([e[3]["filter"]] if e[3].get("filter") else [])
    if k == "case":
        return [x for c in e[1] for x in c] + ([e[2]] if e[2] else [])
    if k == "scase":
        return [e[1]] + [x for c in e[2] for x in c] + ([e[3]] if e[3] else [])
    if k in ("cmp", "like"):
        return [e[2], e[3]]
    if k == "between":
        return [e[1], e[2], e[3]]
    if k in ("in", "notin"):
        return [e[1]] + list(e[2])
    if k in ("insq", "notinsq"):
        return [e[1]]
    if k == "quant":
        return [e[3]]
    if k in ("and", "or"):
        return list(e[1])
    if k == "window":
        return [e[1]] + list(e[2]) + [o[0] for o in e[3]] + ([e[4]] if e[4] else [])
    return []


def direct_query(e):
    k = e[0]
    if k in ("ssq", "exists"):
        return e[1]
    if k in ("insq", "notinsq"):
        return e[2]
    if k == "quant":
        return e[4]
    return None


def walk(e):
    """All expression nodes below e including e; does not enter subqueries."""
    yield e
    for c in children(e):
        yield from walk(c)


def from_leaves(f):
    if f["kind"] == "join":
        yield from from_leaves(f["left"])
        yield from from_leaves(f["right"])
    else:
        yield f


def join_nodes(f):
    if f["kind"] == "join":
        yield f
        yield from join_nodes(f["left"])
        yield from join_nodes(f["right"])


def query_exprs(qq):
    """Top expressions of this query block only (no CTEs, no set-op arms, no from-subqueries)."""
    if "setop" in qq:
        for o in qq.get("order") or []:
            yield "order", o[0]
        return
    for x in qq.get("distinct_on") or []:
        yield "select", x
    for t in qq["targets"]:
        if t[0] not in ("*", "t.*"):
            yield "select", t[0]
    for f in qq["from"]:
        for j in join_nodes(f):
            if j.get("on"):
                yield "from", j["on"]
        for leaf in from_leaves(f):
            if leaf["kind"] == "values":
                for row in leaf["rows"]:
                    for x in row:
                        yield "from", x
    if qq.get("where"):
        yield "where", qq["where"]
    for x in qq.get("group") or []:
        yield "group", x
    if qq.get("having"):
        yield "having", qq["having"]
    for o in qq.get("order") or []:
        yield "order", o[0]


def subqueries(qq):
    """Immediate nested queries: (kind, query)."""
    for c in qq.get("ctes") or []:
        if "query" in c:
            yield "cte", c["query"]
    if "setop" in qq:
        yield "arm", qq["left"]
        yield "arm", qq["right"]
    else:
        for f in qq["from"]:
            for leaf in from_leaves(f):
                if leaf["kind"] == "sub":
                    yield "from", leaf["query"]
    for _, e in query_exprs(qq):
        for n in walk(e):
            d = direct_query(n)
            if d is not None:
                yield "expr", d


def all_queries(qq):
    yield qq
    for _, s in subqueries(qq):
        yield from all_queries(s)


def all_nodes(qq):
    for x in all_queries(qq):
        for _, e in query_exprs(x):
            yield from walk(e)


def labels(qq):
    out = set()
    for x in all_queries(qq):
        if "setop" in x:
            out.add("setop:" + x["setop"])
            for arm in (x["left"], x["right"]):
                if "setop" in arm:
                    out.add("nested-setop")
                if arm.get("order") or arm.get("limit") is not None:
                    out.add("setop-arm-order")
        else:
            for f in x["from"]:
                for j in join_nodes(f):
                    out.add("join:" + j["type"])
                    if j["right"]["kind"] == "join":
                        out.add("right-nested-join")
                for leaf in from_leaves(f):
                    out.add("from:" + leaf["kind"])
                    if leaf.get("lateral"):
                        out.add("lateral")
            if x.get("distinct_on"):
                out.add("distinct-on")
            elif x.get("distinct"):
                out.add("distinct")
            for key in ("group", "having"):
                if x.get(key):
                    out.add(key)
            for t in x["targets"]:
                if t[0] in ("*", "t.*"):
                    out.add(t[0])
        for key in ("order", "ctes"):
            if x.get(key):
                out.add(key)
        if x.get("limit") is not None:
            out.add("limit")
        if x.get("offset") is not None:
            out.add("offset")
    for n in all_nodes(qq):
        out.add("e:" + n[0])
    return sorted(out)


# ---------------------------------------------------------------- generation

class Gen:
    """Draws queries.  Feature switches restrict the grammar for particular facets."""

    def __init__(self, d, *, depth=2, subq=True, ctes=True, setops=True, agg=True, windows=True, joins=True,
                 values=True, lateral=True, quoted=True, unqualified=True, order=True, expr_depth=2, max_from=3,
                 texts=None, quantifiers=True, outer=True, funcs=True, star=True, distinct_on=True,
                 shadow=False):
        self.d = d
        self.o = dict(subq=subq, ctes=ctes, setops=setops, agg=agg, windows=windows, joins=joins, values=values,
                      lateral=lateral, quoted=quoted, unqualified=unqualified, order=order, quantifiers=quantifiers,
                      outer=outer, funcs=funcs, star=star, distinct_on=distinct_on, shadow=shadow)
        self.depth = depth
        self.expr_depth = expr_depth
        self.max_from = max_from
        self.n = 0
        self.texts = texts or ["x", "y", "ab", "", "o'k", "100%", "a_b", "Ünï", "AND", "--", "a b"]
        self.ctes: list = []  # visible CTEs: (name, cols)

    def fresh(self, p):
        self.n += 1
        return f"{p}{self.n}"

    def alias(self, p, used):
        """A fresh alias, or (with shadowing) the name of a base table or CTE that is not an identifier of the scope yet."""
        if self.o["shadow"] and self.d.flag(25):
            names = [n for n, _ in self.ctes if n not in used]
            if not names or self.d.flag(40):
                names = [n for n in SCHEMA if n not in used]
            if names:
                return self.d.choice(names)
        return self.fresh(p)

    # -- columns
    def column(self, scope, typ, outer=()):
        """scope: list of (identifier, [(col, type)], kind)"""
        cands = [(ident, c, kind, False) for ident, cols, kind in scope for c, t in cols if t == typ]
        if not cands or (outer and self.d.flag(15)):
            oc = [(ident, c, kind, True) for ident, cols, kind in outer for c, t in cols if t == typ
                  if ident not in [s[0] for s in scope]]
            cands = oc or cands
        if not cands:
            return None
        ident, c, kind, is_outer = self.d.choice(cands)
        qual = ident
        if self.o["unqualified"] and not is_outer and self.d.flag(25):
            if self.o["shadow"]:
                # the innermost scope wins
                if [c2 for _, cols, _ in scope for c2, _ in cols].count(c) == 1:
                    qual = None
                return ["col", qual, c, typ, [ident, kind]]
            visible = [c2 for _, cols, _ in list(scope) + list(outer) for c2, _ in cols]
            if visible.count(c) == 1:
                qual = None
        if self.o["shadow"] and is_outer and self.d.flag(40):
            names = [c2 for _, cols, _ in outer for c2, _ in cols]
            if names.count(c) == 1 and all(s[2] != "func" for s in list(scope) + list(outer)) and \
                    c not in [c2 for _, cols, _ in scope for c2, _ in cols]:
                qual = None
        return ["col", qual, c, typ, [ident, kind]]

    def int_expr(self, scope, depth, outer=()):
        d = self.d
        opts = [(40, "col"), (14, "int")]
        if depth > 0:
            opts += [(22, "math"), (4, "neg"), (6, "case"), (3, "scase"), (5, "cast"), (5, "func")]
            if self.o["subq"] and self.depth > 0:
                opts += [(5, "ssq")]
        k = d.weighted(opts)
        if k == "col":
            return self.column(scope, "int", outer) or ["int", d.int(-2, 9)]
        if k == "int":
            return ["int", d.weighted([(80, d.int(-3, 12)), (10, 2 ** 31 - 1), (10, -40000)])]
        if k == "math":
            op = d.choice(["+", "-", "*", "/", "%"])
            return ["math", op, self.int_expr(scope, depth - 1, outer), self.int_expr(scope, depth - 1, outer)]
        if k == "neg":
            return ["neg", self.int_expr(scope, depth - 1, outer)]
        if k == "case":
            arms = [[self.bool_expr(scope, depth - 1, outer), self.int_expr(scope, depth - 1, outer)]
                    for _ in range(d.int(1, 2))]
            return ["case", arms, self.int_expr(scope, depth - 1, outer) if d.flag(60) else None]
        if k == "scase":
            arms = [[["int", d.int(0, 5)], self.int_expr(scope, depth - 1, outer)] for _ in range(d.int(1, 2))]
            return ["scase", self.int_expr(scope, depth - 1, outer), arms,
                    self.int_expr(scope, depth - 1, outer) if d.flag(60) else None]
        if k == "cast":
            return ["cast", self.int_expr(scope, depth - 1, outer), d.choice(["integer", "bigint", "double precision"])]
        if k == "func":
            f = d.choice(["abs", "coalesce", "length"])
            if f == "length":
                return ["func", "length", [self.text_expr(scope, depth - 1, outer)], {}]
            if f == "coalesce":
                return ["func", "coalesce", [self.int_expr(scope, depth - 1, outer) for _ in range(d.int(1, 3))], {}]
            return ["func", "abs", [self.int_expr(scope, depth - 1, outer)], {}]
        return ["ssq", self.scalar_query(list(scope) + list(outer))]

    def text_expr(self, scope, depth, outer=()):
        d = self.d
        opts = [(45, "col"), (20, "text")]
        if depth > 0:
            opts += [(12, "concat"), (8, "func"), (6, "cast"), (5, "case")]
        k = d.weighted(opts)
        if k == "col":
            return self.column(scope, "text", outer) or ["text", d.choice(self.texts)]
        if k == "text":
            return ["text", d.choice(self.texts)]
        if k == "concat":
            return ["concat", self.text_expr(scope, depth - 1, outer), self.text_expr(scope, depth - 1, outer)]
        if k == "func":
            return ["func", d.choice(["lower", "upper"]), [self.text_expr(scope, depth - 1, outer)], {}]
        if k == "cast":
            c = self.column(scope, "int", outer) or ["int", d.int(0, 5)]
            return ["cast", c, d.choice(["text", "varchar"])]
        return ["case", [[self.bool_expr(scope, depth - 1, outer), self.text_expr(scope, depth - 1, outer)]],
                self.text_expr(scope, depth - 1, outer) if d.flag(50) else None]

    CMP = ["=", "<", "<=", ">", ">=", "<>", "!=", "IS DISTINCT FROM", "IS NOT DISTINCT FROM"]

    def bool_expr(self, scope, depth, outer=()):
        d = self.d
        opts = [(30, "cmp"), (8, "tcmp"), (7, "like"), (7, "between"), (7, "in"), (4, "notin"), (6, "isnull"),
                (4, "notnull")]
        if depth > 0:
            opts += [(14, "and"), (14, "or"), (10, "not")]
            if self.o["subq"] and self.depth > 0:
                opts += [(5, "exists"), (3, "insq"), (2, "notinsq")]
                if self.o["quantifiers"]:
                    opts += [(3, "quant")]
        opts += [(2, "bcol"), (1, "bool")]
        k = d.weighted(opts)
        nd = max(depth - 1, 0)
        if k == "cmp":
            return ["cmp", d.choice(self.CMP), self.int_expr(scope, nd, outer), self.int_expr(scope, nd, outer)]
        if k == "tcmp":
            return ["cmp", d.choice(self.CMP), self.text_expr(scope, nd, outer), self.text_expr(scope, nd, outer)]
        if k == "like":
            return ["like", d.choice(["LIKE", "NOT LIKE", "ILIKE", "NOT ILIKE"]), self.text_expr(scope, nd, outer),
                    ["text", d.choice(["%", "a%", "%b", "_", "A%", "x", "%'%", ""])]]
        if k == "between":
            return ["between", self.int_expr(scope, nd, outer), self.int_expr(scope, nd, outer),
                    self.int_expr(scope, nd, outer)]
        if k in ("in", "notin"):
            if d.flag(30):
                return [k, self.text_expr(scope, nd, outer), [["text", d.choice(self.texts)]
                                                              for _ in range(d.int(1, 3))]]
            return [k, self.int_expr(scope, nd, outer), [self.int_expr(scope, 0, outer) if d.flag(15)
                                                         else ["int", d.int(-1, 8)] for _ in range(d.int(1, 3))]]
        if k in ("isnull", "notnull"):
            return [k, self.int_expr(scope, nd, outer) if d.flag(70) else self.text_expr(scope, nd, outer)]
        if k in ("and", "or"):
            return [k, [self.bool_expr(scope, depth - 1, outer) for _ in range(d.int(2, 3))]]
        if k == "not":
            return ["not", self.bool_expr(scope, depth - 1, outer)]
        if k == "bcol":
            return self.column(scope, "bool", outer) or ["bool", True]
        if k == "bool":
            return ["bool", d.flag(50)]
        every = list(scope) + list(outer)
        if k == "exists":
            return ["exists", self.sub_query(every, None)]
        x = self.int_expr(scope, 0, outer)
        if k in ("insq", "notinsq"):
            return [k, x, self.sub_query(every, "int")]
        return ["quant", d.choice(["=", "<", ">=", "<>", ">"]), d.choice(["ANY", "ALL"]), x,
                self.sub_query(every, "int")]

    # -- subqueries in expressions
    def _nested(self):
        old = (self.depth, self.expr_depth, self.max_from)
        self.depth, self.expr_depth, self.max_from = self.depth - 1, max(0, self.expr_depth - 1), 2
        return old

    def _restore(self, old):
        self.depth, self.expr_depth, self.max_from = old

    def scalar_query(self, outer):
        """Exactly one row, one int column."""
        old = self._nested()
        try:
            frm, scope = self.from_clause(outer)
            where = self.bool_expr(scope, self.expr_depth, outer) if self.d.flag(60) else None
            agg = self.d.choice(["max", "min", "count", "sum"])
            arg = ["star"] if agg == "count" and self.d.flag(50) else self.int_expr(scope, 0)
            return {"targets": [[["func", agg, [arg], {}], None]], "from": frm, "where": where}
        finally:
            self._restore(old)

    def sub_query(self, outer, typ):
        old = self._nested()
        try:
            frm, scope = self.from_clause(outer)
            where = self.bool_expr(scope, self.expr_depth, outer) if self.d.flag(75) else None
            if typ is None:
                targets = [[["int", 1], None]] if self.d.flag(50) or not self.o["star"] else [["*"]]
            else:
                targets = [[self.int_expr(scope, 0), None]]
            qq = {"targets": targets, "from": frm, "where": where}
            if typ and self.d.flag(15):
                qq["distinct"] = True
            return qq
        finally:
            self._restore(old)

    # -- FROM
    def base_relation(self, used):
        d = self.d
        names = list(SCHEMA)
        opts = [(20, n) for n in names]
        if self.o["quoted"]:
            opts.append((6, "Order"))
        hidden = {name for name, _ in self.ctes}
        opts = [(w, n) for w, n in opts if n not in hidden] or opts
        name = d.weighted(opts)
        cols = SCHEMA.get(name) or QUOTED[name]
        ident = name
        alias = None
        if name in used or d.flag(45):
            alias = self.alias(d.choice(["x", "Al", "t_"]) if self.o["quoted"] and d.flag(10) else "x", used)
            ident = alias
        return {"kind": "table", "name": name, "alias": alias}, (ident, cols, "table")

    def relation(self, used, outer, lateral_scope):
        d = self.d
        opts = [(70, "table")]
        if self.ctes:
            opts.append((40, "cte"))
        if self.depth > 0 and self.o["subq"]:
            opts.append((12, "sub"))
            if self.o["lateral"] and lateral_scope:
                opts.append((4, "lateral"))
        if self.o["values"]:
            opts.append((5, "values"))
        if self.o["funcs"]:
            opts.append((2, "func"))
        k = d.weighted(opts)
        if k == "cte":
            avail = dict(self.ctes)  # the innermost definition wins
            name = d.choice(list(avail))
            cols = avail[name]
            alias = self.alias("c", used) if name in used or d.flag(40) else None
            return {"kind": "cte", "name": name, "alias": alias}, (alias or name, cols, "virtual")
        if k in ("sub", "lateral"):
            alias = self.alias("q", used)
            old = self._nested()
            try:
                qq, cols = self.named_query(lateral_scope if k == "lateral" else ())
            finally:
                self._restore(old)
            return {"kind": "sub", "alias": alias, "query": qq, "lateral": k == "lateral"}, (alias, cols, "virtual")
        if k == "values":
            alias = self.alias("v", used)
            rows = [[["int", d.int(-2, 6)], ["text", d.choice(self.texts)]] for _ in range(d.int(1, 3))]
            cols = [(f"{alias}i", "int"), (f"{alias}t", "text")]
            return {"kind": "values", "alias": alias, "rows": rows, "cols": [c for c, _ in cols]}, \
                (alias, cols, "virtual")
        if k == "func":
            alias = self.alias("g", used)
            return {"kind": "func", "alias": alias, "lo": d.int(0, 1), "hi": d.int(1, 3)}, (alias, [], "func")
        return self.base_relation(used)

    def from_clause(self, outer=(), lo=1):
        d = self.d
        n = d.weighted([(45, 1), (35, 2), (20, 3)])
        n = max(lo, min(n, self.max_from))
        scope, items = [], []
        used: set = set()
        remaining = n
        while remaining > 0:
            if self.o["joins"] and remaining >= 2 and d.flag(45):
                k = d.int(2, remaining)
                node, sc = self.join_tree(k, used, outer)
                items.append(node)
                scope += sc
                remaining -= k
            else:
                f, s = self.relation(used, outer, scope)
                used.add(s[0])
                items.append(f)
                scope.append(s)
                remaining -= 1
        return items, scope

    def join_tree(self, k, used, outer):
        d = self.d
        if k == 1:
            f, s = self.relation(used, outer, [])
            used.add(s[0])
            return f, [s]
        nl = d.int(1, k - 1)
        left, ls = self.join_tree(nl, used, outer)
        right, rs = self.join_tree(k - nl, used, outer)
        types = [(50, "JOIN"), (8, "CROSS JOIN")]
        if self.o["outer"]:
            types += [(20, "LEFT JOIN"), (10, "RIGHT JOIN"), (8, "FULL JOIN")]
        typ = d.weighted(types)
        sc = ls + rs
        node = {"kind": "join", "type": typ, "left": left, "right": right}
        if typ != "CROSS JOIN":
            node["on"] = self.join_condition(ls, rs, simple=typ == "FULL JOIN")
        return node, sc

    def join_condition(self, ls, rs, simple=False):
        l, r = self.column(ls, "int"), self.column(rs, "int")
        if l and r and l[1] is None:
            l[1] = l[4][0]
        if l and r and r[1] is None:
            r[1] = r[4][0]
        eq = ["cmp", "=", l, r] if l and r else ["bool", True]
        if simple or not self.d.flag(30):
            return eq
        save = self.o["subq"], self.o["unqualified"]
        self.o["subq"] = self.o["unqualified"] = False
        try:
            return ["and", [eq, self.bool_expr(ls + rs, 1)]]
        finally:
            self.o["subq"], self.o["unqualified"] = save

    # -- queries
    def named_query(self, outer=()):
        """A query whose output columns all have distinct known names."""
        d = self.d
        old = list(self.ctes)
        ctes = []
        if self.o["shadow"] and self.depth > 0 and d.flag(15):
            self.cte_list(ctes)
        qq, types = self.block(outer, named=True)
        if ctes:
            qq["ctes"] = ctes
        self.ctes = old
        return qq, types

    def block(self, outer=(), named=False, allow_order=True):
        d = self.d
        frm, scope = self.from_clause(outer)
        qq = {"targets": [], "from": frm}
        if d.flag(75):
            qq["where"] = self.bool_expr(scope, self.expr_depth, outer)
        types = []
        mode = d.weighted([(60, "plain"), (25 if self.o["agg"] else 0, "group"), (12 if self.o["agg"] else 0, "agg")])

        def name(typ, expr=None):
            taken = [n for n, _ in types]
            if self.o["shadow"] and named and expr is not None and expr[0] == "col" and expr[2] not in taken and d.flag(40):
                types.append((expr[2], typ))
                return None
            if named or d.flag(60):
                n = self.fresh("o")
                if self.o["shadow"] and d.flag(35):
                    other = d.choice([c for cols in SCHEMA.values() for c, _ in cols])
                    n = n if other in taken else other
                types.append((n, typ))
                return n
            types.append((None, typ))
            return None

        if mode == "plain":
            all_names = [c for s in scope for c, _ in s[1]]
            if self.o["star"] and d.flag(20) and (not named or (
                    self.o["shadow"] and len(set(all_names)) == len(all_names) and all(s[2] != "func" for s in scope))):
                if d.flag(60):
                    qq["targets"] = [["*"]]
                    types = [(c, t) for s in scope for c, t in s[1]] if all(s[2] != "func" for s in scope) else None
                else:
                    s = d.choice(scope)
                    qq["targets"] = [["t.*", s[0]]]
                    types = list(s[1]) if s[2] != "func" else None
            else:
                for _ in range(d.int(1, 3)):
                    typ = d.weighted([(70, "int"), (25, "text"), (5, "bool")])
                    if typ == "int" and self.o["windows"] and d.flag(8):
                        e = self.window(scope)
                    else:
                        e = getattr(self, typ + "_expr")(scope, self.expr_depth, outer)
                    qq["targets"].append([e, name(typ, e)])
                if d.flag(12):
                    qq["distinct"] = True
        else:
            keys = []
            if mode == "group":
                for _ in range(d.int(1, 2)):
                    c = self.column(scope, d.choice(["int", "text"]))
                    if c and c[:3] not in [x[:3] for x in keys]:
                        keys.append(c)
                if keys:
                    qq["group"] = keys
            for c in keys:
                if d.flag(80):
                    qq["targets"].append([c, name(c[3])])
            for _ in range(d.int(1, 2)):
                qq["targets"].append([self.aggregate(scope), name("int")])
            if d.flag(35) if keys else d.flag(10):
                qq["having"] = ["cmp", d.choice([">", "<=", "=", "<>"]), self.aggregate(scope), ["int", d.int(0, 5)]]
                if d.flag(25):
                    qq["having"] = [d.choice(["and", "or"]), [qq["having"],
                                    ["cmp", ">", self.aggregate(scope), ["int", d.int(0, 3)]]]]
        if allow_order and self.o["order"]:
            self.order_limit(qq, types, scope if mode == "plain" else None)
        return qq, types

    def order_limit(self, qq, types, scope):
        d = self.d
        if types is None or not d.flag(30):
            return
        if self.o["distinct_on"] and scope and not qq.get("distinct") and d.flag(20) and \
                qq["targets"][0][0] not in ("*", "t.*"):
            # DISTINCT ON with a total order over the output keeps the result well-defined
            if all(t[0][0] == "col" for t in qq["targets"]):
                qq["distinct_on"] = [qq["targets"][0][0]]
                if self.o["shadow"]:
                    for t in qq["targets"]:
                        t[0][1] = t[0][4][0]
                qq["order"] = [[t[0], self.dir(), self.nulls()] for t in qq["targets"]]
                return
        total = d.flag(60)
        star = qq["targets"][0][0] in ("*", "t.*")
        n = len(types)
        order = []
        for i in range(n):
            if not total and order:
                break
            nm = types[i][0]
            aliased = nm and not star and len(qq["targets"]) == n and qq["targets"][i][1] == nm
            key = ["col", None, nm, types[i][1], [None, "output"]] \
                if aliased and d.flag(50) else ["int", i + 1]
            order.append([key, self.dir(), self.nulls()])
        if scope and not qq.get("distinct") and self.o["subq"] and self.depth > 0 and d.flag(12):
            # a subquery as the last sort key: it cannot change a total order
            order.append([["ssq", self.scalar_query(list(scope))], self.dir(), self.nulls()])
        qq["order"] = order
        if total:
            if d.flag(50):
                qq["limit"] = d.int(0, 4)
                if d.flag(20):
                    qq["fetch"] = d.choice(["FIRST", "NEXT"])
                if d.flag(40):
                    qq["offset"] = d.int(0, 3)
            elif d.flag(20):
                qq["offset"] = d.int(0, 3)

    def dir(self):
        return self.d.choice([None, True, False])

    def nulls(self):
        return self.d.choice([None, None, True, False])

    def aggregate(self, scope):
        d = self.d
        f = d.choice(["count", "sum", "min", "max", "count*"])
        opt = {}
        if f != "count*" and d.flag(20):
            opt["distinct"] = True
        if d.flag(15):
            save = self.o["subq"]
            self.o["subq"] = False
            opt["filter"] = self.bool_expr(scope, 1)
            self.o["subq"] = save
        if f == "count*":
            return ["func", "count", [["star"]], opt]
        save = self.o["subq"]
        self.o["subq"] = False
        try:
            return ["func", f, [self.int_expr(scope, 1)], opt]
        finally:
            self.o["subq"] = save

    def window(self, scope):
        d = self.d
        f = d.choice(["count", "sum", "min", "max", "count*"])
        fn = ["func", "count", [["star"]], {}] if f == "count*" else ["func", f, [self.int_expr(scope, 1)], {}]
        part = [self.int_expr(scope, 1) for _ in range(d.int(0, 2))]
        order = [[self.int_expr(scope, 1), self.dir(), self.nulls()]] if d.flag(40) else []
        filt = self.bool_expr(scope, 0) if d.flag(25) else None
        return ["window", fn, part, order, filt]

    def setop_query(self, depth, outer=()):
        """Set operation over compatible blocks: every arm has the same int/text shape."""
        d = self.d
        shape = [d.choice(["int", "int", "text"]) for _ in range(d.int(1, 2))]
        names = [self.fresh("o") for _ in shape]
        return self._setop(depth, shape, names, outer), list(zip(names, shape))

    def _setop(self, depth, shape, names, outer):
        d = self.d
        if depth == 0 or d.flag(25):
            frm, scope = self.from_clause(outer)
            qq = {"targets": [[getattr(self, t + "_expr")(scope, 0), n] for t, n in zip(shape, names)], "from": frm}
            if d.flag(50):
                qq["where"] = self.bool_expr(scope, 1)
            if d.flag(20) and self.o["order"]:
                qq["order"] = [[["int", i + 1], self.dir(), self.nulls()] for i in range(len(shape))]
                if d.flag(70):
                    qq["limit"] = d.int(0, 4)
            return qq
        op = d.choice(["UNION", "UNION ALL", "INTERSECT", "EXCEPT"])
        qq = {"setop": op, "left": self._setop(depth - 1, shape, names, outer),
              "right": self._setop(depth - 1, shape, names, outer)}
        if d.flag(20) and self.o["order"]:
            qq["order"] = [[["int", i + 1], self.dir(), self.nulls()] for i in range(len(shape))]
            if d.flag(60):
                qq["limit"] = d.int(0, 5)
        return qq

    def cte_list(self, ctes):
        d = self.d
        for _ in range(d.int(1, 2)):
            name = self.fresh("cte")
            if self.o["shadow"] and d.flag(30):
                other = d.choice(list(SCHEMA))
                name = name if other in [c["name"] for c in ctes] else other
            mat = d.choice([None, None, True, False])
            if self.o["values"] and d.flag(20):
                cols = [(f"{name}i", "int"), (f"{name}t", "text")]
                rows = [[["int", d.int(-2, 6)], ["text", d.choice(self.texts)]] for _ in range(d.int(1, 3))]
                ctes.append({"name": name, "mat": mat, "rows": rows, "cols": [c for c, _ in cols]})
            else:
                old = self._nested()
                try:
                    if self.o["setops"] and d.flag(15):
                        qq, cols = self.setop_query(1)
                    else:
                        qq, cols = self.named_query()
                finally:
                    self._restore(old)
                ctes.append({"name": name, "mat": mat, "query": qq})
            self.ctes.append((name, cols))

    def query(self, outer=()):
        """Top-level query."""
        d = self.d
        ctes = []
        if self.o["ctes"] and self.depth > 0 and d.flag(50 if self.o["shadow"] else 22):
            self.cte_list(ctes)
        if self.o["setops"] and d.flag(15):
            qq, _ = self.setop_query(2)
        else:
            qq, _ = self.block()
        if ctes:
            qq["ctes"] = ctes
        return qq


DATA_VARIANTS = 3


def data_rows(variant: int):
    """Deterministic small relation contents with NULLs, duplicates and dangling keys."""
    import random
    rng = random.Random(7000 + variant)
    texts = ["x", "y", "ab", "", "o'k", "AB", None, "a_b", "b", "Ünï"]

    def i(lo=0, hi=6, nulls=0.15):
        return None if rng.random() < nulls else rng.randint(lo, hi)

    def b():
        return rng.choice([True, False, None])
    out = {}
    for name, cols in {**SCHEMA, **QUOTED}.items():
        rows = []
        for _ in range(rng.randint(4, 7)):
            rows.append(tuple(i() if t == "int" else rng.choice(texts) if t == "text" else b() for _, t in cols))
        rows.append(rows[0])  # a duplicate row
        out[name] = rows
    if variant == 2:
        out["m"] = []
    return out


DUCK_TYPES = {"int": "INTEGER", "text": "VARCHAR", "bool": "BOOLEAN"}


def qualified(node):
    """Copy of a query in which every column reference is qualified by the relation that provides it."""
    if isinstance(node, dict):
        return {k: qualified(v) for k, v in node.items()}
    if isinstance(node, list):
        if len(node) == 5 and node[0] == "col" and isinstance(node[4], list):
            ident, kind = node[4]
            return ["col", node[1] if kind == "output" else ident, *node[2:]]
        return [qualified(x) for x in node]
    return node
