"""Semantic normal form of a SQL text according to the real Postgres parser (pglast / libpg_query).

Differences that cannot change the meaning are removed: source locations, AND/OR nesting, NOT IN vs NOT(.. IN ..),
spelling of numeric constants, unknown-defaulted options, COUNT(x) vs count(x).
"""
from __future__ import annotations

import decimal
import json

import pglast.parser


class SqlSyntaxError(Exception):
    pass


def _flatten(op, args):
    out = []
    for a in args:
        if isinstance(a, dict) and set(a) == {"BoolExpr"} and a["BoolExpr"]["boolop"] == op:
            out.extend(a["BoolExpr"]["args"])
        else:
            out.append(a)
    return out


def _num(text: str):
    d = decimal.Decimal(text)
    return ["num", str(d.normalize())]


def _inline_values_cte(cte):
    """c AS (SELECT * FROM (VALUES ..) AS x(cols))  is the same as  c(cols) AS (VALUES ..)."""
    select = cte["ctequery"].get("SelectStmt", {})
    if "aliascolnames" in cte or set(select) - {"limitOption", "op"} != {"targetList", "fromClause"}:
        return
    if len(select["fromClause"]) != 1 or "RangeSubselect" not in select["fromClause"][0]:
        return
    if select["targetList"] != [{"ResTarget": {"val": {"ColumnRef": {"fields": [{"A_Star": {}}]}}}}]:
        return
    sub = select["fromClause"][0]["RangeSubselect"]
    inner = sub["subquery"].get("SelectStmt", {})
    if "valuesLists" not in inner or sub.get("lateral"):
        return
    if sub["alias"].get("colnames"):
        cte["aliascolnames"] = sub["alias"]["colnames"]
    cte["ctequery"] = sub["subquery"]


def _n(x):
    if isinstance(x, list):
        return [_n(y) for y in x]
    if not isinstance(x, dict):
        return x
    x = {k: _n(v) for k, v in x.items() if k not in ("location", "stmt_location", "stmt_len", "name_location", "list_start", "list_end", "rexpr_list_start", "rexpr_list_end", "funcformat")}
    if "BoolExpr" in x:
        b = x["BoolExpr"]
        op = b["boolop"]
        if op in ("AND_EXPR", "OR_EXPR"):
            b["args"] = _flatten(op, b["args"])
        elif op == "NOT_EXPR":
            arg = b["args"][0]
            ae = arg.get("A_Expr") if isinstance(arg, dict) else None
            if ae and ae["kind"] == "AEXPR_IN":
                flip = {"=": "<>", "<>": "="}[ae["name"][0]["String"]["sval"]]
                return {"A_Expr": {**ae, "name": [{"String": {"sval": flip}}]}}
            nt = arg.get("NullTest") if isinstance(arg, dict) else None
            if nt:
                flip = {"IS_NULL": "IS_NOT_NULL", "IS_NOT_NULL": "IS_NULL"}[nt["nulltesttype"]]
                return {"NullTest": {**nt, "nulltesttype": flip}}
    if "A_Const" in x:
        c = x["A_Const"]
        if "fval" in c:
            return {"A_Const": _num(c["fval"]["fval"])}
        if "ival" in c:
            return {"A_Const": _num(str(c["ival"].get("ival", 0)))}
    if "A_Expr" in x:
        ae = x["A_Expr"]
        if ae.get("kind") == "AEXPR_OP" and "lexpr" not in ae and ae["name"] == [{"String": {"sval": "+"}}]:
            pass
        if ae.get("kind") == "AEXPR_OP" and "lexpr" not in ae and ae["name"] == [{"String": {"sval": "-"}}]:
            r = ae["rexpr"]
            if isinstance(r, dict) and "A_Const" in r and isinstance(r["A_Const"], list):
                v = r["A_Const"][1]
                return {"A_Const": ["num", str(-decimal.Decimal(v))]}
    if "CommonTableExpr" in x:
        _inline_values_cte(x["CommonTableExpr"])
    if "A_Indirection" in x:  # ((a)[1])[2] = a[1][2]
        ind = x["A_Indirection"]
        inner = ind["arg"].get("A_Indirection") if isinstance(ind["arg"], dict) else None
        if inner:
            return {"A_Indirection": {"arg": inner["arg"], "indirection": inner["indirection"] + ind["indirection"]}}
    if "names" in x and "typemod" in x:  # a type name
        if len(x["names"]) == 2 and x["names"][0] == {"String": {"sval": "pg_catalog"}}:
            x["names"] = x["names"][1:]
        if "arrayBounds" in x:  # sizes and the number of dimensions are not enforced
            x["arrayBounds"] = True
    if "frameOptions" in x and x["frameOptions"] in (1059, 1058):  # the default frame, written explicitly or not
        x["frameOptions"] = 1058
    if "RangeFunction" in x:  # LATERAL is implied
        x["RangeFunction"].pop("lateral", None)
    if x.get("limitCount") == {"A_Const": {"isnull": True}}:  # LIMIT ALL
        del x["limitCount"]
        x["limitOption"] = "LIMIT_OPTION_DEFAULT"
    if "VariableSetStmt" in x:  # names of settings are case-insensitive
        x["VariableSetStmt"]["name"] = x["VariableSetStmt"].get("name", "").lower()
    if "ExplainStmt" in x:
        x["ExplainStmt"]["options"] = _explain_options(x["ExplainStmt"].get("options", []))
    return x


def _explain_options(options):
    out = {"analyze": False, "format": "text"}
    for o in options:
        o = o["DefElem"]
        arg = o.get("arg")
        if o["defname"] in ("analyze", "verbose", "costs", "buffers", "timing", "summary", "settings", "wal"):
            if arg is None:
                out[o["defname"]] = True
            elif "Integer" in arg:
                out[o["defname"]] = arg["Integer"].get("ival", 0) != 0
            else:
                out[o["defname"]] = arg["String"]["sval"].lower() in ("true", "on")
        else:
            out[o["defname"]] = arg["String"]["sval"].lower()
    return out


def parse(sql: str) -> dict:
    try:
        return json.loads(pglast.parser.parse_sql_json(sql))
    except pglast.parser.ParseError as e:
        raise SqlSyntaxError(str(e)) from None


def normal_form(sql: str):
    return _n([s["stmt"] for s in parse(sql)["stmts"]])


def comments(sql: str) -> list[str]:
    """All comments of the SQL text, as the Postgres scanner sees them."""
    return [sql[t.start:t.end + 1].strip() for t in pglast.parser.scan(sql) if t.name in ("C_COMMENT", "SQL_COMMENT")]


def valid(sql: str) -> bool:
    try:
        parse(sql)
        return True
    except SqlSyntaxError:
        return False


def first_difference(a, b, path=""):
    if type(a) is not type(b):
        return f"{path}: {a!r} vs {b!r}"
    if isinstance(a, dict):
        for k in sorted(set(a) | set(b)):
            if k not in a:
                return f"{path}/{k}: missing in the first, second has {b[k]!r}"
            if k not in b:
                return f"{path}/{k}: first has {a[k]!r}, missing in the second"
            d = first_difference(a[k], b[k], f"{path}/{k}")
            if d:
                return d
        return None
    if isinstance(a, list):
        for i, (x, y) in enumerate(zip(a, b)):
            d = first_difference(x, y, f"{path}[{i}]")
            if d:
                return d
        return None if len(a) == len(b) else f"{path}: lengths {len(a)} vs {len(b)}"
    return None if a == b else f"{path}: {a!r} vs {b!r}"


def difference_binding(orig, qual, got, path=""):
    """Difference of `got` to `orig`, where a column reference may also appear as it is written in `qual`.

    `orig` and `qual` are normal forms of the same query, the latter with every column qualified by its relation.
    """
    if isinstance(got, dict) and isinstance(orig, dict) and set(got) == {"ColumnRef"} and set(orig) == {"ColumnRef"}:
        return None if got in (orig, qual) else f"{path}: expected {orig!r} or {qual!r}, got {got!r}"
    if type(orig) is not type(got):
        return f"{path}: expected {orig!r}, got {got!r}"
    if isinstance(orig, dict):
        for k in sorted(set(orig) | set(got)):
            if k not in orig:
                return f"{path}/{k}: not in the original, printed has {got[k]!r}"
            if k not in got:
                return f"{path}/{k}: original has {orig[k]!r}, missing in the printed query"
            d = difference_binding(orig[k], qual[k], got[k], f"{path}/{k}")
            if d:
                return d
        return None
    if isinstance(orig, list):
        if len(orig) != len(got):
            return f"{path}: lengths {len(orig)} vs {len(got)}: {orig!r} vs {got!r}"
        for i, (x, y, z) in enumerate(zip(orig, qual, got)):
            d = difference_binding(x, y, z, f"{path}[{i}]")
            if d:
                return d
        return None
    return None if orig == got else f"{path}: expected {orig!r}, got {got!r}"
