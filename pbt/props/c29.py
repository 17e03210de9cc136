"""C29: pre-checks accept exactly the supported queries and databases, also in combination."""
from __future__ import annotations

from pbt import graphlib as gl
from pbt import pb
from pbt.draw import composite
from pbt.engine import Facet, fail, require
from pbt.stubdb import StubPostgres
from postbound import util
from postbound import validation as val
from postbound._core import IntermediateOperator, JoinOperator, ScanOperator
from postbound._hints import HintType

ASSUMPTIONS = ["each check is judged on queries for which its documentation is unambiguous"]
JOIN_TYPES = [("JOIN", True), ("INNER JOIN", True), ("LEFT JOIN", False), ("RIGHT JOIN", False), ("FULL JOIN", False), ("LEFT OUTER JOIN", False)]
PREDS = ["eq", "eq", "eq", "lt", "ne", "nested", "nested2", "or", "like"]


@composite
def query_strategy(d):
    n = d.int(1, 5)
    tabs = [[d.choice(gl.BASE), f"r{i}"] for i in range(n)]
    joins = []
    for i in range(1, n):
        for _ in range(d.weighted([(1, 0), (6, 1), (1, 2)])):
            joins.append([i, d.int(0, i - 1), d.choice(PREDS) if d.flag(35) else "eq"])
    style = d.choice(["implicit", "implicit", "explicit", "mixed"])
    types = [d.weighted([(8, 0), *((1, k) for k in range(1, len(JOIN_TYPES)))]) for _ in range(n)]
    return {"tabs": tabs, "joins": joins, "style": style, "types": types, "filters": d.int(0, 2), "sub": d.weighted([(5, []), (4, d.some(
        ["in", "correlated", "scalar", "from", "fromleft", "rightnested", "innernested", "cte", "crossfrom", "crossin", "crosscte", "func"], 1, 2))]), "set": d.flag(12), "flip": d.flag(30), "select": d.choice(["*", "count(*)", "r0.id"])}


def pred_sql(i, j, kind, flip):
    a, b = (f"r{j}", f"r{i}") if flip else (f"r{i}", f"r{j}")
    return {"eq": f"{a}.x = {b}.y", "lt": f"{a}.x < {b}.id", "ne": f"{a}.x <> {b}.id", "nested": f"{a}.x + 1 = {b}.y", "nested2": f"{a}.x = {b}.y - 2", "or": f"({a}.x = {b}.y OR {a}.z = {b}.z)",
            "like": f"{a}.x LIKE {b}.y"}[kind]


def render(spec):
    """SQL text and the ground truth about it"""
    n = len(spec["tabs"])
    where, used = [], set()
    expl = n if spec["style"] == "explicit" else 0 if spec["style"] == "implicit" else (n + 1) // 2     # the first `expl` tables use JOIN ... ON
    frm, joined, inner = [], "", True
    for i, (t, a) in enumerate(spec["tabs"]):
        name = f"{t} AS {a}"
        on = [pred_sql(i, j, k, spec["flip"]) for x, j, k in spec["joins"] if x == i]
        if 0 < i < expl:
            kw, ok = JOIN_TYPES[spec["types"][i]]
            if not on:
                on = [f"r{i}.z > 0"]
            joined += f" {kw} {name} ON {' AND '.join(on)}"
            inner &= ok
        else:
            if i == 0:
                joined = name
            else:
                frm.append(name)
            where += on
    frm = [joined] + frm
    has_join = expl > 1
    cte = ""
    for f in range(spec["filters"]):
        where.append(f"r{f % n}.y < {f + 3}")
    if "in" in spec["sub"]:
        where.append("r0.id IN (SELECT q.id FROM t1 AS q WHERE q.x > 2)")
    if "scalar" in spec["sub"]:
        where.append("r0.id < (SELECT max(q.id) FROM t2 AS q)")
    if "correlated" in spec["sub"]:
        where.append("EXISTS (SELECT 1 FROM t3 AS q WHERE q.id = r0.id)")
    if "from" in spec["sub"]:
        frm.append("(SELECT q.id, q.x FROM t0 AS q) AS v")
        where.append("v.id = r0.id")
    if "fromleft" in spec["sub"]:
        frm.append("(SELECT q.id, q.x FROM t0 AS q LEFT JOIN t1 AS p ON p.id = q.id) AS w")
        where.append("w.id = r0.id")
        inner = False
    for kind, jt in (("rightnested", "LEFT JOIN"), ("innernested", "JOIN")):
        if kind in spec["sub"] and spec["style"] == "implicit":  # the parser rejects several explicit joins in one FROM clause
            p = "n" + kind[0]
            frm.append(f"t0 AS {p}1 JOIN (t1 AS {p}2 {jt} t2 AS {p}3 ON {p}2.id = {p}3.id) ON {p}1.id = {p}2.id")
            where.append(f"{p}1.id = r0.id")
            inner &= jt == "JOIN"
    cross = False
    if "crossfrom" in spec["sub"]:      # not connected to the other tables
        frm.append("(SELECT u.id FROM t0 AS u WHERE u.x > 2) AS uu")
        cross = True
    if "crossin" in spec["sub"]:
        where.append("r0.id IN (SELECT q5.id FROM t1 AS q5, t2 AS q6)")
        cross = True
    if "func" in spec["sub"]:
        frm.append("generate_series(1, 3) AS gs")
        cross = True
    if "crosscte" in spec["sub"]:
        cte = "WITH d AS (SELECT q7.id FROM t1 AS q7, t2 AS q8 WHERE q7.x > q7.y AND q8.x < 4) "
        frm.append("d")
        where.append("d.id = r0.id")
        cross = True
    if "cte" in spec["sub"]:
        cte = (cte.strip() + ", " if cte else "WITH ") + "c AS (SELECT q.id FROM t1 AS q) "
        frm.append("c")
        where.append("c.id = r0.id")
    body = f"SELECT {spec['select']} FROM {', '.join(frm)}" + (" WHERE " + " AND ".join(where) if where else "")
    if spec["set"]:
        body = f"{body} UNION {body}"
    return cte + body, {"has_join": has_join, "inner": inner, "cross": cross}


def check_query(spec):
    sql, truth = render(spec)
    q = pb.parse(sql)
    n = len(spec["tabs"])
    sub = spec["sub"]
    nested = set(sub) - {"from", "fromleft", "rightnested", "innernested", "cte", "crosscte", "crossfrom", "func"}
    kinds = {k for _, _, k in spec["joins"]}
    flat = not sub
    edges = [frozenset((i, j)) for i, j, _ in spec["joins"]]
    want = []       # (check, expected)
    if flat:
        if not spec["set"]:
            want.append((val.ImplicitQueryPreCheck(), not truth["has_join"]))
        base = {"eq", "nested", "nested2"}
        want.append((val.EquiJoinPreCheck(), kinds <= {"eq"}))
        want.append((val.EquiJoinPreCheck(allow_nesting=True), kinds <= base))
        want.append((val.EquiJoinPreCheck(allow_conjunctions=True), kinds <= {"eq"}))
    want.append((val.CrossProductPreCheck(), gl.connected(range(n), edges) and not truth["cross"]))
    want.append((val.InnerJoinPreCheck(), truth["inner"]))
    if not spec["set"]:
        derived = "from" in sub or "fromleft" in sub or "crossfrom" in sub
        ctes = "cte" in sub or "crosscte" in sub
        if not ctes and not derived and "func" not in sub:
            want.append((val.SubqueryPreCheck(), not nested))
            want.append((val.VirtualTablesPreCheck(), True))
        if ctes or derived or "func" in sub:
            want.append((val.VirtualTablesPreCheck(), False))
        if derived:
            want.append((val.SubqueryPreCheck(), False))
        if not ctes:
            want.append((val.DependentSubqueryPreCheck(), "correlated" not in sub))
    want.append((val.SetOperationsPreCheck(), not spec["set"]))
    want.append((val.EmptyPreCheck(), True))
    for c, expected in want:
        res = c.check_supported_query(q)
        require(res.passed is expected, "%s %s %s", c, "accepts" if res.passed else "rejects", q)
        require(expected or res.failure_reason, "%s fails without any reason", c)
        require(not expected or not res.failure_reason, "%s passes with the failure reason %s", c, res.failure_reason)
        raises(lambda: res.ensure_all_passed(q), None if expected else val.UnsupportedQueryError, c)
    merged = val.merge_checks([c for c, _ in want])
    res = merged.check_supported_query(q)
    require(res.passed == all(e for _, e in want), "merged check %s %s %s", merged, "accepts" if res.passed else "rejects", q)
    single = [c.check_supported_query(q) for c, _ in want]
    for res in (res, val.PreCheckResult.merge(single), val.PreCheckResult.merge(single[::-1])):
        require(res.passed == all(e for _, e in want), "merged results %s", single)
        reasons = {r for s in single for r in util.enlist(s.failure_reason) if r}
        require({r for r in util.enlist(res.failure_reason) if r} == reasons, "the merged check has failure reasons %s, the checks have %s: %s",
                res.failure_reason, sorted(reasons), q)
    raises(lambda: res.ensure_all_passed(q), None if res.passed else val.UnsupportedQueryError, merged)
    util.to_json(merged.describe())


def raises(fn, exc, what):
    try:
        fn()
    except Exception as e:
        require(exc is not None and type(e) is exc, "%s raises %s: %s", what, type(e).__name__, e)
        str(e)
        return
    require(exc is None, "%s does not raise %s", what, exc and exc.__name__)


# ---------------------------------------------------------------- combinations

HINTS = [h for kind in (ScanOperator, JoinOperator, IntermediateOperator, HintType) for h in kind]


@composite
def merge_strategy(d):
    def leaf():
        kind = d.weighted([(4, "hints"), (3, "custom"), (1, "empty"), (2, "builtin"), (1, "none")])
        if kind == "hints":
            return ["hints", [d.int(0, len(HINTS) - 1) for _ in range(d.int(1, 3))]]
        if kind == "custom":
            return ["custom", d.choice(["", "", "a", "b"]), d.flag(70), d.flag(70), d.flag(50)]
        if kind == "builtin":
            return ["builtin", d.int(0, 3)]
        return [kind]

    def tree(depth):
        if depth and d.flag(30):
            return ["all", d.choice(["compound", "merge", "merge-args"]), [tree(depth - 1) for _ in range(d.int(1, 3))]]
        return leaf()
    return {"checks": [tree(2) for _ in range(d.int(0, 5))], "db": d.subset(range(len(HINTS)), 75), "args": d.flag(30)}


def check_merge(spec):
    db = StubPostgres([], None)
    db.hinting().ops = {HINTS[i] for i in spec["db"]}
    q = pb.parse("SELECT * FROM t0, t1")            # fails the cross product check
    builtin = [val.CrossProductPreCheck, val.EquiJoinPreCheck, lambda: val.EquiJoinPreCheck(allow_nesting=True), val.SubqueryPreCheck]
    calls = []

    def make(c, path):
        """-> (check, passes the query, passes the database)"""
        if c[0] == "hints":
            hints = [HINTS[i] for i in c[1]]
            return val.SupportedHintCheck(hints if len(hints) > 1 else hints[0]), True, set(hints) <= db.hinting().ops
        if c[0] == "custom":
            def qc(query):
                calls.append(path)
                return val.PreCheckResult(c[2], "" if c[2] else f"bad {path}")

            def dc(database):
                calls.append(path)
                return val.PreCheckResult(c[3], "" if c[3] else (["one", "two"] if c[4] else "one"))
            return val.CustomCheck(*([c[1]] if c[1] else []), query_check=qc, db_check=dc), c[2], c[3]
        if c[0] == "builtin":
            return builtin[c[1]](), c[1] != 0, True
        if c[0] == "empty":
            return val.EmptyPreCheck(), True, True
        if c[0] == "none":
            return None, True, True
        parts = [make(x, path + (i,)) for i, x in enumerate(c[2])]
        ok_q, ok_db = all(p[1] for p in parts), all(p[2] for p in parts)
        checks = [p[0] for p in parts]
        if c[1] == "compound":
            return val.CompoundCheck([x for x in checks if x is not None]), ok_q, ok_db
        if c[1] == "merge-args" and checks[0] is not None:
            return val.merge_checks(checks[0], *checks[1:]), ok_q, ok_db
        return val.merge_checks(checks), ok_q, ok_db
    parts = [make(c, (i,)) for i, c in enumerate(spec["checks"])]
    checks = [p[0] for p in parts]
    merged = val.merge_checks(checks[0], *checks[1:]) if spec["args"] and checks and checks[0] is not None else val.merge_checks(checks)
    require(isinstance(merged, val.OptimizationPreCheck), "merged checks: %r", merged)
    for res, ok, ctx, exc in [(merged.check_supported_query(q), all(p[1] for p in parts), q, val.UnsupportedQueryError),
                              (merged.check_supported_database_system(db), all(p[2] for p in parts), db, val.UnsupportedSystemError)]:
        require(res.passed is ok, "%s: result %s instead of %s", merged, res, ok)
        raises(lambda: res.ensure_all_passed(ctx), None if ok else exc, merged)
    str(merged), repr(merged), util.to_json(merged.describe())


# ---------------------------------------------------------------- identity of checks

KINDS = [lambda: val.ImplicitQueryPreCheck(), lambda: val.CrossProductPreCheck(), lambda: val.VirtualTablesPreCheck(), lambda: val.EquiJoinPreCheck(),
         lambda: val.EquiJoinPreCheck(allow_nesting=True), lambda: val.EquiJoinPreCheck(allow_conjunctions=True), lambda: val.EquiJoinPreCheck(allow_conjunctions=True, allow_nesting=True),
         lambda: val.InnerJoinPreCheck(), lambda: val.SubqueryPreCheck(), lambda: val.DependentSubqueryPreCheck(), lambda: val.SetOperationsPreCheck(), lambda: val.EmptyPreCheck(),
         lambda: val.SupportedHintCheck(HINTS[0]), lambda: val.SupportedHintCheck([HINTS[0], HINTS[1]]), lambda: val.SupportedHintCheck([HINTS[1], HINTS[0]]), lambda: val.SupportedHintCheck(HINTS[1])]
IDENTITY = [*range(13), 13, 13, 15]


@composite
def identity_strategy(d):
    return {"checks": [d.int(0, len(KINDS) - 1) for _ in range(d.int(1, 4))], "other": d.int(0, len(KINDS) - 1), "nest": d.flag(40)}


def check_identity(spec):
    made = [KINDS[i]() for i in spec["checks"]]
    ids = [IDENTITY[i] for i in spec["checks"]]
    other, oid = KINDS[spec["other"]](), IDENTITY[spec["other"]]
    for c, i in zip(made, ids):
        require((c == other) == (i == oid) == (other == c), "%s == %s is %s", c, other, c == other)
        require(i != oid or hash(c) == hash(other), "%s and %s are equal with different hashes", c, other)
        require((other in c) == (i == oid), "%s in %s", other, c)
    compound = val.CompoundCheck([*made[:1], val.CompoundCheck(made[1:])] if spec["nest"] and len(made) > 1 else made)
    require(oid == 11 or (other in compound) == (oid in ids), "%s in %s is %s", other, compound, other in compound)
    require(len({*made}) == len({*ids}), "set of %s", made)


FACETS = [
    Facet("identity", identity_strategy, check_identity, quick=600, thorough=6000, rule="lists of built-in and hint checks; non-trivial: several checks",
          nontrivial=lambda s: len(s["checks"]) > 1),
    Facet("queries", query_strategy, check_query, quick=1500, thorough=40000, shards=4,
          rule="queries over 1-5 relations built from known features (join syntax and types, join predicates, nested/correlated queries, CTEs, set operations); "
               "non-trivial: at least 2 relations and a feature that some check rejects",
          nontrivial=lambda s: len(s["tabs"]) > 1 and (bool(s["sub"]) or s["set"] or s["style"] != "implicit" or any(k != "eq" for _, _, k in s["joins"])),
          classify=lambda s: [s["style"], *s["sub"], *(["set"] if s["set"] else [])]),
    Facet("combinations", merge_strategy, check_merge, quick=1500, thorough=40000, shards=3,
          rule="nested combinations of hint, custom, built-in and empty checks; non-trivial: at least two checks",
          nontrivial=lambda s: len(s["checks"]) >= 2, classify=lambda s: sorted({c[0] for c in s["checks"]})),
]
