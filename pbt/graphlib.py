"""Join-graph shaped queries: relations, binary join predicates, filters, and a schema with keys and indexes."""
from __future__ import annotations

import itertools

from pbt import pb
from postbound import TableReference
from postbound._core import ColumnReference

BASE = ["t0", "t1", "t2", "t3"]
COLS = ["id", "x", "y", "z"]


def gen_graph(d, lo=1, hi=6, *, connected=False, max_extra=3, multi=20):
    """{"tabs": [[base, alias]], "joins": [[i, ci, j, cj]]} - every relation is named t0..t3 or has an alias."""
    n = d.int(lo, hi)
    used, tabs = set(), []
    for i in range(n):
        base = d.choice(BASE)
        alias = f"{base[0]}{'abcdefgh'[i]}" if base in used or d.flag(40) else ""
        used.add(base)
        tabs.append([base, alias])
    joins = []
    shape = d.choice(["tree", "star", "chain", "cycle", "clique", "sparse"])
    if connected and shape == "sparse":
        shape = "tree"

    def add(i, j):
        for _ in range(2 if d.flag(multi) else 1):
            ci = d.weighted([(4, "id"), (3, "x"), (2, "y"), (1, "z")])
            cj = d.weighted([(3, "id"), (3, "x"), (2, "y"), (1, "z")])
            a, b = ([i, ci], [j, cj]) if d.flag(50) else ([j, cj], [i, ci])
            if a + b not in joins and b + a not in joins:
                joins.append(a + b)
    for i in range(1, n):
        if shape == "sparse":
            if d.flag(45):
                add(i, d.int(0, i - 1))
        elif shape == "star":
            add(i, 0)
        elif shape in ("chain", "cycle"):
            add(i, i - 1)
        elif shape == "clique" and n <= 4:
            for j in range(i):
                add(i, j)
        else:
            add(i, d.int(0, i - 1))
    if shape == "cycle" and n > 2:
        add(0, n - 1)
    if n > 2 and d.flag(35):
        for _ in range(d.int(1, max_extra)):
            i = d.int(1, n - 1)
            add(i, d.int(0, i - 1))
    return {"tabs": tabs, "joins": d.permutation(joins)}


def name(g, i):
    return g["tabs"][i][1] or g["tabs"][i][0]


def tab(g, i):
    return TableReference(g["tabs"][i][0], g["tabs"][i][1])


def col(g, i, c):
    return ColumnReference(c, tab(g, i))


def where(g, extra=()):
    return [f"{name(g, i)}.{ci} = {name(g, j)}.{cj}" for i, ci, j, cj in g["joins"]] + list(extra)


def sql(g, extra=(), select="*"):
    fr = ", ".join(b + (f" AS {a}" if a else "") for b, a in g["tabs"])
    preds = where(g, extra)
    return f"SELECT {select} FROM {fr}" + (" WHERE " + " AND ".join(preds) if preds else "")


def edges(g, idx=None):
    """{frozenset({i, j}): [join, ...]}"""
    out = {}
    for j in g["joins"]:
        if idx is None or (j[0] in idx and j[2] in idx):
            out.setdefault(frozenset((j[0], j[2])), []).append(j)
    return out


def components(nodes, edge_keys):
    nodes, out = set(nodes), []
    while nodes:
        comp, todo = set(), [min(nodes)]
        while todo:
            x = todo.pop()
            if x in comp:
                continue
            comp.add(x)
            todo += [y for e in edge_keys if x in e for y in e if y != x and y in nodes]
        out.append(comp)
        nodes -= comp
    return out


def connected(idx, edge_keys):
    return len(components(idx, [e for e in edge_keys if e <= set(idx)])) == 1


def csg(n, edge_keys):
    """all connected subsets of 0..n-1"""
    return [frozenset(s) for k in range(1, n + 1) for s in itertools.combinations(range(n), k) if connected(s, edge_keys)]


def closure(joins):
    """All binary joins implied by the column equalities (different relations only)."""
    cols = {}
    for i, ci, j, cj in joins:
        cols.setdefault((i, ci), set()).add((j, cj))
        cols.setdefault((j, cj), set()).add((i, ci))
    out, seen = [], set()
    for c in cols:
        if c in seen:
            continue
        comp, todo = set(), [c]
        while todo:
            x = todo.pop()
            if x not in comp:
                comp.add(x)
                todo += cols[x]
        seen |= comp
        out += [[*a, *b] for a, b in itertools.combinations(sorted(comp), 2) if a[0] != b[0]]
    return out


def schema_stub(keys: dict):
    """A DatabaseSchema over t0..t3(id, x, y, z); keys = {"t0.id": "pk" | "idx"}."""
    base = pb.fake_schema({t: COLS for t in BASE})

    class _Keyed(type(base)):
        def is_primary_key(self, column):
            return keys.get(f"{column.table.full_name}.{column.name}") == "pk"

        def has_secondary_index(self, column):
            return keys.get(f"{column.table.full_name}.{column.name}") == "idx"

        def has_index(self, column):
            return keys.get(f"{column.table.full_name}.{column.name}") in ("pk", "idx")

        def indexes_on(self, column):
            return {f"ix_{column.table.full_name}_{column.name}"} if self.has_index(column) else set()

        def primary_key_column(self, table):
            from postbound import BoundColumnReference
            name = table if isinstance(table, str) else table.full_name
            return next((BoundColumnReference(c, TableReference(name)) for c in COLS if keys.get(f"{name}.{c}") == "pk"), None)
    return _Keyed()


def gen_keys(d):
    keys = {}
    for t in BASE:
        keys[f"{t}.id"] = d.weighted([(8, "pk"), (1, "idx"), (1, "")])
        for c in COLS[1:]:
            keys[f"{t}.{c}"] = d.weighted([(5, "idx"), (5, "")])
    return {k: v for k, v in keys.items() if v}
