"""C06: join equivalence classes are exactly the transitive closure of the equi-joins and never change a query's result."""
from __future__ import annotations

import itertools

from pbt import duck, pb
from pbt import predgen as pg
from pbt.draw import composite
from pbt.engine import Facet, fail, require
from postbound import qal, transform
from postbound._core import ColumnReference, TableReference

ASSUMPTIONS = ["an equi-join that forms equivalence classes is `column = column` between different relations"]


class UnionFind:
    def __init__(self):
        self.parent = {}

    def find(self, x):
        self.parent.setdefault(x, x)
        while self.parent[x] != x:
            x = self.parent[x]
        return x

    def union(self, a, b):
        self.parent[self.find(a)] = self.find(b)

    def classes(self):
        out = {}
        for x in self.parent:
            out.setdefault(self.find(x), set()).add(x)
        return {frozenset(c) for c in out.values() if len(c) > 1}


def is_equi(p):
    return p[0] == "cmp" and p[1] == "=" and p[2][0] == p[3][0] == "col" and p[2][1] != p[3][1]


def conjuncts(p):
    return [x for c in p[1] for x in conjuncts(c)] if p and p[0] == "and" else [p] if p else []


def col(rels, rel, name):
    return ColumnReference(name, TableReference(rels[rel][0], rels[rel][1] or ""))


@composite
def spec_strategy(d):
    rels = pg.gen_relations(d, 2, 5)
    n = len(rels)
    parts = []
    if d.flag(15):  # one column is equal to many others
        i = d.int(0, n - 1)
        hub = ["col", i, d.choice(pg.INT_COLS)]
        others = [["col", j, c] for j in range(n) if j != i for c in pg.INT_COLS]
        for x in d.some(others, 3, min(6, len(others))):
            parts.append(["cmp", "=", *((hub, x) if d.flag(50) else (x, hub))])
    for _ in range(d.int(1, 6)):
        k = d.weighted([(60, "eq"), (10, "same"), (10, "expr"), (10, "op"), (15, "pred"), (8, "or")])
        i = d.int(0, n - 1)
        j = (i + d.int(1, n - 1)) % n
        a, b = ["col", i, d.choice(pg.INT_COLS)], ["col", j, d.choice(pg.INT_COLS)]
        if k == "eq":
            parts.append(["cmp", "=", a, b])
        elif k == "same":
            parts.append(["cmp", "=", a, ["col", i, d.choice(pg.INT_COLS)]])
        elif k == "expr":
            x = d.choice([["math", d.choice(["+", "-", "*"]), a, ["int", d.int(0, 2)]], ["abs", a], ["cast", a, "bigint"]])
            parts.append(["cmp", "=", *((x, b) if d.flag(50) else (b, x))])
        elif k == "op":
            parts.append(["cmp", d.choice(["<", "<=", "<>", "IS DISTINCT FROM", "IS NOT DISTINCT FROM"]), a, b])
        elif k == "pred":
            parts.append(pg.gen_pred(d, n, 1, subq=d.flag(40)))
        else:
            parts.append(["or", [["cmp", "=", a, b], pg.gen_base(d, n, False)]])
    return {"rels": rels, "parts": parts, "variant": d.int(0, 2), "nested": d.flag(20)}


def query_of(spec):
    rels = spec["rels"]
    where = " AND ".join(pg.rx(p, rels) for p in spec["parts"])
    return f"SELECT * FROM {pg.rfrom(rels)} WHERE {where}"


def model(spec):
    uf = UnionFind()
    for p in spec["parts"]:
        for c in conjuncts(p):
            if is_equi(c):
                uf.union(tuple(c[2][1:]), tuple(c[3][1:]))
    return uf.classes()


def pairs_of(pred):
    """(column, column) if the predicate is a plain equality of columns."""
    if isinstance(pred, qal.BinaryPredicate) and pred.operation == qal.LogicalOperator.Equal \
            and isinstance(pred.first_argument, qal.ColumnExpression) and isinstance(pred.second_argument, qal.ColumnExpression):
        return frozenset((pred.first_argument.column, pred.second_argument.column))
    return None


def flat(p):
    if isinstance(p, qal.CompoundPredicate) and p.operation == qal.CompoundOperator.And:
        return [x for c in p.children for x in flat(c)]
    return [p]


def check(spec):
    pb.reset()
    rels = spec["rels"]
    sql = query_of(spec)
    query = pb.parse(sql, pb.gen_schema())
    classes = {frozenset(col(rels, *c) for c in cls) for cls in model(spec)}
    conj = flat(query.where_clause.predicate)
    if spec["nested"] and len(conj) > 2:
        conj = [qal.CompoundPredicate.create_and(conj[:2]), *conj[2:]]
    got = qal.determine_join_equivalence_classes(flat(qal.CompoundPredicate.create_and(conj)) if spec["nested"] else conj)
    require({frozenset(c) for c in got} == classes, "equivalence classes of %s: %s, expected %s", sql, got, classes)
    generated = qal.generate_predicates_for_equivalence_classes(got)
    want_pairs = {frozenset(p) for cls in classes for p in itertools.combinations(cls, 2)}
    require({pairs_of(p) for p in generated} == want_pairs and len(generated) == len(want_pairs),
            "predicates of the equivalence classes of %s: %s, expected all of %s", sql, generated, want_pairs)
    expanded = transform.add_ec_predicates(query)
    require(str(query) == str(pb.parse(sql, pb.gen_schema())), "add_ec_predicates changed the query %s", sql)
    have = flat(expanded.where_clause.predicate)
    equalities = {pairs_of(p) for p in have}
    require(want_pairs <= equalities, "add_ec_predicates(%s) = %s lacks %s", sql, expanded, want_pairs - equalities)
    original = {pairs_of(p) or p for p in flat(query.where_clause.predicate)}
    for p in have:
        require((pairs_of(p) or p) in original or pairs_of(p) in want_pairs, "add_ec_predicates(%s) invents %s", sql, p)
    try:
        before = duck.run(sql, spec["variant"])
    except duck.ExecError:
        return
    try:
        after = duck.run(str(expanded), spec["variant"])
    except duck.ExecError as e:
        fail(f"add_ec_predicates({sql}) = {expanded} cannot be executed: {e}")
    if not duck.same(before, after, False):
        fail(f"add_ec_predicates changes the result of {sql} ({len(before)} rows) to {len(after)} rows: {expanded}")
    again = transform.add_ec_predicates(expanded)
    require({pairs_of(p) or p for p in flat(again.where_clause.predicate)} == {pairs_of(p) or p for p in have},
            "add_ec_predicates is not idempotent: %s -> %s", expanded, again)


def transitive(spec):
    return any(len(c) > 2 for c in model(spec))


FACETS = [
    Facet("classes", spec_strategy, check, quick=2500, thorough=60000, shards=6,
          rule="2-5 relations (incl. self joins), 1-6 conjuncts: equi-joins, same-relation equalities, expressions, other operators, ORs, random "
               "predicates, subqueries; union-find model, generated predicates, expanded query compared and executed on DuckDB; "
               "non-trivial: some class has more than two columns",
          nontrivial=transitive, classify=lambda s: [str(len(s["parts"])), *sorted({p[0] for p in s["parts"]})]),
]
