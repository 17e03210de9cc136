"""C05: predicates are split into filters and joins by the documented rules, and nothing gets lost."""
from __future__ import annotations

import collections
import itertools

import networkx as nx

from pbt import duck, pb, predgen as pg
from pbt.draw import composite
from pbt.engine import Facet, fail, require
from postbound import ColumnReference, TableReference, qal

ASSUMPTIONS = ["the documented rules of AbstractPredicate.is_join and QueryPredicates"]


@composite
def pred_spec(d):
    rels = pg.gen_relations(d)
    n = len(rels)
    parts = [pg.gen_pred(d, n) for _ in range(d.weighted([(20, 1), (35, 2), (30, 3), (15, 5)]))]
    root = parts[0] if len(parts) == 1 else pg.connect("and", parts)
    return {"rels": rels, "p": root, "on": d.flag(25), "a": d.subset(range(n)), "b": d.subset(range(n)),
            "extra": pg.gen_pred(d, n, 1)}


def build(spec, p):
    """The predicate object for a predicate specification."""
    sql = f"SELECT * FROM {pg.rfrom(spec['rels'])} WHERE {pg.rx(p, spec['rels'])}"
    return pb.parse(sql).where_clause.predicate


def tab(spec, i):
    name, alias = spec["rels"][i]
    return TableReference(name, alias or "")


def col(spec, c):
    return ColumnReference(c[1], tab(spec, c[0]))


def parts_of(pred):
    """Conjuncts of an aggregated predicate (None = no predicate)."""
    if pred is None:
        return frozenset()
    if isinstance(pred, qal.CompoundPredicate) and pred.operation == qal.CompoundOperator.And:
        return frozenset().union(*[parts_of(c) for c in pred.children])
    return frozenset([pred])


def flat(preds):
    return frozenset().union(*[parts_of(p) for p in preds])


def same(what, got, want, sql):
    if got != want:
        fail(f"{what}: {got}, expected {want} for {sql}")


def names(tables):
    return {t.identifier() for t in tables}


def pred_check(spec):
    pb.reset()
    rels, root = spec["rels"], spec["p"]
    idents = [pg.ident(r) for r in rels]
    body = pg.rx(root, rels)
    if spec["on"] and len(rels) > 1:
        frm = pg.rfrom(rels[:1]) + "".join(f" JOIN {pg.rfrom([r])} ON {'TRUE' if i < len(rels) - 2 else body}"
                                           for i, r in enumerate(rels[1:]))
        sql = f"SELECT * FROM {frm}"
        if len(rels) > 2:
            sql = f"SELECT * FROM {pg.rfrom(rels[:-1])} JOIN {pg.rfrom(rels[-1:])} ON {body}"
    else:
        sql = f"SELECT * FROM {pg.rfrom(rels)} WHERE {body}"
    query = pb.parse(sql)
    predicates = query.predicates()
    whole = build(spec, root)
    require(predicates.root == whole, "predicates() is %s, expected %s", predicates.root, whole)

    for node in {id(p): p for p in walk_preds(root)}.values():
        check_predicate(spec, node, build(spec, node), sql)

    filters = [build(spec, p) for p in pg.decompose(root, False)]
    join_specs = pg.decompose(root, True)
    joins = [build(spec, p) for p in join_specs]
    same("filters()", set(predicates.filters()), set(filters), sql)
    same("joins()", set(predicates.joins()), set(joins), sql)
    same("query.filters()", set(query.filters()), set(filters), sql)
    same("query.joins()", set(query.joins()), set(joins), sql)
    same("iteration", set(predicates), set(filters) | set(joins), sql)
    require(bool(predicates) and not predicates.is_empty(), "predicates() is considered empty: %s", sql)

    tables = [tab(spec, i) for i in range(len(rels))]
    pair_tables = [{frozenset(idents[i] for i, _ in pair) for pair in pg.partners(p)} for p in join_specs]
    distinct = dict(zip(joins, pair_tables))
    filter_specs = pg.decompose(root, False)
    for i, t in enumerate(tables):
        want = flat(f for f, p in zip(filters, filter_specs) if idents[i] in pg.sub_tables(p, rels))
        same(f"filters_for({t})", parts_of(predicates.filters_for(t)), want, sql)
        same(f"query.filters_for({t})", parts_of(query.filters_for(t)), want, sql)
        groups = collections.defaultdict(set)
        for j, p in zip(joins, join_specs):
            if idents[i] in pg.sub_tables(p, rels):
                partner = frozenset(x for pair in pg.partners(p) for x in (idents[k] for k, _ in pair)
                                    if idents[i] in (idents[k] for k, _ in pair) and x != idents[i])
                groups[partner].add(j)
        got = collections.Counter(parts_of(p) for p in predicates.joins_for(t))
        same(f"joins_for({t})", got, collections.Counter(flat(g) for g in groups.values()), sql)

    def between(a, b):
        return {j for j, pairs in distinct.items()
                if any(frozenset((idents[x], idents[y])) in pairs for x in a for y in b if x != y)}
    for a, b in [((i,), (j,)) for i, j in itertools.permutations(range(len(rels)), 2)] + [(spec["a"], spec["b"])]:
        want = flat(between(a, b))
        args = [tables[i] for i in a], [tables[i] for i in b]
        if len(a) == len(b) == 1:
            args = args[0][0], args[1][0]
        for mode in ("map", "graph", "legacy"):
            got = parts_of(predicates.joins_between(*args, _computation=mode))
            same(f"joins_between({args}, {mode})", got, want, sql)
        same(f"query.joins_between({args})", parts_of(query.joins_between(*args)), want, sql)

    all_pairs = set().union(*pair_tables) if pair_tables else set()
    for size in range(1, len(rels) + 1):
        for combo in itertools.combinations(range(len(rels)), size):
            g = nx.Graph()
            g.add_nodes_from(idents[i] for i in combo)
            g.add_edges_from(tuple(p) for p in all_pairs if p <= set(g.nodes))
            want = nx.is_connected(g) if size > 1 else idents[combo[0]] in pg.sub_tables(root, rels)
            got = predicates.joins_tables([tables[i] for i in combo])
            require(got == want, "joins_tables(%s) is %s for %s", [idents[i] for i in combo], got, sql)
            require(query.joins_tables(*[tables[i] for i in combo]) == want, "joins_tables(*%s) is not %s for %s", combo, want, sql)

    graph = query.join_graph()
    same("join graph nodes", names(graph.nodes), pg.sub_tables(root, rels), sql)
    same("join graph edges", {frozenset(names(e)) for e in graph.edges}, all_pairs, sql)
    for node, data in graph.nodes(data=True):
        same(f"predicate of {node}", parts_of(data["predicate"]), parts_of(predicates.filters_for(node)), sql)
    for x, y, data in graph.edges(data=True):
        pair = frozenset(names((x, y)))
        same(f"predicate of {x} - {y}", parts_of(data["predicate"]), flat(j for j, ps in distinct.items() if pair in ps), sql)
    merged = query.join_graph(merge_aliases=True)
    base_of = {pg.ident(r): r[0] for r in rels}
    for n in itertools.chain.from_iterable(pg.walk(p) for p in [root]):
        for s in pg.subs(n):
            base_of.setdefault(s["table"][1], s["table"][0])
    same("merged nodes", {t.full_name for t in merged.nodes}, {base_of[x] for x in pg.sub_tables(root, rels)}, sql)
    same("merged edges", {frozenset(t.full_name for t in e) for e in merged.edges},
         {frozenset(base_of[x] for x in p) for p in all_pairs}, sql)
    for x, y, data in merged.edges(data=True):
        mine = {p for p in all_pairs if frozenset(base_of[i] for i in p) == frozenset((x.full_name, y.full_name))}
        same(f"aliased pairs of {x} - {y}", {frozenset(names(k)) for k in data["predicate"]}, mine, sql)
        for key, pred in data["predicate"].items():
            pair = frozenset(names(key))
            same(f"merged predicate of {pair}", parts_of(pred), flat(j for j, ps in distinct.items() if pair in ps), sql)
    for node, data in merged.nodes(data=True):
        same(f"aliases of {node}", names(data["aliases"]), {x for x in pg.sub_tables(root, rels) if base_of[x] == node.full_name}, sql)

    # simplification keeps meaning
    simple = predicates.simplify()
    for view in simple:
        check_view(view, sql, rels)
    want_simple = {build(spec, p) for p in filter_specs if plain_filter(p)} | {build(spec, p) for p in join_specs if plain_join(p)}
    got_simple = {v.unwrap() for v in simple}
    require(want_simple <= got_simple, "simplify() misses %s for %s", want_simple - got_simple, sql)
    wrappable = all(qal.SimpleFilter.can_wrap(p) for p in filters) and all(qal.SimpleJoin.can_wrap(p) for p in joins)
    require(predicates.all_simple() == (len(got_simple) == len(set(filters) | set(joins))) == wrappable,
            "all_simple() is %s but %s of %s predicates are simple: %s", predicates.all_simple(), len(got_simple),
            len(set(filters) | set(joins)), sql)

    extra = build(spec, spec["extra"])
    merged_preds = predicates.and_(extra)
    same("filters() of and_()", set(merged_preds.filters()), set(filters) | {build(spec, p) for p in pg.decompose(spec["extra"], False)}, sql)
    same("joins() of and_()", set(merged_preds.joins()), set(joins) | {build(spec, p) for p in pg.decompose(spec["extra"], True)}, sql)
    require(set(predicates.filters()) == set(filters), "and_() changed its receiver: %s", sql)
    empty = qal.QueryPredicates.empty_predicate()
    require(set(empty.and_(predicates).filters()) == set(filters) and predicates.and_(empty) == predicates and not empty,
            "and_() with the empty predicate is wrong for %s", sql)


def plain_col(e):
    return e[0] == "col" or e[0] == "cast" and plain_col(e[1])


def plain_filter(p):
    if p[0] == "cmp" and not is_set(p):
        l, r = p[2], p[3]
        return (plain_col(l) and r[0] == "int") or (plain_col(r) and l[0] == "int")
    if p[0] == "between":
        return plain_col(p[1]) and p[2][0] == "int" and p[3][0] == "int"
    if p[0] == "in":
        return plain_col(p[1]) and all(v[0] == "int" for v in p[2])
    return False


def is_set(p):
    return False


def plain_join(p):
    return p[0] == "cmp" and p[1] == "=" and plain_col(p[2]) and plain_col(p[3])


def check_view(view, sql, rels):
    raw = view.unwrap()
    require(hash(view) == hash(raw) and view == raw, "view %s differs from its predicate", view)
    if isinstance(view, qal.SimpleJoin):
        require(view.columns() == raw.columns() and {view.lhs, view.rhs} == raw.columns(), "join view of %s has columns %s", raw, view.columns())
        require(view.joins(view.lhs.table) and view.joins(view.rhs) and view.partner_of(view.lhs) == view.rhs
                and view.partner_of(view.rhs.table) == view.lhs.table, "partners of %s are wrong", raw)
        require(view.is_join() and not view.is_filter() and raw.join_partners() == view.join_partners(), "join view %s is no join", raw)
        return
    require(view.is_filter() and view.column in raw.columns(), "filter view of %s is on %s", raw, view.column)
    if "CAST" in str(raw) or "::" in str(raw):
        return
    op, value = view.operation, view.value
    if op == qal.LogicalOperator.Between:
        rebuilt = f"{view.column} BETWEEN {value[0]} AND {value[1]}"
    elif op == qal.LogicalOperator.In:
        rebuilt = f"{view.column} IN ({', '.join(str(v) for v in value)})"
    elif op in (qal.LogicalOperator.Is, qal.LogicalOperator.IsNot) or value is None:
        rebuilt = f"{view.column} {op.value} NULL"
    else:
        rebuilt = f"{view.column} {op.value} " + (f"'{value}'" if isinstance(value, str) else str(value))
    for a in ("NULL", "0", "1", "3", "6"):
        for b in ("NULL", "3"):
            row = ", ".join(f"(SELECT {a} a, {b} b, {b} c) {pg.ident(r)}" for r in rels)
            try:
                x = duck.run(f"SELECT {raw} FROM {row}")
            except duck.ExecError:
                continue
            y = duck.run(f"SELECT {rebuilt} FROM {row}")
            require(x == y, "filter %s was unwrapped as %s", raw, rebuilt)


def walk_preds(p):
    yield p
    if p[0] in ("and", "or"):
        for c in p[1]:
            yield from walk_preds(c)
    elif p[0] == "not":
        yield from walk_preds(p[1])


def check_predicate(spec, p, obj, sql):
    rels = spec["rels"]
    what = f"{obj}"
    require(obj.is_join() == pg.is_join(p) and obj.is_filter() == (not pg.is_join(p)), "is_join() of %s is %s", what, obj.is_join())
    require(obj.is_compound() == pg.is_compound(p) and obj.is_base() != obj.is_compound(), "is_compound() of %s is wrong", what)
    same(f"tables() of {what}", names(obj.tables()), pg.sub_tables(p, rels), sql)
    same(f"required_tables() of {what}", names(obj.required_tables()), pg.required(p, rels), sql)
    same(f"base_predicates() of {what}", set(obj.base_predicates()), {build(spec, b) for b in pg.bases(p)}, sql)
    own = {(pg.ident(rels[i]), c) for i, c in pg.cols(p)}
    got = {(c.table.identifier(), c.name) for c in obj.columns()}
    require(own <= got, "columns() of %s is %s, expected %s", what, got, own)
    for t in [tab(spec, i) for i in range(len(rels))]:
        require(obj.contains_table(t) == (t.identifier() in pg.sub_tables(p, rels)), "contains_table(%s) of %s is wrong", t, what)
        same(f"columns_of({t})", {c.name for c in obj.columns_of(t)}, {c for x, c in got if x == t.identifier()}, sql)
    if not pg.is_join(p):
        try:
            res = obj.join_partners()
        except qal.NoJoinPredicateError:
            res = None
        require(not res, "filter %s has join partners %s", what, res)
        return
    pairs = pg.partners(p)
    want = {frozenset(col(spec, c) for c in pair) for pair in pairs}
    result = obj.join_partners()
    same(f"join_partners() of {what}", {frozenset(x) for x in result}, want, sql)
    require(len(result) == len(want), "join_partners() of %s lists a pair twice: %s", what, result)
    for i in range(len(rels)):
        t = tab(spec, i)
        mine = {col(spec, c) for pair in pairs for c in pair if any(x == i for x, _ in pair) and c[0] != i}
        same(f"join_partners_of({t}) of {what}", set(obj.join_partners_of(t)), mine, sql)
        require(obj.joins_table(t) == bool(mine), "joins_table(%s) of %s is wrong", t, what)
        for k in range(len(rels)):
            if k != i:
                both = {pg.ident(rels[i]), pg.ident(rels[k])} <= pg.sub_tables(p, rels)
                require(obj.joins_tables(t, tab(spec, k)) == both, "joins_tables(%s, %s) of %s is wrong", t, tab(spec, k), what)
    for pair in pairs:
        a, b = (col(spec, c) for c in sorted(pair))
        require(obj.joins_columns(a, b) and obj.joins_columns(b, a), "joins_columns(%s, %s) of %s is wrong", a, b, what)


FACETS = [
    Facet("decomposition", pred_spec, pred_check, quick=900, thorough=20000, shards=8,
          rule="random predicate over 2-4 relations incl. self-joins, OR/NOT nesting, BETWEEN/IN/functions over several tables and "
               "(correlated) subqueries, in WHERE or ON; filters, joins, join partners, per-table lookups, join graph, views and "
               "conjunction compared with the documented rules; non-trivial: contains at least one join and one filter",
          nontrivial=lambda s: bool(pg.decompose(s["p"], True)) and bool(pg.decompose(s["p"], False)),
          classify=lambda s: sorted({n[0] for n in pg.walk(s["p"])}) + [f"rels:{len(s['rels'])}"]),
]
