"""C13: the join graph of a query and its state while tables are joined."""
from __future__ import annotations

import itertools

from pbt import graphlib as gl
from pbt import pb
from pbt.draw import composite
from pbt.engine import Facet, fail, require
from postbound.opt import JoinGraph
from postbound.qal import CompoundPredicate, CompoundOperator
from postbound.util.nx import nx_bfs_tree  # noqa: F401  (documents what is exercised through the graph)

ASSUMPTIONS = ["joins are conjunctions of equalities between two columns; predicates over more columns only have to be tolerated"]


@composite
def graph_strategy(d):
    g = gl.gen_graph(d, 1, 6)
    n = len(g["tabs"])
    extra = [f"{gl.name(g, d.int(0, n - 1))}.{d.choice(gl.COLS)} {d.choice(['= 1', '> 3', 'IS NOT NULL', 'IN (1, 2)'])}" for _ in range(d.int(0, 2))]
    odd = []
    if n > 2 and d.flag(15):
        a, b, c = d.some(range(n), 3, 3)
        odd.append(f"{gl.name(g, a)}.x + {gl.name(g, b)}.y = {gl.name(g, c)}.z")
    return {"g": g, "keys": gl.gen_keys(d), "extra": extra, "odd": odd, "ec": d.flag(30),
            "mark": [[i, d.choice(["infer", "path"])] for i in (d.some(range(n), 0, n) if d.flag(20) else walk(d, g))],
            "sets": [d.subset(range(n), 40), d.subset(range(n), 40)], "fork": d.int(0, n), "order": d.permutation(range(n))}


def walk(d, g):
    """an order in which connected tables follow each other"""
    n, es = len(g["tabs"]), gl.edges(g)
    order = [d.int(0, n - 1)]
    while len(order) < n and not d.flag(8):
        nxt = [i for i in range(n) if i not in order and any(frozenset((i, j)) in es for j in order)] or [i for i in range(n) if i not in order]
        order.append(d.choice(nxt))
    return order


class Model:
    """Reference: plain dictionaries over relation numbers."""

    def __init__(self, spec):
        self.g, self.keys, self.n = spec["g"], spec["keys"], len(spec["g"]["tabs"])
        joins = gl.closure(self.g["joins"]) if spec["ec"] else self.g["joins"]
        self.edge = {}
        for j in joins:
            self.edge.setdefault(frozenset((j[0], j[2])), []).append(j)
        self.free = set(range(self.n))
        self.index = {}
        for i, ci, j, cj in joins:
            for t, c in ((i, ci), (j, cj)):
                self.index[(t, c)] = [self.keys.get(f"{self.g['tabs'][t][0]}.{c}", "none"), True]

    def copy(self):
        m = object.__new__(Model)
        m.__dict__.update(self.__dict__)
        m.free, m.index = set(self.free), {k: list(v) for k, v in self.index.items()}
        return m

    def initial(self):
        return len(self.free) == self.n

    def pairs(self, a, b):
        return [((i, ci), (j, cj)) if i == a else ((j, cj), (i, ci)) for i, ci, j, cj in self.edge.get(frozenset((a, b)), [])]

    def pk_fk(self, fk, pk):
        return any(self.index[f][1] and self.index[f][0] != "none" and self.index[p] == ["pk", True] for f, p in self.pairs(fk, pk))

    def n_m(self, a, b):
        return frozenset((a, b)) in self.edge and not self.pk_fk(a, b) and not self.pk_fk(b, a)

    def available(self, a, b):
        return frozenset((a, b)) in self.edge and (self.initial() or (a in self.free) != (b in self.free))

    def mark(self, t, partners=None):
        self.free.discard(t)
        joined = set(range(self.n)) - self.free
        partners = [p for p in (joined - {t} if partners is None else partners) if frozenset((t, p)) in self.edge]
        if len(joined) == 1 or not partners:
            return
        kinds = {p: (self.pk_fk(t, p), self.pk_fk(p, t)) for p in partners}
        cols = [pair for p in partners for pair in self.pairs(t, p)]
        for p, (t_is_fk, t_is_pk) in kinds.items():
            if t_is_fk and t_is_pk:
                continue
            for mine, theirs in cols:
                if not t_is_pk:
                    self.index[theirs][1] = False
                if not t_is_fk:
                    self.index[mine][1] = False
            if not t_is_fk:
                for other, info in self.index.items():
                    if other[0] in joined and other[0] != p:
                        info[1] = False


def conj(pred):
    if isinstance(pred, CompoundPredicate) and pred.operation == CompoundOperator.And:
        return [x for c in pred.children for x in conj(c)]
    return [pred]


def pred_key(pred):
    """A join predicate as the set of its column equalities."""
    return frozenset(frozenset(p.columns()) for p in conj(pred))


def check_state(jg, m: Model, spec, what):
    g, T = m.g, [gl.tab(m.g, i) for i in range(m.n)]
    R = range(m.n)
    num = {t: i for i, t in enumerate(T)}

    def want_pred(i, j):
        return frozenset(frozenset((gl.col(g, *a), gl.col(g, *b))) for a, b in m.pairs(i, j))

    # mapping view
    require(set(jg) == set(T) and len(jg) == m.n and all(t in jg for t in T), "%s: tables %s", what, list(jg))
    for i in R:
        info = jg[T[i]]
        require(info.free == (i in m.free) == jg.is_free_table(T[i]), "%s: state of %s: %s", what, T[i], info)
        got = {x.column.name: ("pk" if x.is_primary() else "idx" if x.is_secondary() else "") for x in info.index_info}
        want = {c: (k if ok and k != "none" else "") for (t, c), (k, ok) in m.index.items() if t == i}
        if spec["odd"]:
            got = {c: v for c, v in got.items() if c in want}
        require(got == want, "%s: indexes of %s: %s, expected %s", what, T[i], got, want)
    require(jg.initial() == m.initial() and jg.contains_free_tables() == bool(m.free), "%s: initial/free state", what)
    require(jg.count_consumed_tables() == m.n - len(m.free), "%s: consumed tables %s", what, jg.count_consumed_tables())
    require(jg.free_tables() == {T[i] for i in m.free} and jg.joined_tables() == {T[i] for i in R if i not in m.free}, "%s: free/joined tables", what)
    comps = gl.components(R, m.edge)
    require(jg.contains_cross_products() == (len(comps) > 1), "%s: contains_cross_products %s", what, jg.contains_cross_products())
    # edges
    require(sorted(map(sorted, (map(str, e) for e in jg.all_joins()))) == sorted(sorted(str(T[i]) for i in e) for e in m.edge), "%s: joins %s", what,
            jg.all_joins())
    nxg = jg.nx_graph()
    require(set(nxg.nodes) == set(T) and {frozenset(e) for e in nxg.edges} == {frozenset(T[i] for i in e) for e in m.edge}, "%s: nx graph", what)
    for i, j in itertools.permutations(R, 2):
        e = frozenset((i, j)) in m.edge
        require(jg.joins_tables(T[i], T[j]) == e, "%s: joins_tables(%s, %s)", what, T[i], T[j])
        require(jg.is_available_join(T[i], T[j]) == m.available(i, j), "%s: is_available_join(%s, %s)", what, T[i], T[j])
        require(jg.is_pk_fk_join(T[i], T[j]) == m.pk_fk(i, j), "%s: is_pk_fk_join(%s, %s) is %s", what, T[i], T[j], not m.pk_fk(i, j))
        require(jg.is_n_m_join(T[i], T[j]) == m.n_m(i, j), "%s: is_n_m_join(%s, %s)", what, T[i], T[j])
        got = jg.join_predicates_between(T[i], T[j])
        require([pred_key(p) for p in got] == ([want_pred(i, j)] if e else []), "%s: join_predicates_between(%s, %s): %s", what, T[i], T[j], got)
    if any(m.n_m(i, j) and m.available(i, j) for i, j in itertools.combinations(R, 2)):
        require(jg.contains_free_n_m_joins(), "%s: there are available n:m joins", what)
    if not any(m.n_m(*e) and set(e) & m.free for e in m.edge):
        require(not jg.contains_free_n_m_joins(), "%s: there are no free n:m joins", what)
    # paths
    def paths(ps, directed):
        out = []
        for p in ps:
            i, j = num[p.start_table], num[p.target_table]
            require(pred_key(p.join_condition) == want_pred(i, j), "%s: path %s on %s", what, p, p.join_condition)
            require(p.tables() == (T[i], T[j]) and p.spans_table(T[i]) and p.spans_table(T[j]) and p.flip_direction().flip_direction() == p, "path %s", p)
            out.append((i, j) if directed else tuple(sorted((i, j))))
        return sorted(out)

    def want_paths(keep, both):
        out = []
        for e in m.edge:
            i, j = sorted(e)
            if not m.available(i, j) or not keep(i, j):
                continue
            if m.initial():
                out += [(i, j), (j, i)] if both else [(i, j)]
            else:
                out.append((i, j) if j in m.free else (j, i))
        return sorted(out)
    for both in (False, True):
        directed = both or not m.initial()
        require(paths(jg.available_join_paths(both_directions_on_initial=both), directed) == want_paths(lambda i, j: True, both),
                "%s: available_join_paths(%s): %s", what, both, jg.available_join_paths(both_directions_on_initial=both))
        require(paths(jg.available_n_m_join_paths(both_directions_on_initial=both), directed) == want_paths(m.n_m, both),
                "%s: available_n_m_join_paths(%s): %s", what, both, jg.available_n_m_join_paths(both_directions_on_initial=both))
    for i in R:
        require(paths(jg.available_join_paths_for(T[i]), True) == sorted((i, j) for j in R if m.available(i, j)), "%s: available_join_paths_for(%s)", what, T[i])
        want = sorted((i, j) for j in R if j != i and m.pk_fk(i, j) and {i, j} & m.free)
        require(paths(jg.available_pk_fk_joins_for(T[i]), True) == want, "%s: available_pk_fk_joins_for(%s): %s", what, T[i], jg.available_pk_fk_joins_for(T[i]))
        cand = [k for k in spec["sets"][0]]
        require(jg.join_partners_from(T[i], [T[k] for k in cand]) == {T[k] for k in cand if frozenset((i, k)) in m.edge}, "%s: join_partners_from(%s)", what, T[i])
        if m.initial():
            check_deep(jg, m, T, num, i, spec, what)
    # predicates between sets
    a, b = spec["sets"]
    within = {want_pred(i, j) for i, j in itertools.combinations(a, 2) if frozenset((i, j)) in m.edge}
    got = [pred_key(p) for p in jg.join_predicates_between([T[i] for i in a])]
    require(set(got) == within, "%s: join_predicates_between(%s)", what, [T[i] for i in a])
    b = [k for k in b if k not in a]
    if b:
        across = {want_pred(i, j) for i in a for j in b if frozenset((i, j)) in m.edge}
        require({pred_key(p) for p in jg.join_predicates_between([T[i] for i in a], {T[i] for i in b})} == across, "%s: predicates between %s and %s", what,
                [T[i] for i in a], [T[i] for i in b])


def check_deep(jg, m, T, num, i, spec, what):
    """Breadth-first over the directed key joins."""
    level, frontier, lvl = {i: 0}, [i], 0
    while frontier:
        lvl += 1
        nxt = [j for j in range(m.n) if j not in level and any(m.pk_fk(k, j) for k in frontier)]
        for j in nxt:
            level[j] = lvl
        frontier = nxt
    weight = {T[k]: w for w, k in enumerate(spec["order"])}
    for ordering in (None, lambda t, edge: weight[t]):
        got = list(jg.available_deep_pk_join_paths_for(T[i], ordering))
        tgt = [num[p.target_table] for p in got]
        require(sorted(tgt) == sorted(set(level) - {i}), "%s: deep joins of %s: %s, expected targets %s", what, T[i], got,
                [str(T[k]) for k in sorted(set(level) - {i})])
        require(all(level[tgt[k]] <= level[tgt[k + 1]] for k in range(len(tgt) - 1)), "%s: deep joins of %s are not breadth-first: %s", what, T[i], got)
        seen = {i}
        for p in got:
            require(num[p.start_table] in seen and m.pk_fk(num[p.start_table], num[p.target_table]), "%s: deep join %s of %s is no key join from an earlier table",
                    what, p, T[i])
            seen.add(num[p.target_table])
        if ordering is not None:
            # siblings: tables with the same parents in the search
            for a, b in itertools.combinations(got, 2):
                ta, tb = num[a.target_table], num[b.target_table]
                pa = {k for k in level if level[k] == level[ta] - 1 and m.pk_fk(k, ta)}
                pb_ = {k for k in level if level[k] == level[tb] - 1 and m.pk_fk(k, tb)}
                if level[ta] == level[tb] and pa == pb_ and len(pa) == 1:
                    require(weight[a.target_table] < weight[b.target_table], "%s: deep joins of %s ignore the ordering: %s", what, T[i], got)


def check_graph(spec):
    g = spec["g"]
    q = pb.parse(gl.sql(g, spec["extra"] + spec["odd"]))
    schema = gl.schema_stub(spec["keys"])
    jg = JoinGraph(q, schema, include_predicate_equivalence_classes=spec["ec"])
    m = Model(spec)
    T = [gl.tab(g, i) for i in range(m.n)]
    check_state(jg, m, spec, "initial")
    fork = None
    for step, (i, how) in enumerate(spec["mark"]):
        if step == spec["fork"]:
            fork = (jg.clone(), m.copy())
        what = f"after joining {[str(T[k]) for k, _ in spec['mark'][:step + 1]]}"
        paths = [p for p in jg.available_join_paths() if p.target_table == T[i]] if not m.initial() else []
        if how == "path" and paths:
            p = min(paths, key=str)
            jg.mark_joined(T[i], p.join_condition)
            m.mark(i, [T.index(p.start_table)])
        elif spec["odd"] and not m.initial():
            jg.mark_joined(T[i])
            m.mark(i)
        else:
            jg.mark_joined(T[i])
            m.mark(i)
        check_state(jg, m, spec, what)
    if fork:
        check_state(fork[0], fork[1], spec, "clone after the original was changed")
    # components
    fresh = JoinGraph(q, schema, include_predicate_equivalence_classes=spec["ec"])
    comps = gl.components(range(m.n), Model(spec).edge)
    got = list(fresh.join_components())
    require({frozenset(c) for c in got} == {frozenset(T[i] for i in c) for c in comps} and len(got) == len(comps), "components %s", [list(c) for c in got])
    for c in got:
        keep = sorted(T.index(t) for t in c)
        sub = {"g": {"tabs": [g["tabs"][i] for i in keep],
                     "joins": [[keep.index(i), a, keep.index(j), b] for i, a, j, b in g["joins"] if i in keep]},
               "keys": spec["keys"], "ec": spec["ec"], "odd": spec["odd"], "sets": [list(range(len(keep))), []], "order": list(range(len(keep)))}
        check_state(c, Model(sub), sub, "component")


FACETS = [
    Facet("graph", graph_strategy, check_graph, quick=2500, thorough=40000, shards=8,
          rule="queries over 1-6 (also repeated) tables with tree/star/chain/cycle/clique/disconnected equi-joins, random keys and indexes, equivalence "
               "classes on/off; histories of mark_joined/clone; non-trivial: at least 3 tables and 2 marked",
          nontrivial=lambda s: len(s["g"]["tabs"]) >= 3 and len(s["mark"]) >= 2, classify=lambda s: ["ec" if s["ec"] else "plain", "odd" if s["odd"] else "binary"]),
]
