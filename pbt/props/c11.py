"""C11: join trees, operator assignments and plan parameters behave like the mappings and trees they stand for."""
from __future__ import annotations

import json
import math

from pbt.draw import composite
from pbt.engine import Facet, fail, require
from pbt.planlib import (INTERS, JOINS, SCANS, TABLES, build_tree, card, depth, gen_shape, joins_post, leaves, linear, nodes, same_num,
                         strip, tab, tabs)
from postbound import opt
from postbound._core import Cardinality, IntermediateOperator, JoinOperator, ScanOperator
from postbound._hints import (DirectionalJoinOperatorAssignment, JoinOperatorAssignment, JoinTree, LogicalJoinTree,
                              PhysicalOperatorAssignment, PlanParameterization, ScanOperatorAssignment, parameters_from_plan)
from postbound.opt._helpers import jointree_from_sequence, read_operator_json
from postbound.util import StateError, jsonize

ASSUMPTIONS = ["a join tree references each table once"]
NT = len(TABLES)


# ---------------------------------------------------------------- join trees

def gen_ann(d):
    return d.weighted([(4, None), (6, d.int(0, 10 ** 6)), (1, "nan"), (1, "inf")])


@composite
def tree_strategy(d):
    ls = d.some(range(NT), 1, 7)
    t = gen_shape(d, ls, gen_ann)
    return {"tree": t, "logical": d.flag(50), "needle": d.subset(range(NT), 40), "other": d.choice(["same", "ann", "swap", "relabel", "fresh"]),
            "fresh": gen_shape(d, d.some(ls, 1, len(ls)), gen_ann), "new_ann": gen_ann(d), "at": d.int(0, 20),
            "steps": [[i, d.choice(["inner", "outer"]), d.choice(["table", "tree"]), gen_ann(d), gen_ann(d)] for i in d.some(range(NT), 0, 6)]}


def ann_eq(got, want, logical):
    if want is None:
        return got is None
    return same_num(got, float(want) if want in ("nan", "inf") else want) if logical else got == want


def first_subtree(t, needle):
    """The (unique) subtree over exactly these leaves."""
    return next((n for n in nodes(t) if set(leaves(n)) == needle), None)


def compare(jt, t, logical, what):
    """jt must be exactly the tree t."""
    require(type(jt) is (LogicalJoinTree if logical else JoinTree), "%s: type of %s is %s", what, jt, type(jt).__name__)
    require(ann_eq(jt.annotation, t[-1], logical), "%s: annotation of %s: %s, expected %s", what, jt, jt.annotation, t[-1])
    if logical:
        require(jt.cardinality is jt.annotation or jt.cardinality == jt.annotation, "%s: cardinality of %s", what, jt)
    require(jt.is_scan() == (t[0] == "s") and jt.is_join() == (t[0] == "j") and not jt.is_empty() and bool(jt), "%s: kind of %s", what, jt)
    if t[0] == "s":
        require(jt.base_table == tab(t[1]) and tuple(jt.children) == (), "%s: leaf %s", what, jt)
        return
    require(len(jt.children) == 2 and jt.children[0] is jt.outer_child and jt.children[1] is jt.inner_child, "%s: children of %s", what, jt)
    compare(jt.outer_child, t[1], logical, what)
    compare(jt.inner_child, t[2], logical, what)


def text(t):
    return tab(t[1]).identifier() if t[0] == "s" else f"({text(t[1])} ⋈ {text(t[2])})"


def check_tree(spec):
    t, logical = spec["tree"], spec["logical"]
    jt = build_tree(t, logical)
    compare(jt, t, logical, "construction")
    ls = leaves(t)
    require(jt.tables() == set(tabs(ls)) and len(jt) == len(ls), "tables of %s", jt)
    require(list(jt.itertables()) == tabs(ls), "itertables of %s: %s", jt, jt.itertables())
    require([strip_jt(n) for n in jt.iternodes()] == [strip(n) for n in nodes(t)], "iternodes of %s", jt)
    require([strip_jt(n) for n in jt.iterjoins()] == [strip(n) for n in joins_post(t)], "iterjoins of %s", jt)
    require(jt.plan_depth() == depth(t), "depth of %s", jt)
    for node, want in zip(jt.iternodes(), nodes(t)):
        require(node.is_linear() == linear(want) and node.is_bushy() != linear(want), "shape of %s", node)
        require(node.is_base_join() == (want[0] == "j" and want[1][0] == want[2][0] == "s"), "is_base_join of %s", node)
    require(str(jt) == text(t), "text %s, expected %s", jt, text(t))
    shown = jt.inspect()
    require(len(shown.splitlines()) == len(nodes(t)) and all(str(x) in shown for x in tabs(ls)), "inspect of %s: %s", jt, shown)

    # lookup
    needles = [set(spec["needle"])] + [set(leaves(n)) for n in nodes(t)]
    for needle in needles:
        if not needle:
            continue
        want = first_subtree(t, needle)
        for arg in (set(tabs(needle)), tabs(sorted(needle)), frozenset(tabs(needle))) + ((tab(next(iter(needle))),) if len(needle) == 1 else ()):
            got = jt.lookup(arg)
            if want is None:
                require(got is None and arg not in jt, "lookup(%s) in %s: %s", arg, jt, got)
            else:
                require(got is not None and arg in jt, "lookup(%s) in %s: nothing found", arg, jt)
                compare(got, want, logical, "lookup")

    # equality
    again = build_tree(t, logical)
    require(again == jt and hash(again) == hash(jt), "equal trees differ: %s", jt)
    other = {"same": t, "ann": reann(t), "swap": swap(t, spec["at"]), "relabel": relabel(t), "fresh": spec["fresh"]}[spec["other"]]
    o = build_tree(other, logical)
    same = strip(other) == strip(t)
    require((o == jt) == (jt == o) == same and (o != jt) == (not same), "equality of %s and %s", jt, o)
    if same:
        require(hash(o) == hash(jt), "hash of %s", jt)

    # JSON
    dumped = jsonize.to_json(jt)
    for arg in (dumped, json.loads(dumped)):
        back = opt.read_jointree_json(arg)
        compare(back, t, logical, "JSON")
        require(back == jt and hash(back) == hash(jt), "JSON round trip of %s: %s", jt, back)

    # immutable updates
    if t[0] == "j" or True:
        upd = jt.update_annotation(card(spec["new_ann"]) if logical else spec["new_ann"])
        compare(upd, t[:-1] + [spec["new_ann"]], logical, "update_annotation")
        compare(jt, t, logical, "update_annotation changed the original")
        require(upd == jt, "update_annotation changed the structure")

    # growing a tree step by step
    cls = LogicalJoinTree if logical else JoinTree
    cur, model = cls.empty(), None
    require(cur.is_empty() and not cur and cur.tables() == set() and len(cur) == 0 and list(cur.iternodes()) == [] and
            list(cur.itertables()) == [] and list(cur.iterjoins()) == [] and cur.plan_depth() == 0 and cur == cls.empty(), "empty tree")
    for access in ("annotation", "base_table", "outer_child", "inner_child", "children"):
        try:
            getattr(cur, access)
        except StateError:
            continue
        fail(f"{access} of an empty tree")
    for i, direction, form, ann, pann in spec["steps"]:
        conv = card if logical else (lambda x: x)
        partner = tab(i) if form == "table" else cls.scan(tab(i), annotation=conv(7))
        before = model
        res = cur.join_with(partner, annotation=conv(ann), partner_annotation=conv(pann), partner_direction=direction)
        leaf = ["s", i, pann if form == "table" or pann is not None else 7]
        new = leaf if model is None else ["j", model, leaf, ann] if direction == "inner" else ["j", leaf, model, ann]
        compare(res, new, logical, "join_with")
        if before is not None:
            compare(cur, before, logical, "join_with changed its input")
        cur, model = res, new
    grown = jt.join_with(cls.empty())
    compare(grown, t, logical, "join_with(empty)")
    compare(cls.empty().join_with(jt), t, logical, "empty.join_with")

    # sequences
    seq = to_seq(t)
    compare_structure(jointree_from_sequence(seq), t, "jointree_from_sequence")

    if logical:
        params = parameters_from_plan(jt)
        want = {frozenset(tabs(leaves(n))): n[-1] for n in nodes(t) if n[-1] is not None and n[-1] != "nan"}
        require(set(params.cardinalities) == set(want) and all(same_num(params.cardinalities[k], float(v)) for k, v in want.items())
                and not params.parallel_workers, "parameters_from_plan(%s): %s", jt.inspect(), params)


def compare_structure(jt, t, what):
    require(strip_jt(jt) == strip(t), "%s: %s, expected %s", what, jt, text(t))


def to_seq(t):
    return tab(t[1]) if t[0] == "s" else (to_seq(t[1]), to_seq(t[2]))


INDEX = {tab(i): i for i in range(NT)}


def strip_jt(jt):
    return ["s", INDEX[jt.base_table]] if jt.is_scan() else ["j", strip_jt(jt.outer_child), strip_jt(jt.inner_child)]


def reann(t):
    return ["s", t[1], 99] if t[0] == "s" else ["j", reann(t[1]), reann(t[2]), 99]


def swap(t, at):
    js = joins_post(t)
    if not js:
        return t
    target = js[at % len(js)]

    def go(n):
        if n[0] == "s":
            return n
        a, b = go(n[1]), go(n[2])
        return ["j", b, a, n[3]] if n is target else ["j", a, b, n[3]]
    return go(t)


def relabel(t):
    ls = leaves(t)
    free = [i for i in range(NT) if i not in ls]
    if not free:
        return t

    def go(n):
        if n[0] == "s":
            return ["s", free[0] if n[1] == ls[0] else n[1], n[2]]
        return ["j", go(n[1]), go(n[2]), n[3]]
    return go(t)


# ---------------------------------------------------------------- operator assignments (model based)

def gen_tset(d, lo=2):
    return sorted(d.some(range(5), lo, 4))


def gen_op(d):
    k = d.weighted([(6, "scan"), (6, "join"), (2, "djoin"), (3, "inter"), (4, "global"), (2, "overwrite")])
    if k == "scan":
        return [k, d.choice(SCANS), d.int(0, 4), d.choice(["ref", "list", "assign", "add", "addassign", "workers"]), d.int(1, 4)]
    if k == "join":
        return [k, d.choice(JOINS), gen_tset(d), d.choice(["set", "add", "assign", "addassign", "workers"]), d.int(1, 4)]
    if k == "djoin":
        ts = d.some(range(5), 2, 4)
        c = d.int(1, len(ts) - 1)
        return [k, d.choice(JOINS), ts[:c], ts[c:], d.choice([None, 1, 3])]
    if k == "inter":
        return [k, d.choice(INTERS), gen_tset(d, 1), d.choice(["set", "add"])]
    return [k, d.choice(SCANS + JOINS + INTERS), d.flag(50)]


@composite
def ops_strategy(d):
    return {"ops": [gen_op(d) for _ in range(d.int(0, 9))], "other": [gen_op(d) for _ in range(d.int(0, 6))],
            "perm": d.int(0, 1000), "probe": [sorted(d.subset(range(5), 45)) for _ in range(3)],
            "workers": [[gen_tset(d, 1), d.int(1, 8)] for _ in range(d.int(0, 3))], "tweak": gen_op(d)}


def opr(name):
    for e in (ScanOperator, JoinOperator, IntermediateOperator):
        if name in e.__members__:
            return e[name]
    raise KeyError(name)


class Model:
    """global: name->bool; scans: i->(name, workers); joins: frozenset->(name, workers, outer, inner); inters: frozenset->name"""

    def __init__(self):
        self.g, self.s, self.j, self.i = {}, {}, {}, {}

    def copy(self):
        m = Model()
        m.g, m.s, m.j, m.i = dict(self.g), dict(self.s), dict(self.j), dict(self.i)
        return m

    def key(self):
        return (self.g, self.s, self.j, self.i)


def apply(a, m, op):
    k = op[0]
    if k == "scan":
        _, name, i, form, w = op
        workers = None
        if form == "ref":
            r = a.set_scan_operator(opr(name), tab(i))
        elif form == "list":
            r = a.set_scan_operator(opr(name), [tab(i)])
        elif form == "assign":
            r = a.set_scan_operator(ScanOperatorAssignment(opr(name), tab(i)))
        elif form == "add":
            r = a.add(opr(name), tab(i))
        elif form == "addassign":
            r = a.add(ScanOperatorAssignment(opr(name), tab(i)))
        else:
            workers = w
            r = a.add(ScanOperatorAssignment(opr(name), tab(i), w))
        m.s[i] = (name, workers)
    elif k == "join":
        _, name, ts, form, w = op
        workers = None
        if form == "set":
            r = a.set_join_operator(opr(name), set(tabs(ts)))
        elif form == "add":
            r = a.add(opr(name), tabs(ts))
        elif form == "assign":
            r = a.set_join_operator(JoinOperatorAssignment(opr(name), tabs(ts)))
        elif form == "addassign":
            r = a.add(JoinOperatorAssignment(opr(name), frozenset(tabs(ts))))
        else:
            workers = w
            r = a.add(JoinOperatorAssignment(opr(name), tabs(ts), parallel_workers=w))
        m.j[frozenset(ts)] = (name, workers, None, None)
    elif k == "djoin":
        _, name, outer, inner, w = op
        kw = {} if w is None else {"parallel_workers": w}
        r = a.add(DirectionalJoinOperatorAssignment(opr(name), tabs(inner), tabs(outer), **kw))
        m.j[frozenset(outer + inner)] = (name, w, frozenset(outer), frozenset(inner))
    elif k == "inter":
        _, name, ts, form = op
        r = a.set_intermediate_operator(opr(name), tabs(ts)) if form == "set" else a.add(opr(name), tabs(ts))
        m.i[frozenset(ts)] = name
    else:
        _, name, enabled = op
        if k == "global":
            r = a.set(opr(name), enabled)
        else:
            r = a.set_operator_enabled_globally(opr(name), enabled, overwrite_fine_grained_selection=True)
            if not enabled:
                m.s = {i: v for i, v in m.s.items() if v[0] != name}
                m.j = {i: v for i, v in m.j.items() if v[0] != name}
                m.i = {i: v for i, v in m.i.items() if v != name}
        m.g[name] = enabled
    require(r is a, "%s does not return the assignment for chaining", op)


def workers_of(x):
    return None if math.isnan(x.parallel_workers) else x.parallel_workers


def dump(a):
    """The observable content of an assignment, via its public attributes."""
    s = {}
    for t, x in a.scan_operators.items():
        require(isinstance(x, ScanOperatorAssignment) and x.table == t, "scan entry %s: %s", t, x)
        s[INDEX[t]] = (x.operator.name, workers_of(x))
    j = {}
    for ts, x in a.join_operators.items():
        require(isinstance(x, JoinOperatorAssignment) and x.join == ts == x.intermediate, "join entry %s: %s", ts, x)
        o = i = None
        if isinstance(x, DirectionalJoinOperatorAssignment):
            require(x.is_directional(), "directional")
            o, i = frozenset(INDEX[t] for t in x.outer), frozenset(INDEX[t] for t in x.inner)
        j[frozenset(INDEX[t] for t in ts)] = (x.operator.name, workers_of(x), o, i)
    return ({op.name: v for op, v in a.global_settings.items()}, s, j,
            {frozenset(INDEX[t] for t in ts): x.name for ts, x in a.intermediate_operators.items()})


def build_ops(ops):
    a, m = PhysicalOperatorAssignment(), Model()
    for op in ops:
        apply(a, m, op)
    return a, m


def probe(a, m, probes):
    for ts in probes + [sorted(k) for k in m.j] + [[i] for i in m.s] + [sorted(k) for k in m.i]:
        if not ts:
            continue
        want = m.s.get(ts[0]) if len(ts) == 1 else m.j.get(frozenset(ts))
        forms = [tabs(ts), set(tabs(ts)), frozenset(tabs(ts)), tuple(reversed(tabs(ts)))] + ([tab(ts[0])] if len(ts) == 1 else [])
        for arg in forms:
            got, dflt, item, has = a.get(arg), a.get(arg, "dflt"), a[arg], arg in a
            require(has == (want is not None), "%s in assignment: %s", arg, has)
            if want is None:
                require(got is None and item is None and dflt == "dflt", "lookup of %s: %s / %s / %s", arg, got, item, dflt)
            else:
                require(got is not None and got.operator.name == want[0] and workers_of(got) == want[1] and got == item == dflt,
                        "lookup of %s: %s / %s / %s, expected %s", arg, got, item, dflt, want)
    for name in SCANS + JOINS + INTERS:
        require(a[opr(name)] == m.g.get(name), "global setting of %s: %s", name, a[opr(name)])
    for default in (True, False):
        got = {o.name for o in a.get_globally_enabled_operators(default)}
        want = {n for n in SCANS + JOINS + INTERS if m.g.get(n, default)}
        require(got == want, "globally enabled operators (default %s): %s, expected %s", default, got, want)
    it = list(a)
    require(len(it) == len(m.s) + len(m.j) and set(map(id, it)) == set(map(id, list(a.scan_operators.values()) + list(a.join_operators.values()))),
            "iteration: %s", it)
    require(bool(a) == any(m.key()), "truth value of %s", a)


def check_ops(spec):
    a, m = build_ops(spec["ops"])
    require(dump(a) == m.key(), "after %s: %s, expected %s", spec["ops"], dump(a), m.key())
    probe(a, m, spec["probe"])
    for shown in (str(a), repr(a), a.inspect()):
        for i in list(m.s):
            require(tab(i).identifier() in shown, "%s is missing in %s", tab(i), shown)
        for name in [v[0] for v in m.s.values()] + [v[0] for v in m.j.values()] + list(m.i.values()) + list(m.g):
            require(opr(name).value in shown, "%s is missing in %s", name, shown)

    # equality does not depend on how or in which order the content was assigned
    other = PhysicalOperatorAssignment()
    items = ([["global", n, v] for n, v in m.g.items()] + [["inter", n, sorted(ts), "set"] for ts, n in m.i.items()]
             + [["scan", n, i, "workers" if w else "ref", w] for i, (n, w) in m.s.items()]
             + [["djoin", n, sorted(o), sorted(i), w] if o else ["join", n, sorted(ts), "workers" if w else "set", w]
                for ts, (n, w, o, i) in m.j.items()])
    k = spec["perm"] % max(1, len(items))
    for op in reversed(items[k:] + items[:k]):
        apply(other, Model(), op)
    require(other == a and a == other and not (a != other) and hash(a) == hash(other), "equal assignments differ: %s / %s", a, other)
    tw, tm = a.clone(), m.copy()
    require(tw == a and hash(tw) == hash(a), "clone of %s", a)
    apply(tw, tm, spec["tweak"])
    require(dump(a) == m.key(), "changing a clone changed the original: %s", spec["tweak"])
    require(dump(tw) == tm.key(), "clone after %s: %s, expected %s", spec["tweak"], dump(tw), tm.key())
    require((tw == a) == (tm.key() == m.key()), "equality after %s: %s / %s", spec["tweak"], a, tw)

    # merging
    b, n = build_ops(spec["other"])
    merged, mm = a.merge_with(b), Model()
    mm.g, mm.s, mm.j, mm.i = m.g | n.g, m.s | n.s, m.j | n.j, m.i | n.i
    require(dump(merged) == mm.key() and dump(a) == m.key() and dump(b) == n.key(), "merge: %s, expected %s", dump(merged), mm.key())
    apply(merged, mm.copy(), spec["tweak"])
    require(dump(a) == m.key() and dump(b) == n.key(), "changing a merged assignment changed an input")
    g = a.global_settings_only()
    require(dump(g) == (m.g, {}, {}, {}), "global_settings_only: %s", g)

    # workers
    params, w = PlanParameterization(), {}
    for ts, num in spec["workers"]:
        params.set_workers(tabs(ts), num)
        w[frozenset(ts)] = num
    missing = [ts for ts in w if (next(iter(ts)) not in m.s if len(ts) == 1 else ts not in m.j)]
    integrated = a.integrate_workers_from(params)
    im = m.copy()
    for ts, num in w.items():
        if ts in missing:
            continue
        if len(ts) == 1:
            i = next(iter(ts))
            im.s[i] = (im.s[i][0], num)
        else:
            im.j[ts] = (im.j[ts][0], num) + im.j[ts][2:]
    require(dump(integrated) == im.key() and dump(a) == m.key(), "integrate_workers_from: %s, expected %s", dump(integrated), im.key())
    try:
        a.integrate_workers_from(params, fail_on_missing=True)
        require(not missing, "integrate_workers_from(fail_on_missing) does not fail for %s", missing)
    except ValueError:
        require(missing, "integrate_workers_from(fail_on_missing) fails without missing operators")

    # JSON: operators, tables and global settings survive
    text = jsonize.to_json(a)
    for arg in (text, json.loads(text)):
        back = dump(opt.read_operator_assignment_json(arg))
        want = (m.g, {i: (v[0], None) for i, v in m.s.items()}, {ts: (v[0], None, None, None) for ts, v in m.j.items()}, m.i)
        require((back[0], {i: (v[0], None) for i, v in back[1].items()}, {ts: (v[0], None, None, None) for ts, v in back[2].items()}, back[3])
                == want, "JSON of %s: %s", a, back)
    for x in a:
        one = jsonize.to_json(x)
        back = read_operator_json(one)
        require(type(back) is type(x) and back == x and hash(back) == hash(x), "JSON of %s: %s", x, back)
    for name in list(m.g):
        back = read_operator_json(jsonize.to_json(opr(name)))
        require(back == opr(name), "JSON of %s: %s", name, back)


# ---------------------------------------------------------------- single assignments

@composite
def entry_strategy(d):
    def entry():
        k = d.choice(["scan", "join", "djoin", "djoin"])
        w = d.choice([None, None, 0, 1, 4])
        if k == "scan":
            return [k, d.choice(SCANS[:2]), d.int(0, 1), w]
        ts = d.some(range(4), 2, 4)
        cut = d.int(1, len(ts) - 1)
        return [k, d.choice(JOINS[:2]), [ts[:cut], ts[cut:]], w]
    a = entry()
    how = d.choice(["same", "swap", "cut", "op", "workers", "direction", "other"])
    b = json.loads(json.dumps(a))
    if how == "op":
        b[1] = d.choice(SCANS if a[0] == "scan" else JOINS)
    elif how == "workers":
        b[3] = d.choice([None, 0, 1, 4])
    elif how == "other":
        b = entry()
    elif a[0] != "scan":
        o, i = a[2]
        if how == "swap":
            b[2] = [i, o]
        elif how == "cut" and len(o) > 1:
            b[2] = [o[:-1], o[-1:] + i]
        elif how == "direction":
            b[0] = "join" if a[0] == "djoin" else "djoin"
    return {"a": a, "b": b, "how": how}


def entry_of(e):
    kind, name, what, w = e
    kw = {} if w is None else {"parallel_workers": w}
    if kind == "scan":
        return ScanOperatorAssignment(opr(name), tab(what), **kw), (kind, name, what, w)
    if kind == "join":
        return JoinOperatorAssignment(opr(name), tabs(what[0] + what[1]), **kw), (kind, name, frozenset(what[0] + what[1]), w)
    return DirectionalJoinOperatorAssignment(opr(name), tabs(what[1]), tabs(what[0]), **kw), (kind, name, frozenset(what[0]), frozenset(what[1]), w)


def check_entries(spec):
    (a, ka), (b, kb) = entry_of(spec["a"]), entry_of(spec["b"])
    require((a == b) == (b == a) == (ka == kb) and (a != b) == (ka != kb), "%s == %s is %s / %s", spec["a"], spec["b"], a == b, b == a)
    require(ka != kb or hash(a) == hash(b), "equal assignments %s with different hashes", spec["a"])
    require(len({a, b, entry_of(spec["a"])[0]}) == (1 if ka == kb else 2), "set of %s and %s", spec["a"], spec["b"])
    x, y = PhysicalOperatorAssignment().add(a), PhysicalOperatorAssignment().add(b)
    require((x == y) == (ka == kb), "assignments of %s and %s: %s", spec["a"], spec["b"], x == y)


# ---------------------------------------------------------------- parameters

def gen_param(d):
    k = d.weighted([(6, "card"), (4, "workers"), (3, "set"), (2, "kw"), (2, "mode")])
    if k == "card":
        return [k, gen_tset(d, 1), d.choice(["int", "float", "card"]), d.weighted([(5, d.int(0, 10 ** 6)), (1, "nan"), (1, "inf")])]
    if k == "workers":
        return [k, gen_tset(d, 1), d.int(0, 8)]
    if k in ("set", "kw"):
        return [k, d.choice(["work_mem", "enable_sort", "geqo"]), d.choice(["on", "off", 4, True])]
    return [k, d.choice(["sequential", "parallel"])]


@composite
def params_strategy(d):
    return {"a": [gen_param(d) for _ in range(d.int(0, 7))], "b": [gen_param(d) for _ in range(d.int(0, 7))], "form": d.choice(["list", "set", "fs"])}


def build_params(steps, form):
    p, m = PlanParameterization(), {"c": {}, "w": {}, "s": {}, "m": None}
    conv = {"list": list, "set": set, "fs": frozenset}[form]
    for st in steps:
        if st[0] == "card":
            v = float(st[3]) if isinstance(st[3], str) else st[3]
            value = Cardinality(v) if st[2] == "card" else float(v) if st[2] == "float" else v
            r = p.add_cardinality(conv(tabs(st[1])), value)
            m["c"][frozenset(st[1])] = v
        elif st[0] == "workers":
            r = p.set_workers(conv(tabs(st[1])), st[2])
            m["w"][frozenset(st[1])] = st[2]
        elif st[0] == "set":
            r = p.set_system_settings(st[1], st[2])
            m["s"][st[1]] = st[2]
        elif st[0] == "kw":
            r = p.set_system_settings(**{st[1]: st[2]})
            m["s"][st[1]] = st[2]
        else:
            p.execution_mode = st[1]
            m["m"] = st[1]
            r = p
        require(r is p, "%s does not return the parameters for chaining", st)
    return p, m


def params_match(p, m, what):
    c = {frozenset(INDEX[t] for t in k): v for k, v in p.cardinalities.items()}
    require(set(c) == set(m["c"]) and all(isinstance(c[k], Cardinality) and same_num(c[k], m["c"][k]) for k in c), "%s: cardinalities %s, expected %s",
            what, c, m["c"])
    w = {frozenset(INDEX[t] for t in k): v for k, v in p.parallel_workers.items()}
    require(w == m["w"], "%s: workers %s, expected %s", what, w, m["w"])
    require(p.system_settings == m["s"], "%s: settings %s, expected %s", what, p.system_settings, m["s"])
    require(p.execution_mode == m["m"], "%s: execution mode %s, expected %s", what, p.execution_mode, m["m"])


def check_params(spec):
    a, ma = build_params(spec["a"], spec["form"])
    b, mb = build_params(spec["b"], spec["form"])
    params_match(a, ma, "assignment")
    merged = a.merge_with(b)
    params_match(merged, {"c": ma["c"] | mb["c"], "w": ma["w"] | mb["w"], "s": ma["s"] | mb["s"], "m": mb["m"] or ma["m"]}, "merge_with")
    dropped = a.drop_workers()
    params_match(dropped, ma | {"w": {}}, "drop_workers")
    for p in (merged, dropped):
        p.add_cardinality(tabs([0, 1, 2, 3, 4]), 1)
        p.set_workers(tabs([0, 1, 2, 3, 4]), 1)
        p.set_system_settings("x", 1)
    params_match(a, ma, "changing a derived parameterization")
    params_match(b, mb, "changing a derived parameterization")
    text = jsonize.to_json(a)
    for arg in (text, json.loads(text)):
        params_match(opt.read_plan_params_json(arg), ma, "JSON")
    str(a), repr(a)
    shown = a.inspect()
    require(all(str(v) in shown for v in list(ma["w"].values()) + list(ma["s"].values())), "inspect: %s", shown)


FACETS = [
    Facet("join-trees", tree_strategy, check_tree, quick=3000, thorough=60000, shards=3,
          rule="join trees (generic and logical) over 1-7 tables of any shape, with missing/NaN/infinite annotations; step-wise growth; "
               "non-trivial: at least 3 tables",
          nontrivial=lambda s: len(leaves(s["tree"])) >= 3, classify=lambda s: ["linear" if linear(s["tree"]) else "bushy", s["other"]]),
    Facet("operators", ops_strategy, check_ops, quick=3000, thorough=60000, shards=3,
          rule="histories of up to 9 assignment calls in all documented call forms against a dictionary model; non-trivial: at least 3 calls",
          nontrivial=lambda s: len(s["ops"]) >= 3, classify=lambda s: sorted({o[0] for o in s["ops"]})),
    Facet("entries", entry_strategy, check_entries, quick=1200, thorough=10000, rule="pairs of single assignments that differ in one aspect; non-trivial: joins",
          nontrivial=lambda s: s["a"][0] != "scan", classify=lambda s: [s["how"]]),
    Facet("parameters", params_strategy, check_params, quick=1500, thorough=30000, shards=2,
          rule="histories of up to 7 calls on two parameterizations against a dictionary model; non-trivial: both non-empty",
          nontrivial=lambda s: bool(s["a"]) and bool(s["b"])),
]
