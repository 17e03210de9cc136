"""C33: utility containers, numbers, versions, graph walks and the JSON encoder obey their contracts."""
from __future__ import annotations

import dataclasses
import datetime
import enum
import itertools
import json
import math
import threading
from collections import deque
from pathlib import Path

import networkx as nx

from pbt.draw import composite
from pbt.engine import Facet, fail, require
from postbound import util
from postbound.util import dicts, nx as unx, stats
from postbound.util.collections import Queue, SizedQueue
from postbound.util.num import AtomicInt, BoundedInt
from postbound.util.misc import Version, camel_case2snake_case

ASSUMPTIONS = ["conflicting documentation (children of failing nodes in nx_bfs_tree) and the Jaccard coefficient of two empty sets are not judged"]
VALUES = [0, 1, 2, "", "a", None, [], False, 3.5]


def raises(exc, what, fn, *args, **kw):
    try:
        r = fn(*args, **kw)
    except exc:
        return
    fail(f"{what}: {r!r} instead of {getattr(exc, '__name__', exc)}")


# ---------------------------------------------------------------- queues

@composite
def queues(d):
    ops = []
    for _ in range(d.int(1, 12)):
        op = d.choice(["enqueue", "push", "append", "extend", "pop", "pop", "head", "in", "iter"])
        ops.append([op, [d.int(0, len(VALUES) - 1) for _ in range(d.int(0, 4) if op == "extend" else 1)]])
    return {"sized": d.flag(50), "cap": d.int(1, 5), "init": d.choice([None, [], [d.int(0, len(VALUES) - 1) for _ in range(d.int(1, 4))]]), "ops": ops, "gen": d.flag(30)}


def same(a, b):
    return type(a) is type(b) and a == b


def check_queues(s):
    init = None if s["init"] is None else [VALUES[i] for i in s["init"]]
    if s["sized"] and init:
        init = init[:s["cap"]]
    q = SizedQueue(s["cap"], init) if s["sized"] else Queue(init)
    m = deque(init or [], maxlen=s["cap"] if s["sized"] else None)
    for op, idx in s["ops"]:
        vals = [VALUES[i] for i in idx]
        if op == "extend":
            q.extend(iter(vals) if s["gen"] else vals)
            m.extend(vals)
        elif op in ("enqueue", "push", "append"):
            getattr(q, "append" if s["sized"] else op)(vals[0])
            m.append(vals[0])
        elif op == "pop":
            got, want = q.pop(), m.popleft() if m else None
            require(same(got, want), "%s.pop() is %r instead of %r", q, got, want)
        elif op == "head":
            got = q.head()
            require(same(got, m[0] if m else None), "%s.head() is %r", q, got)
            if not s["sized"]:
                require(same(q.peak(), got), "%s.peak() is not %r", q, got)
        elif op == "in":
            require((vals[0] in q) == (vals[0] in m), "%r in %s", vals[0], q)
        require(len(q) == len(m) and bool(q) == bool(m), "length of %s after %s is not %s", q, op, len(m))
        require(list(q) == list(m) and all(same(a, b) for a, b in zip(q, m)), "the queue contains %s instead of %s after %s", list(q), list(m), op)
        require(not s["sized"] or len(q) <= s["cap"], "%s exceeds its capacity", q)


# ---------------------------------------------------------------- dictionaries

@composite
def dictionaries(d):
    ks = ["a", "b", "c", "d", "e"]

    def dic():
        return [[k, d.int(0, 3)] for k in d.some(ks, 0, 5)]
    return {"a": dic(), "b": dic(), "multi": [[k, [d.int(0, 3) for _ in range(d.int(0, 3))]] for k in d.some(ks, 0, 4)], "pairs": [[d.choice(ks), d.int(0, 3)] for _ in range(d.int(0, 6))],
            "ops": [[d.choice(["set", "get", "del", "in", "len", "getdefault"]), d.int(-9, 9), d.int(0, 99)] for _ in range(d.int(1, 12))], "mod": d.int(2, 6)}


def check_dictionaries(s):
    a, b, multi = dict(s["a"]), dict(s["b"]), {k: list(v) for k, v in s["multi"]}
    keep = (dict(a), dict(b), {k: list(v) for k, v in multi.items()})
    require(dicts.difference(a, b) == {k: v for k, v in a.items() if k not in b}, "difference of %s and %s: %s", a, b, dicts.difference(a, b))
    require(dicts.intersection(a, b) == {k: v for k, v in a.items() if k in b}, "intersection of %s and %s: %s", a, b, dicts.intersection(a, b))
    require(dicts.merge(a, b) == a | b, "merge of %s and %s: %s", a, b, dicts.merge(a, b))
    got = dicts.merge(a, b, updater=lambda k, x, y: (k, x, y))
    want = {k: (k, a[k], b[k]) if k in a and k in b else a.get(k, b.get(k)) for k in list(a) + list(b)}
    require(got == want, "merge with updater: %s instead of %s", got, want)
    got = dicts.update(a, lambda k, v: (k, v + 1))
    require(got == {k: (k, v + 1) for k, v in a.items()}, "update of %s: %s", a, got)
    got = dicts.explode(multi)
    require(got == [(k, v) for k, vs in multi.items() for v in vs], "explode of %s: %s", multi, got)
    got = dicts.generate_multi(iter([(k, v) for k, v in s["pairs"]]))
    want = {}
    for k, v in s["pairs"]:
        want.setdefault(k, []).append(v)
    require(got == want, "generate_multi of %s: %s", s["pairs"], got)
    require(dicts.reduce_multi(multi, lambda k, vs: (k, sum(vs))) == {k: (k, sum(vs)) for k, vs in multi.items()}, "reduce_multi of %s", multi)
    uniq = {k: sorted(set(v)) for k, v in multi.items()}
    got = dicts.invert_multi(uniq)
    want = {}
    for k, vs in uniq.items():
        for v in vs:
            want.setdefault(v, []).append(k)
    require({k: sorted(v) for k, v in got.items()} == {k: sorted(v) for k, v in want.items()}, "invert_multi of %s: %s instead of %s", uniq, got, want)
    got = dicts.aggregate([a, b])
    require(got == {k: [x[k] for x in (a, b) if k in x] for k in list(a) + list(b)}, "aggregate of %s and %s: %s", a, b, got)
    inv = dicts.invert(a)
    require(set(inv) == set(a.values()) and all(a[k] == v for v, k in inv.items()), "invert of %s: %s", a, inv)
    if a:
        require(a[dicts.argmin(a)] == min(a.values()) and a[dicts.argmax(a)] == max(a.values()), "argmin/argmax of %s: %s, %s", a, dicts.argmin(a), dicts.argmax(a))
        require(list(dicts.dict_to_numpy(a)) == [a[k] for k in sorted(a)], "dict_to_numpy of %s: %s", a, dicts.dict_to_numpy(a))
    if len(a) == 1:
        require((dicts.key(a), dicts.value(a)) == next(iter(a.items())), "key/value of %s", a)
    else:
        raises(ValueError, f"key of {a}", dicts.key, a)
        raises(ValueError, f"value of {a}", dicts.value, a)
    require(dicts.stringify(a) == "{" + ", ".join(f"{k}: {v}" for k, v in a.items()) + "}", "stringify of %s: %s", a, dicts.stringify(a))
    # hashing does not depend on the order and distinguishes nothing that is equal
    for x in (a, multi, {"n": a, "m": multi}, {k: set(v) for k, v in multi.items()}):
        y = dict(reversed(list(x.items())))
        require(hash(dicts.HashableDict(x)) == hash(dicts.HashableDict(y)) and dicts.HashableDict(x) == dicts.HashableDict(y), "hash of %s depends on the order", x)
    # frozen dictionaries
    fz = dicts.frozendict(a)
    require(dict(fz) == a and fz == dicts.frozendict(dict(reversed(list(a.items())))) and hash(fz) == hash(dicts.frozendict(dict(reversed(list(a.items()))))), "frozendict of %s is %s", a, fz)
    for what, fn in [("item", lambda: fz.__setitem__("a", 9)), ("del", lambda: fz.__delitem__(next(iter(a), "a"))), ("update", lambda: fz.update({"a": 7})), ("clear", lambda: fz.clear()), ("pop", lambda: fz.pop("a")),
                     ("popitem", lambda: fz.popitem()), ("setdefault", lambda: fz.setdefault("new", 1)), ("|=", lambda: fz.__ior__({"a": 8}))]:
        try:
            fn()
        except (TypeError, KeyError, AttributeError):
            pass
        require(dict(fz) == a, "%s changes the frozendict %s to %s", what, a, fz)
    source = dict(a)
    fz = dicts.frozendict(source)
    source["zzz"] = 1
    require(dict(fz) == a, "the frozendict shares the contents of its source")
    # custom hashing and dynamic defaults
    calls = []
    ch = dicts.CustomHashDict(lambda k, mod: k % mod, mod=s["mod"])
    dd = dicts.DynamicDefaultDict(lambda k: calls.append(k) or k * 10)
    m1, m2 = {}, {}
    for op, k, v in s["ops"]:
        h = k % s["mod"]
        if op == "set":
            ch[k], m1[h], dd[k], m2[k] = v, v, v, v
        elif op == "del":
            for x, mm, kk in ((ch, m1, h), (dd, m2, k)):
                if kk in mm:
                    del x[k], mm[kk]
                else:
                    raises(KeyError, "deleting a missing key", x.__delitem__, k)
        elif op == "get":
            if h in m1:
                require(ch[k] == m1[h], "CustomHashDict[%s] is %s", k, ch[k])
            else:
                raises(KeyError, f"CustomHashDict[{k}]", ch.__getitem__, k)
            n = len(calls)
            want = m2.setdefault(k, k * 10) if k in m2 else k * 10
            new = k not in m2
            require(dd[k] == want and dd[k] == want, "DynamicDefaultDict[%s] is %s instead of %s", k, dd[k], want)
            require(len(calls) == n + new and (not new or calls[-1] == k), "the factory was called for %s", calls[n:])
            m2[k] = want
        elif op == "in":
            require((k in ch) == (h in m1) and (k in dd) == (k in m2), "%s in %s / %s", k, ch, dd)
        elif op == "getdefault":
            require(ch.get(k, "no") == m1.get(h, "no"), "CustomHashDict.get(%s) is %s", k, ch.get(k, "no"))
        require(len(ch) == len(m1) and len(dd) == len(m2) and dict(dd.data) == m2, "after %s: %s / %s instead of %s / %s", op, ch, dd, m1, m2)
    require((a, b, multi) == keep, "the arguments were changed")


# ---------------------------------------------------------------- collections and statistics

@composite
def sequences(d):
    def nested(depth):
        kind = d.choice(["int", "str", "list", "tuple", "set", "dict"] if depth else ["int", "str"])
        if kind == "int":
            return ["int", d.int(-3, 9)]
        if kind == "str":
            return ["str", d.choice(["", "x", "yz"])]
        if kind == "set":
            return ["set", [d.int(0, 5) for _ in range(d.int(0, 3))]]
        if kind == "dict":
            return ["dict", [[k, nested(depth - 1)] for k in d.some(["p", "q"], 0, 2)]]
        return [kind, [nested(depth - 1) for _ in range(d.int(0, 3))]]
    return {"xs": [d.int(0, 5) for _ in range(d.int(0, 6))], "size": d.int(1, 4), "step": d.int(1, 3), "sets": [[d.int(0, 5) for _ in range(d.int(0, 4))] for _ in range(d.int(0, 4))],
            "obj": nested(3), "n": d.int(0, 80), "text": d.choice(["", "a", "Ab", "hello World", "ÄÖ x"]), "name": d.some(["Foo", "Bar", "x", "Baz", "q1"], 1, 4), "kind": d.choice(["list", "tuple", "set", "frozenset", "keys", "gen", "str", "int"])}


def materialise(o):
    k, v = o
    return v if k in ("int", "str") else set(v) if k == "set" else {a: materialise(b) for a, b in v} if k == "dict" else (list if k == "list" else tuple)(materialise(x) for x in v)


def hashable_model(o):
    if isinstance(o, (list, tuple)):
        return ("seq",) + tuple(hashable_model(x) for x in o)
    if isinstance(o, dict) or isinstance(o, dicts.HashableDict):
        return ("dict", frozenset((k, hashable_model(v)) for k, v in o.items()))
    return ("set", frozenset(o)) if isinstance(o, (set, frozenset)) else o


def check_sequences(s):
    xs = s["xs"]
    C = util.collections
    got = sorted(map(list, C.powerset(xs)))
    want = sorted([xs[i] for i in range(len(xs)) if mask >> i & 1] for mask in range(1 << len(xs)))
    require(sorted(map(sorted, got)) == sorted(map(sorted, want)), "powerset of %s: %s", xs, got)
    got = [list(w) for w in C.sliding_window(xs, s["size"], s["step"])]
    want, i = [], 0
    while i + s["size"] <= len(xs):
        want.append(xs[i:i + s["size"]])
        i += s["step"]
    require(got == want, "windows of %s (size %s, step %s): %s", xs, s["size"], s["step"], got)
    got = sorted(tuple(sorted(p)) for p in C.pairs(xs))
    want = sorted(tuple(sorted((xs[i], xs[j]))) for i in range(len(xs)) for j in range(i))
    require(got == want, "pairs of %s: %s", xs, got)
    require(C.set_union(set(x) for x in s["sets"]) == {y for x in s["sets"] for y in x}, "union of %s", s["sets"])
    mixed = [x if len(x) != 1 else x[0] for x in s["sets"]] + ["str"]
    require(C.flatten(mixed) == [y for x in s["sets"] for y in x] + ["str"], "flatten of %s: %s", mixed, C.flatten(mixed))
    seen = []
    C.foreach(iter(xs), seen.append)
    require(seen == xs, "foreach visits %s", seen)
    k = s["kind"]
    obj = {"list": xs, "tuple": tuple(xs), "set": set(xs), "frozenset": frozenset(xs), "keys": dict.fromkeys(xs).keys(), "gen": xs, "str": "abc", "int": 7}[k]
    got = C.enlist(obj)
    require(list(got) == ([obj] if k in ("str", "int") else list(obj)), "enlist of %r: %r", obj, got)
    require(C.enlist(tuple(xs), enlist_tuples=True) == [tuple(xs)], "enlist of a tuple: %s", C.enlist(tuple(xs), enlist_tuples=True))
    got = C.simplify((x for x in xs) if k == "gen" else obj)
    want = obj if k in ("str", "int") or len(obj) != 1 else xs[0]
    require(got == want, "simplify of %r: %r", obj, got)
    obj = materialise(s["obj"])
    h = C.make_hashable(obj)
    hash(h)
    require(hashable_model(h) == hashable_model(obj), "make_hashable of %s is %s", obj, h)
    require(C.make_hashable(materialise(s["obj"])) == h and hash(C.make_hashable(materialise(s["obj"]))) == hash(h), "hashable versions of %s differ", obj)
    n = s["n"]
    require(stats.catalan_number(n) == math.comb(2 * n, n) // (n + 1), "catalan(%s) = %s", n, stats.catalan_number(n))
    a, b = set(xs), set(s["sets"][0] if s["sets"] else [])
    if a | b:
        require(abs(stats.jaccard(a, b) - sum(x in b for x in a) / len(a | b)) < 1e-12, "jaccard of %s and %s: %s", a, b, stats.jaccard(a, b))
    t = "  " + s["text"].lower() + "  "
    require(stats.trigrams(s["text"]) == [t[i] + t[i + 1] + t[i + 2] for i in range(len(t) - 2)], "trigrams of %r: %s", s["text"], stats.trigrams(s["text"]))
    m = stats.score_matrix(iter(xs), lambda x, y: 10 * x + y)
    require(m.tolist() == [[10 * x + y for y in xs] for x in xs], "score matrix of %s: %s", xs, m)
    parts = [p.capitalize() for p in s["name"]]
    require(camel_case2snake_case("".join(parts)) == "_".join(p.lower() for p in parts), "snake case of %s: %s", parts, camel_case2snake_case("".join(parts)))


# ---------------------------------------------------------------- versions

@composite
def versions(d):
    def v():
        return [d.weighted([(4, d.int(0, 3)), (1, d.int(9, 12))]) for _ in range(d.int(1, 4))]
    a = v()
    b = d.choice([v(), a[:d.int(1, len(a))], a + [d.int(0, 2)], list(a)])
    return {"a": a, "b": b, "forms": [d.choice(["str", "list", "strs", "version", "int"]) for _ in range(2)], "bad": d.choice(["", "a", "1.x", "1..2", "v1", [], ["x"]])}


def form(v, how):
    return {"str": ".".join(map(str, v)), "list": list(v), "strs": [str(x) for x in v], "version": Version(".".join(map(str, v)))}.get(how) or (v[0] if len(v) == 1 else ".".join(map(str, v)))


def check_versions(s):
    a, b = s["a"], s["b"]
    va, vb, other = Version(form(a, s["forms"][0]) if s["forms"][0] != "version" else list(a)), Version(b), form(b, s["forms"][1])
    for name, got, want in [("==", va == vb, a == b), ("!=", va != vb, a != b), ("<", va < vb, a < b), ("<=", va <= vb, a <= b), (">", va > vb, a > b), (">=", va >= vb, a >= b),
                            ("== raw", va == other, a == b), ("!= raw", va != other, a != b), ("< raw", va < other, a < b), (">= raw", va >= other, a >= b), ("<= raw", va <= other, a <= b), ("> raw", va > other, a > b)]:
        require(got is want, "Version(%s) %s %r is %s", a, name, b, got)
    require(list(va.components) == a and va.major == a[0] and va.minor == (a[1] if len(a) > 1 else None) and va.patch == (a[2] if len(a) > 2 else None) and len(va) == len(a), "components of %s", va)
    require(va.formatted(prefix="PG", suffix="!", separator="_") == "PG" + "_".join(map(str, a)) + "!" and str(va) == "v" + ".".join(map(str, a)), "format of %s", a)
    require(Version.is_valid(other) and Version.wrap(other) == vb, "%r is no valid version", other)
    require(not Version.is_valid(s["bad"]) and Version.wrap(s["bad"]) is None and not va == s["bad"], "%r is a valid version", s["bad"])
    raises(ValueError, f"Version({s['bad']!r})", Version, s["bad"])


# ---------------------------------------------------------------- numbers

BIN = ["+", "-", "*", "//", "%", "**", "&", "|", "^", "<<", ">>", "/", "<", "<=", ">", ">=", "==", "!="]
UNA = ["abs", "neg", "pos", "invert", "int", "round", "ceil", "floor", "trunc", "hash", "bool", "str"]
OPS = {"+": lambda a, b: a + b, "-": lambda a, b: a - b, "*": lambda a, b: a * b, "//": lambda a, b: a // b, "%": lambda a, b: a % b, "**": lambda a, b: a ** b, "&": lambda a, b: a & b, "|": lambda a, b: a | b,
       "^": lambda a, b: a ^ b, "<<": lambda a, b: a << b, ">>": lambda a, b: a >> b, "/": lambda a, b: a / b, "<": lambda a, b: a < b, "<=": lambda a, b: a <= b, ">": lambda a, b: a > b, ">=": lambda a, b: a >= b,
       "==": lambda a, b: a == b, "!=": lambda a, b: a != b}
UOPS = {"abs": abs, "neg": lambda x: -x, "pos": lambda x: +x, "invert": lambda x: ~x, "int": int, "round": round, "ceil": math.ceil, "floor": math.floor, "trunc": math.trunc, "hash": hash, "bool": bool, "str": str}


@composite
def integers(d):
    return {"kind": d.choice(["atomic", "bounded"]), "a": d.int(-9, 9), "b": d.int(-5, 9), "bin": d.some(BIN, 1, 6), "una": d.some(UNA, 0, 4), "side": d.choice(["left", "right", "both"]), "lo": d.choice([None, d.int(-9, 4)]),
            "span": d.choice([None, d.int(0, 12)]), "threads": d.flag(15), "sets": [d.int(-20, 20) for _ in range(d.int(0, 4))]}


def timed(fn):
    """run in a thread, since a broken lock blocks forever"""
    box = []

    def run():
        try:
            box.append((True, fn()))
        except Exception as e:  # noqa: BLE001
            box.append((False, e))
    t = threading.Thread(target=run, daemon=True)
    t.start()
    t.join(2)
    if not box:
        fail("the operation blocks")
    return box[0]


def check_integers(s):
    lo, hi = s["lo"], None if s["span"] is None else (s["lo"] or 0) + s["span"]

    def snap(v):
        v = v if lo is None else max(lo, v)
        return v if hi is None else min(hi, v)

    def make(v):
        return AtomicInt(v) if s["kind"] == "atomic" else BoundedInt(v, allowed_min=lo, allowed_max=hi)
    bounded = s["kind"] == "bounded"
    va, vb = (snap(s["a"]), snap(s["b"])) if bounded else (s["a"], s["b"])
    cls = BoundedInt if bounded else AtomicInt
    for op in s["bin"]:
        x, y = (make(s["a"]) if s["side"] != "right" else s["a"]), (make(s["b"]) if s["side"] != "left" else s["b"])
        px, py = (va if s["side"] != "right" else s["a"]), (vb if s["side"] != "left" else s["b"])
        if op in ("<<", ">>", "**") and (py < 0 or py > 20):
            continue
        try:
            want = OPS[op](px, py)
        except ZeroDivisionError:
            want = None
        ok, got = timed(lambda: OPS[op](x, y))
        if want is None:
            require(not ok and isinstance(got, ZeroDivisionError), "%s %s %s: %r instead of a ZeroDivisionError", px, op, py, got)
            continue
        require(ok, "%s(%s) %s %s: %r", cls.__name__, px, op, py, got)
        if isinstance(got, cls):
            got = got.value
            want = snap(want) if bounded else want
        require(got == want or bounded and got == snap(want), "%s(%s) %s %s (bounds %s..%s, %s) = %r instead of %r", cls.__name__, px, op, py, lo, hi, s["side"], got, want)
    for op in s["una"]:
        x, want = make(s["a"]), UOPS[op](va)
        ok, got = timed(lambda: UOPS[op](x))
        require(ok, "%s of %s: %r", op, x, got)
        got = got.value if isinstance(got, cls) else got
        require(got == want or bounded and got == snap(want) if op != "str" else got == str(va), "%s of %s is %r instead of %r", op, va, got, want)
    x = make(s["a"])
    require(x.value == va, "value is %s instead of %s", x.value, va)
    for v in s["sets"]:
        x.value = v
        require(x.value == (snap(v) if bounded else v), "after setting %s (bounds %s..%s) the value is %s", v, lo, hi, x.value)
    if bounded:
        raises(TypeError, "BoundedInt of a float", BoundedInt, 1.5)
        if lo is not None:
            raises(ValueError, "empty bounds", BoundedInt, 1, allowed_min=lo, allowed_max=lo - 1)
        require(BoundedInt.non_neg(s["a"]).value == max(0, s["a"]), "non_neg(%s) is %s", s["a"], BoundedInt.non_neg(s["a"]))
    else:
        x.reset()
        x.increment()
        x.increment(4)
        require(x.value == 5, "after reset and increments the value is %s", x.value)
        if s["threads"]:
            x = AtomicInt(s["a"])
            ts = [threading.Thread(target=lambda: [x.increment(2) for _ in range(400)]) for _ in range(4)]
            [t.start() for t in ts]
            [t.join() for t in ts]
            require(x.value == s["a"] + 3200, "concurrent increments are lost: %s instead of %s", x.value, s["a"] + 3200)


# ---------------------------------------------------------------- graph walks

@composite
def walks(d):
    n = d.int(1, 5)
    edges = [[i, j] for i in range(n) for j in range(i) if d.flag(45)]
    return {"n": n, "edges": edges, "start": d.choice([None, d.int(0, n - 1)]), "weights": [d.int(0, 4) for _ in range(n)], "seed": d.int(0, 999), "directed": [[i, j] for i in range(n) for j in range(n) if i != j and d.flag(30)]}


def frontier_model(adj, seq, edges_used):
    if len(seq) == len(adj):
        yield tuple(seq), tuple(edges_used)
        return
    opts = [(t, (f, t)) for f in seq for t in adj[f] if t not in seq]
    for t, e in opts or [(t, None) for t in adj if t not in seq]:
        yield from frontier_model(adj, seq + [t], edges_used + [e])


def check_walks(s):
    import random
    n = s["n"]
    g = nx.Graph()
    g.add_nodes_from(range(n))
    for i, j in s["edges"]:
        g.add_edge(i, j, data=f"{i}-{j}")
    adj = {i: [j for j in range(n) if [i, j] in s["edges"] or [j, i] in s["edges"]] for i in range(n)}
    random.seed(s["seed"])
    seq = list(unx.nx_random_walk(g, starting_node=s["start"]))
    require(sorted(seq) == list(range(n)) and (s["start"] is None or seq[0] == s["start"]), "random walk from %s over %s nodes visits %s", s["start"], n, seq)
    for k in range(1, n):
        reach = {t for f in seq[:k] for t in adj[f]} - set(seq[:k])
        require(not reach or seq[k] in reach, "the random walk %s leaves a component before it is explored (edges %s)", seq, s["edges"])
    if n <= 4 or len(s["edges"]) <= 5:
        got = sorted((tuple(w.nodes()), tuple((e or {}).get("data", "-") for _, e in w.path)) for w in unx.nx_frontier_walks(g))
        want = sorted((seq, tuple("-" if e is None else f"{max(e)}-{min(e)}" for e in used)) for st in range(n) for seq, used in frontier_model(adj, [st], []))
        require(got == want, "frontier walks over %s nodes with edges %s: %s instead of %s", n, s["edges"], got[:6], want[:6])
    start = s["start"] or 0
    got = list(unx.nx_bfs_tree(g, start, lambda node, edge: True, node_order=lambda node, edge: s["weights"][node]))
    dist = nx.single_source_shortest_path_length(g, start)
    require(sorted(x for x, _ in got) == sorted(set(dist) - {start}), "bfs from %s over %s yields %s", start, s["edges"], got)
    require([dist[x] for x, _ in got] == sorted(dist[x] for x, _ in got), "bfs from %s over %s is not breadth-first: %s", start, s["edges"], got)
    first = [x for x, _ in got if dist[x] == 1]
    require([s["weights"][x] for x in first] == sorted(s["weights"][x] for x in first), "bfs ignores the order: %s", got)
    for x, e in got:
        i, j = map(int, e["data"].split("-"))
        require(x in (i, j) and dist[i + j - x] == dist[x] - 1, "bfs reaches %s via %s", x, e)
    dg = nx.DiGraph()
    dg.add_nodes_from(range(n))
    dg.add_edges_from(map(tuple, s["directed"]))
    require(set(unx.nx_sinks(dg)) == {i for i in range(n) if not any(a == i for a, _ in s["directed"])}, "sinks of %s: %s", s["directed"], unx.nx_sinks(dg))
    require(set(unx.nx_sources(dg)) == {i for i in range(n) if not any(b == i for _, b in s["directed"])}, "sources of %s: %s", s["directed"], unx.nx_sources(dg))


# ---------------------------------------------------------------- JSON

class Color(enum.Enum):
    RED = "red"
    ONE = 1


@dataclasses.dataclass
class Point:
    x: object
    y: object


class Custom:
    def __init__(self, v):
        self.v = v

    def __json__(self):
        return {"custom": self.v}


@composite
def encoding(d):
    def val(depth):
        k = d.choice(["int", "float", "str", "none", "bool", "enum", "set", "path", "date", "datetime", "time", "delta", "version"] + (["list", "tuple", "dict", "custom", "point"] * 2 if depth else []))
        if k in ("list", "tuple"):
            return [k, [val(depth - 1) for _ in range(d.int(0, 3))]]
        if k == "dict":
            return [k, [[x, val(depth - 1)] for x in d.some(["a", "b", "ä\"'"], 0, 3)]]
        if k in ("custom", "point"):
            return [k, [val(depth - 1) for _ in range(1 if k == "custom" else 2)]]
        return [k, d.int(0, 40)]
    return {"v": val(3), "indent": d.choice([None, 2])}


def encode(o):
    """-> (object, expected plain value)"""
    k, v = o
    if k in ("list", "tuple"):
        xs = [encode(x) for x in v]
        return (list if k == "list" else tuple)(a for a, _ in xs), [b for _, b in xs]
    if k == "dict":
        xs = {a: encode(b) for a, b in v}
        return {a: b[0] for a, b in xs.items()}, {a: b[1] for a, b in xs.items()}
    if k == "custom":
        a, b = encode(v[0])
        return Custom(a), {"custom": b}
    if k == "point":
        (a, pa), (b, pb_) = encode(v[0]), encode(v[1])
        return Point(a, b), {"x": pa, "y": pb_}
    day = datetime.datetime(2020, 1, 1, 3, 4, 5) + datetime.timedelta(days=v, minutes=v)
    return {"int": (v - 9, v - 9), "float": (v / 4, v / 4), "str": (f"s{v}'\"\n", f"s{v}'\"\n"), "none": (None, None), "bool": (v % 2 == 0, v % 2 == 0), "enum": (list(Color)[v % 2], list(Color)[v % 2].value),
            "set": (frozenset(range(v % 4)) if v % 3 else set(range(v % 4)), list(range(v % 4))), "path": (Path(f"/a/b{v}"), f"/a/b{v}"), "date": (day.date(), day.date().isoformat()), "datetime": (day, day.isoformat()),
            "time": (day.time(), day.time().isoformat()), "delta": (datetime.timedelta(hours=v), v * 3600.0), "version": (Version(f"1.{v}"), f"v1.{v}")}[k]


def check_encoding(s):
    obj, want = encode(s["v"])
    text = util.to_json(obj, indent=s["indent"])
    if obj is None:
        require(text is None, "to_json(None) is %r", text)
        return
    got = json.loads(text)
    require(got == want, "%s is encoded as %s instead of %s", obj, got, want)
    import io
    f = io.StringIO()
    util.to_json_dump(obj, f)
    require(json.loads(f.getvalue()) == want, "%s is dumped as %s", obj, f.getvalue())


# ---------------------------------------------------------------- external processes

@composite
def processes(d):
    return {"calls": [{"cmd": d.weighted([(8, "sh"), (2, "missing"), (1, "denied")]), "dir": d.choice([None, "a", "a/b", "none"]), "path": d.flag(50), "exit": d.choice([0, 0, 1, 77]),
                       "out": d.choice(["", "x", "a b\n", "Ä'\"$"]), "err": d.choice(["", "bad"]), "args": [d.choice([1, "", "x y", 2.5, "*"]) for _ in range(d.int(0, 2))],
                       "split": d.choice(["list", "tuple", "name"])} for _ in range(d.int(1, 3))]}


def check_processes(s):
    import os
    import tempfile
    start = os.getcwd()
    with tempfile.TemporaryDirectory(prefix="pbt-proc-") as tmp:
        tmp = os.path.realpath(tmp)
        try:
            os.makedirs(f"{tmp}/a/b")
            os.chdir(tmp)
            for c in s["calls"]:
                script = 'pwd -P; printf "%s" "$1"; printf "%s" "$2" >&2; shift 3; for a in "$@"; do printf "|%s" "$a"; done; exit $0'
                name = {"sh": "/bin/sh", "missing": f"{tmp}/no-such-program", "denied": f"{tmp}/a"}[c["cmd"]]
                cmd = [name, "-c", script, c["exit"], c["out"], c["err"], "-", *c["args"]]
                work = None if c["dir"] is None else f"{tmp}/{c['dir']}"
                work = Path(work) if work and c["path"] else work
                fails = c["cmd"] != "sh" or c["dir"] == "none"
                cut = 1 if c["split"] == "name" else 3
                call = [cmd[0]] if cut == 1 else [cmd[:cut] if c["split"] == "list" else tuple(cmd[:cut])]
                try:
                    res = util.proc.run_cmd(*call, *cmd[cut:], work_dir=work)
                except OSError:
                    require(fails, "run_cmd(%s, work_dir=%s) fails", cmd, work)
                    continue
                finally:
                    require(os.getcwd() == tmp, "run_cmd(%s, work_dir=%s) leaves the working directory %s instead of %s", cmd[0], work, os.getcwd(), tmp)
                require(not fails, "run_cmd(%s, work_dir=%s) yields %r", cmd, work, res)
                out = f"{work or tmp}\n{c['out']}" + "".join(f"|{a}" for a in c["args"])
                require((res.out_data, res.err_data, res.exit_code) == (out, c["err"], c["exit"]), "result of %s: %r", cmd, res)
                require(res == out and str(res) == out and bool(res) == (c["exit"] == 0), "%r is no string of its output", res)
                if c["exit"]:
                    raises(RuntimeError, f"raise_if_error after exit code {c['exit']}", res.raise_if_error)
                else:
                    res.raise_if_error()
        finally:
            os.chdir(start)


FACETS = [
    Facet("queues", queues, check_queues, 500, 15000, "elements are added and removed", nontrivial=lambda s: any(o[0] == "pop" for o in s["ops"]), classify=lambda s: ["sized" if s["sized"] else "plain"] + sorted({o[0] for o in s["ops"]}), shards=1),
    Facet("dictionaries", dictionaries, check_dictionaries, 400, 15000, "the dictionaries overlap", nontrivial=lambda s: bool(dict(s["a"]).keys() & dict(s["b"]).keys()), shards=1),
    Facet("sequences", sequences, check_sequences, 400, 15000, "there are several elements", nontrivial=lambda s: len(s["xs"]) > 1, shards=1),
    Facet("versions", versions, check_versions, 400, 15000, "versions share their major component", nontrivial=lambda s: s["a"][0] == s["b"][0], shards=1),
    Facet("integers", integers, check_integers, 500, 15000, "binary operations are used", nontrivial=lambda s: bool(s["bin"]), classify=lambda s: [s["kind"]] + s["bin"] + s["una"], shards=1),
    Facet("walks", walks, check_walks, 300, 8000, "the graph has edges", nontrivial=lambda s: bool(s["edges"]), shards=1),
    Facet("encoding", encoding, check_encoding, 400, 15000, "the value is nested", nontrivial=lambda s: s["v"][0] in ("list", "tuple", "dict", "custom", "point"), shards=1),
    Facet("processes", processes, check_processes, 120, 3000, "a program is executed in another directory or fails", nontrivial=lambda s: any(c["dir"] or c["exit"] or c["cmd"] != "sh" for c in s["calls"]), classify=lambda s: sorted({c["cmd"] for c in s["calls"]}), shards=1),
]
