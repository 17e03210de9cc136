"""C25: workloads keep exactly their labelled queries, through every operation and every way of reading them."""
from __future__ import annotations

import copy
import csv
import os
import shutil
import tempfile
import types
import warnings
from pathlib import Path

import natsort

from pbt import pb
from pbt.draw import composite
from pbt.engine import Facet, fail, require
from postbound import Workload, parse_query, workloads
from postbound.db import DatabasePool
from postbound.qal import SqlQuery

ASSUMPTIONS = ["batch files with empty lines: the label may be the position of the query or of its line",
               "a global label prefix without a trailing slash may be separated by a slash"]
LABELS = ["1a", "1b", "2a", "10a", "10b", "q-1", "q-2", "q-10", "q1/1", "q1/2", "q10/1", "001", "A", "a", "é", "x.y", ""]
FOREIGN = "SELECT zz.a FROM zz WHERE zz.a = 77"


def text(i):
    return f"SELECT r.a FROM r WHERE r.a = {i};"


_PARSED = {}


def query(i):
    if i not in _PARSED:
        _PARSED[i] = parse_query(text(i), bind_columns=False)
    return _PARSED[i]


# -- operations

@composite
def entries(d, ints, hi=7):
    n = d.int(0, hi)
    labels = d.some(list(range(0, 25)) if ints else LABELS, n, n) if n else []
    return [[l, d.int(0, 5)] for l in labels]


@composite
def ops_spec(d):
    ints = d.flag(25)
    ops = []
    for _ in range(d.int(1, 6)):
        op = d.choice(["first", "last", "with_labels", "with_prefix", "filter_by", "relabel", "map", "transform", "pick_random", "shuffle", "shuffle", "ordered", "+", "-", "&", "|", "-labels", "&labels", "|dict", "copy"])
        if op in ("first", "last", "pick_random"):
            arg = d.int(0, 8)
        elif op in ("with_labels", "-labels", "&labels"):
            arg = d.some(list(range(0, 25)) if ints else LABELS, 0, 5)
        elif op == "with_prefix":
            arg = d.choice(["1", "q", "q1", "q1/", "", "10", "zz"])
        elif op == "filter_by":
            arg = [d.choice(["label", "query"]), d.int(2, 3)]
        elif op in ("relabel", "map", "transform"):
            arg = d.int(0, 3)
        elif op in ("+", "-", "&", "|", "|dict"):
            arg = d.any(entries(ints))
        else:
            arg = None
        ops.append([op, arg, d.choice(["list", "set", "iter", "tuple"])])
    return {"ints": ints, "entries": d.any(entries(ints)), "ops": ops, "name": d.choice(["", "JOB"]), "root": d.choice([None, "/tmp/wl"])}


def new_label(label, k, ints):
    return [lambda: f"new-{label}", lambda: label, lambda: (1000 - label) if ints else label + "x", lambda: f"{str(label)[::-1]}|{label}"][k]()


def check_workload(w, model, order_known, what, name):
    """model: dict label -> query number"""
    require(isinstance(w, Workload), "%s yields %r", what, w)
    require(w.name == name, "%s: the workload is named %r instead of %r", what, w.name, name)
    require(len(w) == len(model) and bool(w) == bool(model), "%s: %s queries instead of %s", what, len(w), len(model))
    labels, queries, ents = list(w.labels()), list(w.queries()), list(w.entries())
    require(len(labels) == len(model) and set(labels) == set(model), "%s: labels %s, expected %s", what, labels, sorted(map(str, model)))
    require([l for l, _ in ents] == labels and [q for _, q in ents] == queries, "%s: entries, labels and queries are in different order: %s / %s / %s", what, ents, labels, queries)
    for l, q in ents:
        require(q in [query(i) for i in model[l]] and w[l] == q, "%s: query %r is %s / %s instead of %s", what, l, q, w[l], [text(i) for i in model[l]])
    require(set(w) == set(model) and set(w.keys()) == set(model), "%s: iterates over %s", what, list(w))
    if order_known:
        key = natsort.natsort_keygen()
        require(all(key(a) <= key(b) for a, b in zip(labels, labels[1:])), "%s: labels are not in natural order: %s", what, labels)
    require(w.head() == (ents[0] if ents else None), "%s: head is %s, the entries are %s", what, w.head(), ents)
    for q in set(queries):
        l = w.label_of(q)
        require(l in w and w[l] == q, "%s: label_of(%s) is %r", what, q, l)
    try:
        l = w.label_of(parse_query(FOREIGN, bind_columns=False))
    except KeyError:
        pass
    else:
        fail(f"{what}: label_of() of a foreign query is {l}")
    for l in ("no such label", -5):
        require(l not in w, "%s: contains %r", what, l)
        try:
            w[l]
        except KeyError:
            pass
        else:
            fail(f"{what}: [] of an unknown label")
    str(w), repr(w)
    return labels


def snapshot(w):
    return list(w.entries()), list(w.items()), w.name


def check_ops(spec):
    ints, name = spec["ints"], spec["name"]
    model = {l: {i} for l, i in spec["entries"]}
    w = Workload({l: query(i) for l, i in spec["entries"]}, name=name, root=Path(spec["root"]) if spec["root"] else None)
    natural = True
    labels = check_workload(w, model, natural, "the initial workload", name)
    for op, arg, kind in spec["ops"]:
        what = f"{op}({arg})"
        before = snapshot(w)
        wrap = {"list": list, "set": set, "iter": iter, "tuple": tuple}[kind]
        if op == "first":
            new, nmodel, natural = w.first(arg), {l: model[l] for l in labels[:arg]}, True
        elif op == "last":
            new, nmodel, natural = w.last(arg), {l: model[l] for l in labels[max(0, len(labels) - arg):]}, True
        elif op == "with_labels":
            new, nmodel, natural = w.with_labels(wrap(arg)), {l: m for l, m in model.items() if l in arg}, True
        elif op == "-labels":
            new, nmodel, natural = w - wrap(arg), {l: m for l, m in model.items() if l not in arg}, True
        elif op == "&labels":
            new, nmodel, natural = w & wrap(arg), {l: m for l, m in model.items() if l in arg}, True
        elif op == "with_prefix":
            if any(not isinstance(l, str) for l in model):
                continue
            new, nmodel, natural = w.with_prefix(arg), {l: m for l, m in model.items() if l.startswith(arg)}, True
        elif op == "filter_by":
            on, k = arg
            pred = (lambda l, q: len(str(l)) % k == 0) if on == "label" else (lambda l, q: any(q == query(i) for i in range(0, 9, k)))
            expected = {l: q for l, q in w.entries() if pred(l, q)}
            new, nmodel, natural = w.filter_by(pred), {l: m for l, m in model.items() if l in expected}, True
        elif op in ("relabel", "transform"):
            if any(isinstance(l, int) != ints for l in model) or (arg == 2 and any(not isinstance(l, int if ints else str) for l in model)):
                continue
            target = {l: new_label(l, arg, ints) for l in model}
            if len(set(target.values())) != len(target):
                continue
            if op == "relabel":
                new, nmodel = w.relabel(lambda l, q: new_label(l, arg, ints)), {target[l]: m for l, m in model.items()}
            else:
                chosen = {l: next(i for i in model[l] if query(i) == w[l]) for l in model}
                new = w.transform(lambda l, q, plus, *, times: (new_label(l, arg, ints), query(chosen[l] * times + plus)), 1, times=2)
                nmodel = {target[l]: {chosen[l] * 2 + 1} for l in model}
            natural = True
        elif op == "map":
            chosen = {l: next(i for i in model[l] if query(i) == w[l]) for l in model}
            by_query = {query(i): i for i in chosen.values()}
            new, nmodel, natural = w.map(lambda q, plus, *, mod: query((by_query[q] + plus) % mod), arg, mod=3), {l: {(i + arg) % 3} for l, i in chosen.items()}, True
        elif op == "pick_random":
            new = w.pick_random(arg)
            require(len(new) == min(arg, len(model)) and set(new) <= set(model), "%s of %s yields %s", what, labels, list(new))
            nmodel, natural = {l: model[l] for l in new}, True
        elif op == "shuffle":
            new, nmodel, natural = w.shuffle(), model, False
        elif op == "ordered":
            new, nmodel, natural = w.ordered(), model, True
        elif op == "copy":
            new, nmodel = copy.copy(w), model
        else:
            if any(isinstance(l, int) != ints for l in model):
                continue
            other_model = {l: {i} for l, i in arg}
            other = Workload({l: query(i) for l, i in arg}, name="other")
            other_before = snapshot(other)
            if op == "-":
                new, nmodel = w - other, {l: m for l, m in model.items() if l not in other_model}
            elif op == "&":
                new, nmodel = w & other, {l: m | other_model[l] for l, m in model.items() if l in other_model}
            else:
                nmodel = {**other_model, **model}  # "retain own labels in case of conflict"
                new = w + other if op == "+" else w | (other if op == "|" else dict(other))
            natural = True
            require(snapshot(other) == other_before, "%s modifies its operand", what)
        require(snapshot(w) == before, "%s modifies the workload from %s to %s", what, before, snapshot(w))
        labels = check_workload(new, nmodel, natural, what, name)
        w, model = new, nmodel


def nontrivial_ops(s):
    return len(s["entries"]) > 2 and len(s["ops"]) > 1


# -- reading

STEMS = ["1a", "10a", "2a", "q-1", "q1", "a.b", "x y", "é"]
DIRS = ["q1", "q2", "v1.0", "v1.1", "deep"]
BROKEN = ["SELECT FROM WHERE", "SELEC r.a FROM r", "DROP"]


@composite
def sql_file(d, encoding):
    kind = d.weighted([(8, "ok"), (2, "broken")])
    if kind == "broken":
        return {"broken": d.choice(BROKEN)}
    return {"i": d.int(0, 9), "str": d.choice([None, "plain", "two\nlines", "äöü" if encoding != "ascii" else "abc", "trailing \n\n x", "it''s"]), "layout": d.choice(["one", "many", "comment"]), "hint": d.flag(25), "unqualified": d.flag(30),
            "eol": d.choice(["\n", "\n", "", "\n\n"])}


def file_text(f):
    if "broken" in f:
        return f["broken"]
    r = "" if f.get("unqualified") else "r."
    where = f"{r}a = {f['i']}" + (f" AND {r}b = '{f['str']}'" if f["str"] is not None else "")
    hint = "/*+ SeqScan(r) */ " if f["hint"] else ""
    sep = "\n" if f["layout"] != "one" else " "
    comment = "-- a comment; with a semicolon\n" if f["layout"] == "comment" and not f["hint"] else ""
    return f"{hint}{comment}SELECT {r}a{sep}FROM r{sep}WHERE {where};{f['eol']}"


@composite
def dir_spec(d):
    enc = d.choice(["utf-8", "utf-8", "latin-1"])
    files = []
    for _ in range(d.int(1, 6)):
        sub = d.weighted([(4, []), (3, [d.choice(DIRS)]), (1, [d.choice(DIRS), d.choice(DIRS)])])
        ext = d.weighted([(8, ".sql"), (1, ".txt"), (1, ".SQL.bak")])
        files.append([sub, d.choice(STEMS), ext, d.any(sql_file(enc))])
    if d.flag(60):
        files = [f for f in files if "broken" not in f[3]]
    return {"files": files, "encoding": enc, "prefix": d.choice(["", "", "pre/", "pre", "a/b/"]), "recurse": d.flag(60), "on_error": d.choice([None, "raise", "warn", "ignore"]), "pattern": d.choice([None, None, "q*.sql", "*.txt"]),
            "hints": d.flag(70), "how": d.choice(["read_workload", "read_workload", "Workload.read", "predefined"]), "name": d.choice(["", "wl"]), "str": d.flag(50), "bind": d.choice([None, True, False]),
            "pool": d.flag(40)}


def matches(pattern, filename):
    if pattern == "q*.sql":
        return filename.startswith("q") and filename.endswith(".sql")
    return filename.endswith(pattern[1:])


def check_dir(spec):
    base = tempfile.mkdtemp(prefix="c25-")
    pb.reset()
    try:
        if spec["pool"] and spec["how"] != "predefined":
            schema = pb.fake_schema({"r": ["a", "b"]})
            DatabasePool.get_instance().register_database("stub", types.SimpleNamespace(schema=lambda: schema))
        _check_dir(spec, Path(base))
    finally:
        pb.reset()
        shutil.rmtree(base, ignore_errors=True)


def _check_dir(spec, base):
    how = spec["how"]
    predefined = {"job": ["job", "imdb"], "job-light": ["job-light", "joblight"], "stats": ["stats"], "stack": ["stack"], "ssb": ["ssb"]}
    root = base / "queries"
    if how == "predefined":
        kind = sorted(predefined)[len(spec["files"]) % len(predefined)]
        alias = predefined[kind][len(spec["name"]) % len(predefined[kind])]
        root = base / "workloads" / kind
    root.mkdir(parents=True)
    content = {}
    for sub, stem, ext, f in spec["files"]:
        path = root.joinpath(*sub)
        path.mkdir(parents=True, exist_ok=True)
        (path / (stem + ext)).write_bytes(file_text(f).encode(spec["encoding"]))
        content[tuple(sub), stem, ext] = f
    recurse = spec["recurse"] if how == "read_workload" else how == "predefined" and kind == "stack"
    pattern = (spec["pattern"] or "*.sql") if how != "predefined" else "*.sql"
    chosen = {k: f for k, f in content.items() if (recurse or not k[0]) and matches(pattern, k[1] + k[2])}
    broken = [k for k, f in chosen.items() if "broken" in f]
    hints = spec["hints"] if how != "predefined" else True
    action = (spec["on_error"] or "raise") if how != "predefined" else "raise"
    kw = {}
    if how != "predefined":
        kw = {"include_hints": hints, "name": spec["name"]}
        if spec["pattern"]:
            kw["query_file_pattern"] = spec["pattern"]
        if spec["on_error"]:
            kw["on_error"] = spec["on_error"]
        if spec["bind"] is not None:
            kw["bind_columns"] = spec["bind"]
        if how == "read_workload":
            kw |= {"recurse_subdirectories": spec["recurse"], "query_label_prefix": spec["prefix"]}
        else:
            kw["label_prefix"] = spec["prefix"]
    kw["file_encoding"] = spec["encoding"]
    what = f"{how}({kw})"
    error = None
    with warnings.catch_warnings(record=True) as caught:
        warnings.simplefilter("always")
        try:
            arg = str(root) if spec["str"] else root
            if how == "predefined":
                old = workloads.pbdir
                workloads.pbdir = base
                try:
                    w = workloads.fetch_workload(alias, **kw)
                finally:
                    workloads.pbdir = old
            else:
                w = (workloads.read_workload if how == "read_workload" else Workload.read)(arg, **kw)
        except ValueError as e:
            error = e
    if broken and action == "raise":
        require(error is not None, "%s: the unparseable files %s did not raise", what, broken)
        return
    if how == "predefined" and not chosen:
        require(error is not None, "%s: an empty workload directory did not raise", what)
        return
    if error is not None:
        raise error
    if action == "warn":
        require(sum("Could not parse" in str(c.message) or any(k[1] + k[2] in str(c.message) for k in broken) for c in caught) >= len(broken), "%s: %s broken files, warnings: %s", what, len(broken), [str(c.message) for c in caught])
    prefix = spec["prefix"] if how != "predefined" else ""
    good = {k: f for k, f in chosen.items() if "broken" not in f}
    options = [{p + "/".join([*k[0], k[1] + (Path(k[1] + k[2]).stem[len(k[1]):])]): f for k, f in good.items()} for p in ([prefix, prefix + "/"] if how == "read_workload" and prefix and not prefix.endswith("/") else [prefix])]
    expected = [o for o in options if set(o) == set(w)]
    require(expected, "%s: labels %s, expected %s", what, sorted(w), sorted(options[0]))
    require(len(expected[0]) == len(good), "two files share a label")
    for label, f in expected[0].items():
        q = w[label]
        require(isinstance(q, SqlQuery), "%s: %r is %r", what, label, q)
        # reading binds the unqualified columns (by default), provided that there is a schema
        binds = spec["pool"] and spec["bind"] is not False and how != "predefined"
        ref = parse_query(file_text(f), include_hints=hints, bind_columns=binds)
        if f.get("unqualified"):
            require(all(c.is_bound() == binds for c in q.columns()), "%s: columns %s of %s, bound columns expected: %s", what, q.columns(), label, binds)
        require(q == ref and str(q) == str(ref), "%s: query %r is %s, the file contains %s", what, label, str(q), str(ref))
        if f["str"] is not None:
            require(f["str"] in str(q), "%s: the string %r of query %r became %s", what, f["str"], label, str(q))
        require(f["layout"] == "comment" or (q.hints is not None) == (hints and f["hint"]), "%s: hints of %r: %s", what, label, q.hints)
    require(list(w.labels()) == natsort.natsorted(w.labels()), "%s: labels are not in natural order: %s", what, list(w.labels()))
    if spec["name"] and how != "predefined":
        require(w.name == spec["name"], "%s: name %r", what, w.name)


@composite
def seq_spec(d):
    n = d.int(1, 7)
    how = d.choice(["batch", "csv", "csv", "generate", "generate-labels", "wrap"])
    return {"how": how, "queries": [d.int(0, 5) for _ in range(n)], "blank": [d.flag(20) for _ in range(n)], "labels": d.some(LABELS[:-1], n, n), "label_kind": d.choice([None, "str", "int"]), "last_newline": d.flag(70),
            "text": d.choice([None, "äö", "x, y", 'say "hi"']), "encoding": d.choice(["utf-8", "utf-8", "latin-1"]), "name": d.choice(["", "named"]), "column": d.choice(["query", "sql text"]), "extra": d.flag(40),
            "bad": d.weighted([(8, None), (1, "SELECT FROM")]), "sep": d.choice([",", ",", ";"]), "root": d.choice([None, "str", "path"]), "iter": d.flag(50), "ws": d.flag(30)}


def seq_query(spec, i):
    t = text(i)
    return t if spec["text"] is None else t[:-1] + f" AND r.b = '{spec['text']}';"


def check_seq(spec):
    base = tempfile.mkdtemp(prefix="c25-")
    pb.reset()
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            _check_seq(spec, Path(base))
    finally:
        shutil.rmtree(base, ignore_errors=True)


def _check_seq(spec, base):
    how, texts = spec["how"], [seq_query(spec, i) for i in spec["queries"]]
    parsed = [parse_query(t, bind_columns=False) for t in texts]
    name = spec["name"]
    if how == "batch":
        lines, positions = [], []
        for t, blank in zip(texts, spec["blank"]):
            if blank:
                lines.append("   " if spec["ws"] else "")
            lines.append(t)
            positions.append(len(lines))
        if spec["bad"]:
            lines.append(spec["bad"])
        file = base / "batch.txt"
        file.write_bytes(("\n".join(lines) + ("\n" if spec["last_newline"] else "")).encode(spec["encoding"]))
        try:
            w = workloads.read_batch_workload(str(file), name, file_encoding=spec["encoding"])
        except Exception as e:
            require(spec["bad"], "read_batch_workload fails on %r: %r", lines, e)
            return
        require(not spec["bad"], "read_batch_workload accepts the line %r", spec["bad"])
        options, inferred = [list(range(1, len(texts) + 1)), positions], "batch"
    elif how == "csv":
        labels = spec["labels"] if spec["label_kind"] == "str" else [7 * k + 3 for k in range(len(texts))][::-1]
        file = base / "data.csv"
        with open(file, "w", newline="", encoding=spec["encoding"]) as f:
            wr = csv.writer(f, delimiter=spec["sep"])
            head = [spec["column"]] + (["lbl"] if spec["label_kind"] else []) + (["other"] if spec["extra"] else [])
            wr.writerow(head)
            for t, l in zip(texts, labels):
                try:
                    (t + str(l)).encode(spec["encoding"])
                except UnicodeEncodeError:
                    return
                wr.writerow([t] + ([l] if spec["label_kind"] else []) + (["zz"] if spec["extra"] else []))
        kw = {"query_column": spec["column"]} if spec["column"] != "query" else {}
        if spec["label_kind"]:
            kw["label_column"] = "lbl"
        pd_args = {"sep": spec["sep"]}
        if spec["label_kind"] == "str":
            pd_args["dtype"] = {"lbl": str}
        if pd_args != {"sep": ","}:
            kw["pd_args"] = dict(pd_args)
        w = workloads.read_csv_workload(str(file) if spec["root"] == "str" else file, name, file_encoding=spec["encoding"], **kw)
        if "pd_args" in kw:
            require(kw["pd_args"] == pd_args, "read_csv_workload modifies pd_args: %s", kw["pd_args"])
        options, inferred = [labels if spec["label_kind"] else list(range(1, len(texts) + 1))], "data"
    else:
        root = {None: None, "str": "/data/root.d", "path": Path("/data/root.d")}[spec["root"]]
        inferred = "root" if root else ""
        kw = {"name": name}
        qs = iter(parsed) if spec["iter"] else list(parsed)
        if how == "wrap":
            if root:
                kw["root"] = root
            w = workloads.wrap_workload(qs, **kw)
        else:
            if root:
                kw["workload_root"] = root
            if how == "generate-labels":
                given = dict(zip(parsed, spec["labels"]))
                w = workloads.generate_workload(qs, labels=dict(given), **kw)
                require(dict(w) == {l: q for q, l in given.items()}, "generate_workload with labels %s yields %s", {str(q): l for q, l in given.items()}, {l: str(q) for l, q in w.items()})
                return
            w = workloads.generate_workload(qs, **kw)
        options = [list(range(1, len(texts) + 1))]
    got = {l: str(q) for l, q in w.items()}
    require(any({l: str(p) for l, p in zip(o, parsed)} == got for o in options), "%s of %s yields %s", how, [str(p) for p in parsed], got)
    require(all(w[l] == p for o in options[:1] for l, p in zip(o, parsed) if l in w and len(options) == 1), "%s: queries differ", how)
    require(w.name == (name or inferred), "%s: name %r, expected %r", how, w.name, name or inferred)
    require(all(type(l) is int for l in w) or spec["label_kind"] == "str" or all(hasattr(l, "__index__") for l in w), "%s: labels %s", how, list(w))


FACETS = [
    Facet("operations", ops_spec, check_ops, 6000, 100000, "at least three queries and two operations", nontrivial_ops, classify=lambda s: sorted({o[0] for o in s["ops"]})),
    Facet("directories", dir_spec, check_dir, 2500, 40000, "at least two files", lambda s: len(s["files"]) > 1, classify=lambda s: [s["how"], "recursive" if s["recurse"] else "flat", "on_error " + str(s["on_error"])]),
    Facet("sequences", seq_spec, check_seq, 3000, 50000, "at least two queries", lambda s: len(s["queries"]) > 1, classify=lambda s: [s["how"], "duplicates" if len(set(s["queries"])) < len(s["queries"]) else "distinct"]),
]
