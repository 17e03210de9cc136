"""C32: training datasets and repositories deliver exactly the requested features, in order, with exactly their samples."""
from __future__ import annotations

import json
import shutil
import tempfile
from pathlib import Path

import pandas as pd

from pbt import pb
from pbt.draw import composite
from pbt.engine import Facet, fail, require
from postbound import Cardinality, SqlQuery, util
from postbound.train import TrainingData, TrainingDataRepository, TrainingSpec

ASSUMPTIONS = ["features are unique within a specification, column names are unique within a data frame",
               "data frame indexes of results are not judged, only the samples and their order"]
FEATURES = ["query", "runtime_ms", "cardinality", "estimated_cost", "query_plan", "custom"]
RAW = ["sql_query", "t", "card", "cost", "plan", "label", "extra", "cardinality", "runtime_ms"]
SQLS = ["SELECT * FROM r", "SELECT COUNT(*) FROM r, s WHERE r.a = s.a AND r.b < 5", "SELECT r.a FROM r ORDER BY r.a", "SELECT * FROM s WHERE s.x = 'it''s'"]


def gen_dataset(d, base):
    feats = d.some(FEATURES, 1, 5)
    style = d.choice(["plain", "df", "renamed", "mixed", "shared"])
    cols = {}
    for f in feats:
        free = [c for c in RAW + FEATURES if c not in cols.values() and c not in feats]
        cols[f] = f if style in ("plain", "df") or (style == "mixed" and d.flag(50)) else d.choice(free)
    if style == "shared" and len(feats) > 1:
        cols[feats[1]] = cols[feats[0]]
    used = set(cols.values())
    extras = d.some([c for c in RAW + ["extra2"] if c not in used and c not in feats], 0, 2) if style != "df" else []
    if style == "renamed" and d.flag(25) and all(f not in used for f in feats):
        extras.append(d.choice(feats))        # an unrelated column has the name of a feature
    n = d.int(0, 4)
    frame = d.permutation(sorted(used) + [e for e in extras if e not in used])
    return {"features": feats, "map": cols, "frame": frame, "n": n, "base": base, "df": style == "df", "index": d.choice([None, None, "shift", "same", "str"])}


def value(ds, col, i):
    if col == "query" and ds["df"]:
        return SQLS[(ds["base"] + i) % len(SQLS)]
    return ds["base"] * 1000 + ds["frame"].index(col) * 10 + i


def frame(ds):
    f = pd.DataFrame({c: [value(ds, c, i) for i in range(ds["n"])] for c in ds["frame"]})
    if ds["index"] == "shift":
        f.index = [i + 7 for i in range(ds["n"])]
    elif ds["index"] == "same":
        f.index = [0] * ds["n"]
    elif ds["index"] == "str":
        f.index = [f"r{i}" for i in range(ds["n"])]
    return f


def build(ds, keep=None):
    f = frame(ds)
    before = f.copy(deep=True)
    if ds["df"]:
        f = f[ds["features"]]
        before = f.copy(deep=True)
        data = TrainingData.from_df(f, source="x.csv")
        require(f.equals(before), "from_df changes the given data frame: %s instead of %s", f.values.tolist(), before.values.tolist())
    else:
        data = TrainingData(f, feature_map={f: ds["map"][f] for f in ds["features"]})
    if keep is not None:
        keep.append((f, before))
    return data


class Model:
    """features in order -> list of values"""

    def __init__(self, feats, rows):
        self.feats, self.rows = list(feats), rows     # rows: list of dicts

    @staticmethod
    def of(ds):
        return Model(ds["features"], [{f: value(ds, ds["map"][f], i) for f in ds["features"]} for i in range(ds["n"])])


def cell(v):
    return str(v) if isinstance(v, SqlQuery) else v


def norm_sql(v):
    return " ".join(v.rstrip("; ").split()) if isinstance(v, str) else v


def same_rows(got, want, fmt, *args):
    got = [[norm_sql(cell(v)) for v in r] for r in got]
    want = [[norm_sql(v) for v in r] for r in want]
    require(got == want, fmt + ": %s instead of %s", *args, got, want)


def check_data(data, m, what, ordered=True):
    require(len(data) == len(m.rows), "%s has %s samples instead of %s", what, len(data), len(m.rows))
    feats = list(data.spec.features)
    require(set(feats) == set(m.feats) and len(feats) == len(m.feats), "%s provides %s instead of %s", what, feats, m.feats)
    if ordered:
        require(feats == m.feats, "%s provides its features in the order %s instead of %s", what, feats, m.feats)
    require(set(data.feature_map) == set(m.feats), "feature map of %s is %s", what, data.feature_map)
    for f in FEATURES:
        require(data.provides(f) == (f in m.feats), "%s provides(%s) = %s", what, f, data.provides(f))
    whole = data.as_df()
    for f in m.feats:
        if list(data.feature_map.values()).count(data.feature_map[f]) > 1:
            continue                            # a column that provides several features cannot be renamed to all of them
        require(list(whole.columns).count(f) >= 1, "as_df() of %s has no column %s: %s", what, f, list(whole.columns))
        if list(whole.columns).count(f) == 1:
            same_rows([[v] for v in whole[f]], [[r[f]] for r in m.rows], "feature %s in as_df() of %s", f, what)
    for i in range(len(m.rows)):
        same_rows([data[i]], [[m.rows[i][f] for f in feats]], "sample %s of %s", i, what)
    same_rows([list(x) for x in data], [[r[f] for f in feats] for r in m.rows], "iteration over %s", what)
    for f in m.feats:
        if f == "query" and m.rows and all(isinstance(r[f], str) for r in m.rows):
            require(all(isinstance(v, SqlQuery) for v in data.as_df(TrainingSpec("query"))["query"]), "queries of %s are not parsed", what)


def spec_of(feats, how):
    if how == "args":
        return TrainingSpec(*feats)
    if how == "single" and len(feats) == 1:
        return TrainingSpec(feats[0])
    if how == "gen":
        return TrainingSpec(f for f in feats)
    if how == "keys":
        return TrainingSpec({f: 1 for f in feats}.keys())
    return TrainingSpec(tuple(feats) if how == "tuple" else list(feats))


HOW = ["args", "list", "tuple", "gen", "keys", "single"]


def raises(exc, what, fn, *args, **kw):
    try:
        r = fn(*args, **kw)
    except exc:
        return
    fail(f"{what}: {r} instead of {exc.__name__}")


# ---------------------------------------------------------------- specifications

@composite
def specs(d):
    return {"a": d.some(FEATURES, 1, 5), "b": d.some(FEATURES, 1, 5), "ask": d.some(FEATURES, 1, 3), "how": [d.choice(HOW) for _ in range(3)], "perm": d.int(0, 5)}


def check_specs(s):
    a, b = spec_of(s["a"], s["how"][0]), spec_of(s["b"], s["how"][1])
    for sp, feats in ((a, s["a"]), (b, s["b"])):
        require(list(sp.features) == feats and list(sp) == feats, "features of TrainingSpec(%s) are %s / %s", feats, list(sp.features), list(sp))
        require(sp.feature_set == frozenset(feats), "feature set of %s is %s", feats, sp.feature_set)
    require((a == b) == (set(s["a"]) == set(s["b"])), "%s == %s is %s", s["a"], s["b"], a == b)
    twin = TrainingSpec(s["a"][s["perm"] % len(s["a"]):] + s["a"][:s["perm"] % len(s["a"])])
    require(a == twin and hash(a) == hash(twin), "%s and %s are not equal", a, twin)
    require(a != s["a"], "a spec equals a list")
    v = a.satisfies(b)
    missing = set(s["b"]) - set(s["a"])
    require(set(v.missing_features) == missing and bool(v) == (not missing) and v.contains_violations() == bool(missing), "%s.satisfies(%s) is %s", a, b, v)
    ask = s["ask"][0] if s["how"][2] == "single" else {"gen": (f for f in s["ask"]), "keys": dict.fromkeys(s["ask"]).keys(), "tuple": tuple(s["ask"]), "args": set(s["ask"])}.get(s["how"][2], s["ask"])
    want = set(s["ask"][:1] if s["how"][2] == "single" else s["ask"]) <= set(s["a"])
    method = a.provides if s["perm"] % 2 else a.requires
    require(method(ask) == want, "%s provides/requires %s (%s): not %s", a, s["ask"], s["how"][2], want)


# ---------------------------------------------------------------- datasets

@composite
def datasets(d):
    sets = [gen_dataset(d, k + 1) for k in range(d.int(1, 4))]
    ops = []
    n = len(sets)
    for _ in range(d.int(2, 8)):
        op = d.weighted([(4, "as_df"), (4, "conform"), (3, "merge_with"), (4, "merge"), (2, "change")])
        k = d.int(0, n - 1)
        feats = d.some(FEATURES, 1, 3)
        if d.flag(75):
            feats = None        # drawn from the features of the dataset(s) at run time
        ops.append([op, k, feats, d.choice(HOW), d.int(0, 999), d.int(0, n - 1), d.some(list(range(n)), 1, 3)])
        if op in ("conform", "merge_with", "merge") and n < 8:
            n += 1
    return {"sets": sets, "ops": ops}


def pick(feats, seed):
    out, pool = [], sorted(feats)
    for _ in range(1 + seed % max(1, len(pool))):
        out.append(pool.pop(seed % len(pool)))
        seed //= 2
    return out


def check_datasets(s):
    keep = []
    live = [(build(ds, keep), Model.of(ds), f"dataset {k}") for k, ds in enumerate(s["sets"])]
    for k, (data, m, what) in enumerate(live):
        check_data(data, m, what)
        require((data.source == Path("x.csv")) if s["sets"][k]["df"] else data.source is None, "source of %s is %s", what, data.source)
    for op, k, feats, how, seed, other, many in s["ops"]:
        data, m, what = live[k % len(live)]
        ask = feats or pick(m.feats, seed)
        ok = set(ask) <= set(m.feats)
        if op == "as_df":
            if not ok:
                raises(ValueError, f"as_df({ask}) of {m.feats}", data.as_df, spec_of(ask, how))
                continue
            got = data.as_df(spec_of(ask, how))
            require(list(got.columns) == ask, "as_df(%s) of %s has columns %s", ask, what, list(got.columns))
            same_rows(got.values.tolist(), [[r[f] for f in ask] for r in m.rows], "as_df(%s) of %s", ask, what)
            if len(got):
                got.iloc[0, 0] = -1
                check_data(data, m, what + " after changing a result")
        elif op == "conform":
            arg = spec_of(ask, how) if seed % 2 else ({"tuple": tuple(ask), "gen": (f for f in ask), "keys": dict.fromkeys(ask).keys()}.get(how, list(ask)))
            if not ok:
                raises(ValueError, f"conform_to({ask}) of {m.feats}", data.conform_to, arg)
                continue
            live.append((data.conform_to(arg), Model(ask, m.rows), f"{what} conform {ask}"))
            check_data(*live[-1])
        elif op == "merge_with":
            d2, m2, what2 = live[other % len(live)]
            if not set(m.feats) <= set(m2.feats):
                raises(ValueError, f"{m.feats} merged with {m2.feats}", data.merge_with, d2)
                continue
            live.append((data.merge_with(d2), Model(m.feats, m.rows + m2.rows), f"({what} merged with {what2})"))
            check_data(*live[-1])
        elif op == "merge":
            parts = [live[j % len(live)] for j in many]
            common = set.intersection(*[set(p[1].feats) for p in parts])
            ask = feats or (pick(common, seed) if common else ["nowhere"])
            if not set(ask) <= common:
                raises(ValueError, f"merge of {[p[1].feats for p in parts]} according to {ask}", TrainingData.merge, [p[0] for p in parts], according_to=spec_of(ask, how))
                continue
            given = [p[0] for p in parts]
            merged = TrainingData.merge(iter(given) if seed % 3 == 0 else given, according_to=spec_of(ask, how))
            live.append((merged, Model(ask, [r for p in parts for r in p[1].rows]), "merge of " + ", ".join(p[2] for p in parts)))
            check_data(*live[-1])
            require(set(merged.as_df().columns) == set(ask) or len(parts) == 1, "the merged dataset contains %s instead of %s", list(merged.as_df().columns), ask)
        elif op == "change" and len(live) > 1:
            d2, m2, _ = live[other % len(live)]
            if data is not d2 and [[r.get(f) for f in m.feats] for r in m.rows] != [[r.get(f) for f in m2.feats] for r in m2.rows]:
                require(data != d2, "different datasets %s and %s are equal", m.rows, m2.rows)
    for data, m, what in live:
        check_data(data, m, what + " at the end")
    for f, before in keep:
        require(f.equals(before), "the given data frame was changed to %s", f.values.tolist())


# ---------------------------------------------------------------- repositories

@composite
def repositories(d):
    return {"sets": [gen_dataset(d, k + 1) for k in range(d.int(0, 5))], "asks": [[d.some(FEATURES, 1, 3) if d.flag(50) else None, d.choice(HOW), d.int(0, 999), d.int(0, 9)] for _ in range(d.int(1, 5))]}


def check_repositories(s):
    repo, live = TrainingDataRepository(), []
    asks = list(s["asks"])
    for step in range(len(s["sets"]) + 1):
        for feats, how, seed, at in asks:
            if at % (len(s["sets"]) + 1) != step:
                continue
            ask = feats or (pick(live[seed % len(live)][1].feats, seed) if live else ["query"])
            match = [(d, m) for d, m in live if set(ask) <= set(m.feats)]
            spec = spec_of(ask, how)
            got = repo.retrieve_all(spec)
            require([id(x) for x in got] == [id(d) for d, _ in match], "retrieve_all(%s) returns %s", ask, got)
            first, merged = repo.retrieve_first(spec), repo.retrieve_merged(spec)
            if not match:
                require(first is None and merged is None, "retrieve(%s) returns %s / %s although nothing matches", ask, first, merged)
                continue
            check_data(first, Model(ask, match[0][1].rows), f"first dataset for {ask}")
            check_data(merged, Model(ask, [r for _, m in match for r in m.rows]), f"merged dataset for {ask}")
        if step < len(s["sets"]):
            ds = s["sets"][step]
            data = build(ds)
            require(repo.register(data) is repo, "register does not return the repository")
            live.append((data, Model.of(ds)))
    for d, m in live:
        check_data(d, m, "registered dataset at the end")


# ---------------------------------------------------------------- files

class Thing:
    def __init__(self, v):
        self.v = v

    def __json__(self):
        return {"v": self.v}


KINDS = {"int": [0, 1, -5, 2 ** 40], "float": [0.5, -1.25, 1e300], "str": ["", "a", "it's", 'q"x', "0a", "x,y", "ä", " z"], "nstr": ["a", "b c", None], "list": [[], [1, 2], ["a"]],
         "dict": [{}, {"a": 1}, {"b": [1]}], "thing": [1, "x"], "card": [0, 17], "query": SQLS, "mixed": ["a", [1], None], "bool": [True, False]}


@composite
def files(d):
    cols = [[f"c{k}", d.choice(sorted(KINDS))] for k in range(d.int(1, 4))]
    n = d.int(1, 4)
    return {"cols": [[c, k, [d.int(0, len(KINDS[k]) - 1) for _ in range(n)]] for c, k in cols], "ext": d.choice([".csv", ".parquet", ".json", ".feather", ".CSV"]),
            "deep": d.flag(30), "index": d.choice([None, None, "shift", "str"]), "train": d.flag(40)}


def obj(kind, v):
    return Thing(v) if kind == "thing" else Cardinality(v) if kind == "card" else pb.parse(v) if kind == "query" else v


def plain_json(kind, v):
    return {"v": v} if kind == "thing" else v


def check_files(s):
    pb.reset()
    raw = {c: [KINDS[k][i] for i in idx] for c, k, idx in s["cols"]}
    kinds = {c: k for c, k, _ in s["cols"]}
    df = pd.DataFrame({c: pd.Series([obj(kinds[c], v) for v in vs], dtype="object" if kinds[c] not in ("int", "float", "bool") else None) for c, vs in raw.items()})
    n = len(df)
    if s["index"] == "shift":
        df.index = [i + 3 for i in range(n)]
    elif s["index"] == "str":
        df.index = [f"r{i}" for i in range(n)]
    if s["ext"] in (".feather",) and s["index"]:
        df = df.reset_index(drop=True)
    before = {c: list(df[c]) for c in df.columns}
    folder = Path(tempfile.mkdtemp(prefix="pbt_train_"))
    try:
        path = folder / ("a/b/x" if s["deep"] else "x")
        path = path.with_suffix(s["ext"])
        util.write_df(df, path if s["deep"] else str(path))
        for c in df.columns:
            require(all(a is b or a == b for a, b in zip(df[c], before[c])), "write_df changes the column %s of the given data frame to %s", c, list(df[c]))
        got = util.read_df(path)
        require(list(got.columns) == list(raw) and len(got) == n, "%s: columns %s with %s rows instead of %s with %s", s["ext"], list(got.columns), len(got), list(raw), n)
        for c, vs in raw.items():
            have = list(got[c])
            for h, v, o in zip(have, vs, before[c]):
                k = kinds[c]
                if v is None or (v == "" and s["ext"].lower() == ".csv"):
                    require(h is None or h == "" or h != h, "%s: missing value in %s is read as %r", s["ext"], c, h)
                elif k in ("int", "float", "bool", "str", "nstr") or isinstance(v, str) and k == "mixed" and h == v:
                    close = h == v or (k == "float" and abs(h - v) <= 1e-9 * abs(v)) or (k in ("str", "nstr") and str(h) == v)
                    require(close, "%s: %r in %s is read as %r", s["ext"], v, c, h)
                else:
                    try:
                        back = json.loads(h) if isinstance(h, str) else h
                    except ValueError:
                        fail(f"{s['ext']}: {v!r} in {c} is read as {h!r}, which is no JSON")
                    want = plain_json(k, v)
                    require(back == want or (k == "query" and norm_sql(back) == norm_sql(str(o))) or (k == "card" and float(back) == float(v)), "%s: %r in %s is read as %r", s["ext"], v, c, h)
        if s["train"]:
            q = pd.DataFrame({"query": [SQLS[i % len(SQLS)] for i in range(n)], "runtime_ms": [i * 1.5 for i in range(n)], "cardinality": list(range(n))})
            path = (folder / "train").with_suffix(s["ext"])
            util.write_df(q, path)
            data = TrainingData.from_df(path if s["deep"] else str(path))
            require(data.source == path, "source is %s", data.source)
            check_data(data, Model(["query", "runtime_ms", "cardinality"], q.to_dict("records")), f"dataset read from {s['ext']}")
            require(all(isinstance(r[0], SqlQuery) for r in data), "queries are not parsed")
    finally:
        shutil.rmtree(folder)


FACETS = [
    Facet("specs", specs, check_specs, 400, 10000, "the specifications share and miss features", nontrivial=lambda s: bool(set(s["a"]) & set(s["b"])) and set(s["a"]) != set(s["b"]), shards=1),
    Facet("datasets", datasets, check_datasets, 700, 20000, "samples exist and datasets are merged, restricted or converted",
          nontrivial=lambda s: any(x["n"] for x in s["sets"]) and any(o[0] != "change" for o in s["ops"]),
          classify=lambda s: sorted({o[0] for o in s["ops"]} | {"renamed" for x in s["sets"] if any(f != c for f, c in x["map"].items())})),
    Facet("repositories", repositories, check_repositories, 400, 10000, "several datasets are registered", nontrivial=lambda s: len(s["sets"]) > 1),
    Facet("files", files, check_files, 300, 8000, "every case writes and reads a file", classify=lambda s: [s["ext"]] + sorted({k for _, k, _ in s["cols"]})),
]
