"""C22: statistics, most common values and histograms describe the actual data (checked on quacklab)."""
from __future__ import annotations

import atexit
import collections
import datetime as dt
import decimal
import math
import warnings

from pbt import pb
from pbt.draw import composite
from pbt.engine import Facet, fail, require
from postbound import ColumnReference, TableReference
from postbound._core import UnboundColumnError, VirtualTableError, quote
from postbound.db import Histogram, MostCommonValues, UnsupportedDatabaseFeatureError
from postbound import duckdb as dd

ASSUMPTIONS = ["NULL may or may not appear among the most common values", "native row counts are judged on tables without deletions only"]
TABLES = ["r", "order", "Mixed Case", "s2.r", "s2.only", "select"]
COLUMNS = ["id", "val", "select", "my col", "Upper", "n", 'q"q']
TYPES = ["INTEGER", "VARCHAR", "DATE", "DOUBLE", "BOOLEAN", "DECIMAL(8,2)", "TIMESTAMP"]


def value(typ, n):
    match typ:
        case "INTEGER":
            return n - 3
        case "VARCHAR":
            return ["", "a", "A", "ab", "b'c", "zz", "%", "Ω"][n % 8] + ("x" * (n // 8))
        case "DATE":
            return dt.date(2019, 12, 25) + dt.timedelta(days=n * n)
        case "TIMESTAMP":
            return dt.datetime(2019, 12, 31, 23, 59) + dt.timedelta(seconds=n * 31)
        case "DOUBLE":
            return (n - 2) * 0.5
        case "BOOLEAN":
            return n % 2 == 1
        case _:
            return decimal.Decimal(n * 25 - 50) / 100


def gen_column(d, n_rows):
    typ = d.choice(TYPES)
    top = d.choice([0, 1, 3, 8, 20])
    nulls = d.weighted([(5, 0), (2, 30), (1, 100)])
    return typ, [None if d.flag(nulls) else d.weighted([(2, d.int(0, top)), (1, min(top, d.int(0, 2)))]) for _ in range(n_rows)]


@composite
def statistics(d):
    tables = []
    for name in d.some(TABLES, 1, 3):
        n = d.weighted([(1, 0), (1, 1), (6, d.int(2, 14)), (2, d.int(15, 40))])
        tables.append({"name": name, "cols": [[c, *gen_column(d, n)] for c in d.some(COLUMNS, 1, 2)], "n": n})
    return {"tables": tables, "alias": d.flag(30), "bins": d.choice([1, 2, 3, 4, 7, 10, 50]), "k": d.choice([1, 2, 3, 5, 10]), "grow": d.flag(50), "probe": d.int(0, 20),
            "interpolation": d.choice(["bound", "approx-uni"]), "fallback": d.flag(80)}


def raises(exc, fn, *args, **kwargs):
    try:
        r = fn(*args, **kwargs)
    except exc:
        return
    fail(f"{getattr(fn, '__name__', fn)}{args} {kwargs} returns {r} instead of raising {exc.__name__}")


def sort_key(v):
    return (v is not None, v)


def check_mcv(mcv, values, k, what):
    """the list holds true (value, frequency) pairs and no more frequent value is missing"""
    counts = collections.Counter(values)
    without = collections.Counter(v for v in values if v is not None)
    require(all(counts.get(v) == f for v, f in mcv), "%s: wrong frequencies %s for the values %s", what, list(mcv), dict(counts))
    require(len({v for v, _ in mcv}) == len(mcv), "%s: a value occurs twice in %s", what, list(mcv))
    freqs = [f for _, f in mcv]
    allowed = [sorted(c.values(), reverse=True)[:k] for c in (counts, without)]
    require(freqs in allowed, "%s: frequencies %s instead of %s", what, freqs, allowed[0])
    check_mcv_class(mcv, list(mcv), what)


def check_mcv_class(mcv, pairs, what):
    require(list(mcv) == sorted(pairs, key=lambda p: (p[1], sort_key(p[0])), reverse=True), "%s: %s is not sorted by frequency and value", what, list(mcv))


def in_bucket(h, v):
    """index of the bucket that contains v (right-closed buckets)"""
    return next(i for i, b in enumerate(h.bounds) if v <= b)


def check_estimates(h, bounds, freqs, lower, v, what, values=None):
    n = sum(freqs)
    cum = [0]
    for f in freqs:
        cum.append(cum[-1] + f)
    numeric = isinstance(v, (int, float, dt.date, dt.datetime))
    for mode in ("bound", "approx-uni"):
        h.bucket_interpolation = mode
        require(h.bucket_interpolation == mode, "interpolation is %s", h.bucket_interpolation)
        if v < lower:
            lo_b = hi_b = 0
        elif v >= bounds[-1]:
            lo_b = hi_b = n
        else:
            i = next(i for i, b in enumerate(bounds) if v <= b)
            if v == bounds[i]:
                lo_b = hi_b = cum[i + 1]
            else:
                lo_b, hi_b = cum[i], cum[i + 1]
        if not numeric and mode == "approx-uni" and lower <= v < bounds[-1] and v not in bounds:
            if v == lower:
                continue
            raises(ValueError, h.frequency_below, v)
            raises(ValueError, h.frequency_above, v)
            continue
        below, above = h.frequency_below(v), h.frequency_above(v)
        if lo_b == hi_b:
            require(below == lo_b, "%s (%s): frequency_below(%s) is %s instead of %s", what, mode, v, below, lo_b)
            require(above == n - lo_b, "%s (%s): frequency_above(%s) is %s instead of %s", what, mode, v, above, n - lo_b)
            continue
        if mode == "bound":
            require(below == hi_b, "%s: the bound for frequency_below(%s) is %s instead of %s", what, v, below, hi_b)
            require(above == n - lo_b, "%s: the bound for frequency_above(%s) is %s instead of %s", what, v, above, n - lo_b)
        else:
            start = bounds[i - 1] if i else lower
            want = lo_b + (v - start) / (bounds[i] - start) * (hi_b - lo_b)
            require(abs(below - want) <= 1, "%s: frequency_below(%s) interpolates to %s instead of %s", what, v, below, want)
            require(abs(above - (n - want)) <= 1, "%s: frequency_above(%s) interpolates to %s instead of %s", what, v, above, n - want)
        if values is not None and mode == "bound":
            require(below >= sum(x <= v for x in values) and above >= sum(x > v for x in values), "%s: the bounds %s, %s for %s are exceeded", what, below, above, v)


def check_histogram(h, values, n_bins, interpolation, probe, typ, what):
    values = sorted(v for v in values if v is not None)
    if not values:
        require(h is None, "%s: histogram without values is %s", what, h)
        return
    require(h is not None, "%s: no histogram", what)
    require(h.bucket_interpolation == interpolation, "%s: interpolation is %s instead of %s", what, h.bucket_interpolation, interpolation)
    bounds, freqs = list(h.bounds), [f for _, f in h]
    require(all(a < b for a, b in zip(bounds, bounds[1:])), "%s: bounds %s are not ascending", what, bounds)
    require(h.lower == values[0] and h.upper == values[-1], "%s: the histogram ranges from %s to %s, the values from %s to %s", what, h.lower, h.upper, values[0], values[-1])
    require(h.n_rows == len(values) == sum(freqs), "%s: the histogram represents %s rows instead of %s", what, h.n_rows, len(values))
    require(h.n_buckets == len(h) == len(bounds) <= n_bins, "%s: %s buckets for n_bins=%s", what, len(bounds), n_bins)
    previous = None
    for i, (b, f) in enumerate(zip(bounds, freqs)):
        inside = [v for v in values if v <= b and (previous is None or v > previous)]
        require(f == len(inside), "%s: bucket %s has frequency %s instead of %s", what, i, f, len(inside))
        require(sum(v < b for v in inside) < math.ceil(len(values) / n_bins), "%s: bucket %s of %s is too large for %s bins", what, i, freqs, n_bins)
        previous = b
    probes = {value(typ, probe), values[0], values[-1], values[len(values) // 2], bounds[0]}
    for v in probes:
        check_estimates(h, bounds, freqs, h.lower, v, what, values)


def check_statistics(spec):
    pb.reset()
    original = atexit.register
    atexit.register = lambda f, *a, **k: f
    db = None
    try:
        db = dd.DuckDBInterface(":memory:", cache_enabled=False)
        check_database(spec, db)
    finally:
        atexit.register = original
        if db is not None:
            db.close()


def check_database(spec, db):
    cur = db.cursor()
    cur.execute("SET threads = 1")
    cur.execute("CREATE SCHEMA s2")
    st = db.statistics()
    st.cache_enabled = False
    tables = []
    for t in spec["tables"]:
        schema, _, name = t["name"].rpartition(".")
        ref = TableReference(name, "al" if spec["alias"] else "", schema=schema)
        full = f'{schema}."{name}"' if schema else f'"{name}"'
        cols = [(c, typ, [None if x is None else value(typ, x) for x in vals]) for c, typ, vals in t["cols"]]
        cur.execute(f"CREATE TABLE {full} (" + ", ".join('"{}" {}'.format(c.replace('"', '""'), typ) for c, typ, _ in cols) + ")")
        tables.append((full, ref, cols, t["n"]))
        insert(cur, full, cols, range(t["n"]))
    for emulated in (True, False, None):
        st.emulated = emulated if emulated is not None else spec["fallback"]
        per_call = emulated if spec["alias"] else None
        for full, ref, cols, n in tables:
            check_table(spec, st, ref, cols, n, per_call)
    raises(VirtualTableError, st.total_rows, TableReference.create_virtual("v"))
    for fn in (st.num_distinct, st.min_max, st.most_common_values, st.histogram):
        raises(UnboundColumnError, fn, ColumnReference("x"))
        raises(VirtualTableError, fn, ColumnReference("x", TableReference.create_virtual("v")))
    st.emulated, st.enable_emulation_fallback = False, False
    col = ColumnReference(tables[0][2][0][0], tables[0][1])
    for fn in (st.num_distinct, st.min_max, st.most_common_values, st.histogram):
        raises(UnsupportedDatabaseFeatureError, fn, col)
    st.emulated, st.enable_emulation_fallback = True, True
    raises(ValueError, st.histogram, col)
    if spec["grow"]:            # without caching, the statistics follow the data
        for full, ref, cols, n in tables:
            for c in cols:
                c[2].extend(c[2][:3] + [None if spec["probe"] % 2 else value(c[1], spec["probe"])])
            insert(cur, full, cols, range(n, len(cols[0][2])))
            check_table(spec, st, ref, cols, len(cols[0][2]), None)


def insert(cur, full, cols, rows):
    for i in rows:
        cur.execute(f"INSERT INTO {full} VALUES ({', '.join('?' for _ in cols)})", [vals[i] for _, _, vals in cols])


def check_table(spec, st, ref, cols, n, emulated):
    kw = {} if emulated is None else {"emulated": emulated}
    rows = st.total_rows(ref, **kw)
    require(rows == n and type(rows) is int, "total_rows(%s) is %r instead of %s", ref, rows, n)
    for c, typ, values in cols:
        col = ColumnReference(c, ref)
        nonnull = [v for v in values if v is not None]
        distinct = st.num_distinct(col, **kw)
        require(distinct == len(set(nonnull)), "num_distinct(%s) is %s instead of %s", col, distinct, len(set(nonnull)))
        require(st.distinct_values(col, **kw) == distinct, "distinct_values differs from num_distinct")
        want = (min(nonnull), max(nonnull)) if nonnull else (None, None)
        got = st.min_max(col, **kw)
        require(got == want, "min_max(%s) is %s instead of %s", col, got, want)
        for k in (spec["k"], 10, None if spec["alias"] else -1):
            mcv = st.most_common_values(col, **kw) if k == 10 else st.most_common_values(col, k=k, **kw)
            require(isinstance(mcv, MostCommonValues), "most_common_values returns %s", type(mcv))
            check_mcv(mcv, values, None if k in (None, -1) else k, f"most_common_values({col}, k={k})")
        native = emulated is False or (emulated is None and not st.emulated)
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            h = st.histogram(col, n_bins=spec["bins"], interpolation=spec["interpolation"], **kw)
        check_histogram(h, values, 100 if native else spec["bins"], spec["interpolation"], spec["probe"], typ, f"histogram({col}, {spec['bins']})")


@composite
def mcv_lists(d):
    typ = d.choice(["INTEGER", "VARCHAR", "DATE", "DOUBLE"])
    n = d.weighted([(1, 0), (6, d.int(1, 7)), (1, 15)])
    values = d.some(range(16), n, n)
    return {"typ": typ, "pairs": [[v, d.int(1, d.choice([2, 5, 60]))] for v in values], "null": d.weighted([(3, 0), (1, d.int(1, 5))]), "k": d.int(0, 9), "probe": d.int(0, 17), "default": d.choice([0, 1, 7])}


def check_mcv_list(spec):
    pairs = [(value(spec["typ"], v), f) for v, f in spec["pairs"]]
    if spec["null"]:
        pairs.append((None, spec["null"]))
    mcv = MostCommonValues(iter(pairs))
    check_mcv_class(mcv, pairs, "MCV list")
    ordered = list(mcv)
    require(len(mcv) == mcv.k == len(pairs) and bool(mcv) == bool(pairs), "size of %s", mcv)
    require([mcv[i] for i in range(len(pairs))] == ordered, "indexing of %s", mcv)
    require(list(mcv.values) == [v for v, _ in ordered] and list(mcv.frequencies) == [f for _, f in ordered], "values %s, frequencies %s of %s", mcv.values, mcv.frequencies, mcv)
    freqs = [f for _, f in pairs]
    require(mcv.min_freq == min(freqs, default=0) and mcv.max_freq == max(freqs, default=0), "frequencies of %s range from %s to %s", mcv, mcv.min_freq, mcv.max_freq)
    top, rest = mcv.top(spec["k"]), mcv.below(spec["k"])
    require(list(top) == ordered[:spec["k"]] and list(rest) == ordered[spec["k"]:], "top/below(%s) of %s are %s and %s", spec["k"], mcv, top, rest)
    for v in [v for v, _ in pairs] + [value(spec["typ"], spec["probe"])]:
        known = dict(pairs).get(v)
        require((v in mcv) == (known is not None), "%s in %s", v, mcv)
        require(mcv.frequency_of(v) == known, "frequency_of(%s) is %s in %s", v, mcv.frequency_of(v), mcv)
        require(mcv.frequency_of(v, bound_missing=False) == known, "frequency_of(%s) is %s in %s", v, mcv.frequency_of(v), mcv)
        for kw, fallback in (({"bound_missing": True}, mcv.min_freq), ({"default": spec["default"]}, spec["default"]), ({"default": spec["default"], "bound_missing": True}, spec["default"])):
            got = mcv.frequency_of(v, **kw)
            require(got == (fallback if known is None else known), "frequency_of(%s, %s) is %s in %s", v, kw, got, mcv)


@composite
def histograms(d):
    n = d.int(1, 6)
    lower = d.int(0, 6)
    bounds, at = [], lower
    for k in range(n):
        at += d.int(0 if not k else 1, 5)
        bounds.append(at)
    return {"typ": d.choice(["INTEGER", "DATE", "DOUBLE", "VARCHAR", "TIMESTAMP"]), "lower": lower, "bounds": bounds, "freqs": [d.weighted([(5, d.int(1, 30)), (1, 0)]) for _ in bounds],
            "probes": [d.int(0, 40) for _ in range(6)], "mode": d.choice(["bound", "approx-uni", None])}


def check_histogram_class(spec):
    typ = spec["typ"]

    def val(n):
        return f"k{n:03}" if typ == "VARCHAR" else value(typ, n)
    bounds, freqs, lower = [val(b) for b in spec["bounds"]], spec["freqs"], val(spec["lower"])
    kw = {"bucket_interpolation": spec["mode"]} if spec["mode"] else {}
    h = Histogram(iter(bounds), iter(freqs), lower=lower, **kw)
    require(h.bucket_interpolation == (spec["mode"] or "bound"), "interpolation is %s", h.bucket_interpolation)
    require(list(h.bounds) == bounds and h.lower == lower and h.upper == bounds[-1], "bounds of %s", h)
    require(h.n_buckets == len(h) == len(bounds) and h.n_rows == sum(freqs) and h.freq_per_bucket == sum(freqs) // len(bounds), "sizes of %s", h)
    require(list(h) == list(zip(bounds, freqs)) == [h[i] for i in range(len(h))], "content of %s", h)
    require(h == Histogram(bounds, freqs, lower=lower, **kw), "%s is not equal to its copy", h)
    other = list(freqs)
    other[spec["probes"][0] % len(other)] += 1
    require(h != Histogram(bounds, other, lower=lower, **kw), "%s is equal to a different histogram", h)
    raises(ValueError, Histogram, [], [], lower=lower)
    raises(ValueError, Histogram, bounds, freqs + [1], lower=lower)
    try:
        h.bucket_interpolation = "nearest"
        fail("an unknown interpolation is accepted")
    except ValueError:
        pass
    probes = [val(p) for p in spec["probes"]] + bounds + [lower]
    for p in probes:
        check_estimates(h, bounds, freqs, lower, p, str(h))
    for mode in ("bound", "approx-uni"):
        if mode == "approx-uni" and typ == "VARCHAR":
            continue
        h.bucket_interpolation = mode
        below = [h.frequency_below(p) for p in sorted(probes)]
        require(all(a <= b + 1e-9 for a, b in zip(below, below[1:])), "frequency_below of %s is not monotone: %s", h, below)


def stat_classes(spec):
    vals = [v for t in spec["tables"] for _, _, col in t["cols"] for v in col]
    return [f"interpolation={spec['interpolation']}", "nulls" if None in vals else "no nulls", "ties" if len(set(vals)) < len(vals) else "all distinct"] + \
        ["quoted name" for t in spec["tables"] if quote(t["name"]) != t["name"]] + ["other schema" for t in spec["tables"] if "." in t["name"]] + ["empty table" for t in spec["tables"] if not t["n"]]


FACETS = [
    Facet("statistics", statistics, check_statistics, 320, 12000, "a column with at least two different values and a repeated value",
          lambda s: any(1 < len(set(c[2])) < len(c[2]) for t in s["tables"] for c in t["cols"]), stat_classes),
    Facet("mcv", mcv_lists, check_mcv_list, 1500, 40000, "at least two values of equal frequency", lambda s: len({f for _, f in s["pairs"]}) < len(s["pairs"]),
          lambda s: [s["typ"], "null" if s["null"] else "no null", f"size={min(len(s['pairs']), 8)}"]),
    Facet("histogram", histograms, check_histogram_class, 1500, 40000, "buckets of different sizes and a probe strictly inside of a bucket",
          lambda s: len(set(s["freqs"])) > 1 and any(p not in s["bounds"] and s["lower"] < p < s["bounds"][-1] for p in s["probes"]), lambda s: [s["typ"], f"buckets={len(s['bounds'])}"]),
]
