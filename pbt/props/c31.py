"""C31: template-based (CEB) workloads contain exactly the requested queries with values drawn as the template says."""
from __future__ import annotations

import atexit
import itertools
import json
import random
import re
import shutil
import tempfile
from pathlib import Path

import numpy as np

from pbt import pb
from pbt.draw import composite
from pbt.engine import Facet, fail, require
from postbound import duckdb as dd
from postbound.experiments import ceb

ASSUMPTIONS = ["a SamplingError is only judged for templates without dependencies, whose number of possible queries is known",
               "templates of one directory have different titles"]
_DB: list = []
MOVIE = {"id": "INTEGER", "year": "INTEGER", "kind": "VARCHAR", "rating": "DOUBLE", "released": "DATE", "flag": "BOOLEAN"}
INFO = {"id": "INTEGER", "mid": "INTEGER", "note": "VARCHAR", "val": "BIGINT", "seen": "TIMESTAMP", "price": "DECIMAL(10,2)"}
TABLES = {"movie": MOVIE, "info": INFO}
VALUES = {"INTEGER": [0, 1, 2, 3, 1990], "BIGINT": [0, 1, -4, 7000000000], "VARCHAR": ["", "a", "b", "it's", "x y", "50%", "abc", "''"],
          "DOUBLE": [0.0, 1.5, -2.25], "DATE": ["2020-01-31", "1999-12-01", "2020-10-10"], "BOOLEAN": [True, False],
          "TIMESTAMP": ["2020-01-31 10:11:12", "1999-12-01 00:00:00"], "DECIMAL(10,2)": ["0.10", "12.50", "3.00"]}
OPS = ["=", "<", ">", "<=", ">=", "<>"]
REAL_RNG = np.random.default_rng


def database():
    if not _DB:
        original = atexit.register
        atexit.register = lambda f, *a, **k: f
        try:
            _DB.append(dd.DuckDBInterface(Path(":memory:")))
        finally:
            atexit.register = original
        for t, cols in TABLES.items():
            _DB[0]._cur.execute(f"CREATE TABLE {t} (" + ", ".join(f"{c} {ty}" for c, ty in cols.items()) + ")")
    return _DB[0]


def lit(v):
    return "NULL" if v is None else "'" + v.replace("'", "''") + "'" if isinstance(v, str) else str(v)


def gen_rows(d):
    rows = {}
    for t, cols in TABLES.items():
        rows[t] = [[k if c == "id" else d.int(0, 2) if c == "mid" else d.choice(VALUES[ty]) for c, ty in cols.items()] for k in range(d.int(1, 6))]
    return rows


def gen_diamond(d, title):
    """predicates that share dependencies, which often have to be drawn again because there are no values for them"""
    cols = d.permutation(["year", "kind", "rating", "released"])
    preds = []
    for k in range(d.int(3, 4)):
        deps = [] if k == 0 else ["P0"] if k == 1 else d.some([f"P{j}" for j in range(k)], 1, 2)
        p = {"name": f"P{k}", "alias": "m", "tab": "movie", "cols": [cols[k]], "ops": [d.weighted([(6, "="), (1, "<="), (1, "IN")]) if k else "="], "type": "sql" if k else "list", "sampling": d.choice(["uniform", "weighted"]),
             "brackets": False, "scalar_op": False, "bare": False, "weights": None, "deps": deps, "min": None, "max": None, "distinct": False,
             "extra": d.choice(["", "", "m.flag = TRUE", "m.id > 1", "m.id < 2", "m.flag = FALSE"]) if k else "",
             "options": [[v] for v in VALUES[MOVIE[cols[k]]]] if k == 0 else []}
        preds.append(p)
    return {"title": title, "from": [["movie", "m"]], "preds": preds, "order": d.permutation(list(range(len(preds)))), "n": 1}


def gen_template(d, title):
    if d.flag(25):
        return gen_diamond(d, title)
    frm = d.choice([[["movie", "m"]], [["movie", ""]], [["movie", "m"], ["info", "i"]], [["movie", ""], ["info", "i"]], [["movie", ""], ["info", ""]],
                    [["movie", "m"], ["info", "i"], ["movie", "m2"]]])
    preds = []
    for k in range(d.weighted([(2, 1), (4, 2), (4, 3), (1, 4)])):
        tab, alias = d.choice(frm)
        usable = [c for c in TABLES[tab]]
        cols = d.some(usable, 1, d.weighted([(3, 1), (2, 2)]))
        kind = d.choice(["list", "sql", "sql"])
        ops = [d.choice(OPS) if TABLES[tab][c] != "VARCHAR" or d.flag(50) else d.choice(["LIKE", "ILIKE"]) for c in cols]
        if len(cols) == 1 and d.flag(35):
            ops = ["IN"]
        p = {"name": f"P{k}", "alias": alias or tab, "tab": tab, "cols": cols, "ops": ops, "type": kind, "sampling": d.choice(["uniform", "weighted"]),
             "brackets": d.flag(20), "scalar_op": len(cols) == 1 and d.flag(30), "bare": d.flag(20) and not (any(c == "id" for c in cols) or len(frm) == 3), "weights": None,
             "deps": [], "min": None, "max": None, "options": [], "distinct": d.flag(30)}
        if p["sampling"] == "weighted" and d.flag(45):
            p["weights"] = d.int(1, len(cols) + 1)
        if kind == "list":
            for _ in range(d.int(1, 4)):
                opt = [d.choice(VALUES[TABLES[tab][c]]) for c in cols]
                if p["weights"]:
                    if opt in [o[:p["weights"] - 1] + o[p["weights"]:] for o in p["options"]]:
                        continue
                    opt.insert(p["weights"] - 1, d.choice([1, 2, 5] if p["ops"] == ["IN"] or not p["options"] else [0, 1, 2, 5]))
                p["options"].append(opt)
        else:
            p["deps"] = d.some([q["name"] for q in preds], 0, 2) if preds and d.flag(85) else []
        if p["ops"] == ["IN"]:
            p["min"] = d.choice([None, None, 1, 2])
            p["max"] = d.choice([None, None, 1, 2, 3])
            if p["min"] and p["max"] and p["max"] < p["min"]:
                p["max"] = p["min"]
        preds.append(p)
    return {"title": title, "from": frm, "preds": preds, "order": d.permutation(list(range(len(preds)))), "n": d.weighted([(3, 1), (3, 2), (2, 4), (1, 7)])}


@composite
def templates(d):
    return {"rows": gen_rows(d), "templates": [gen_template(d, f"t{k}") for k in range(d.weighted([(5, 1), (2, 2)]))], "per": d.weighted([(3, 1), (3, 2), (2, 4), (1, 8)]),
            "raw": d.flag(70), "persist": d.flag(30), "seed": d.int(0, 999)}


def key(p, k):
    return f"{p['name']}_K{k}"


def condition(p):
    return [f"{p['alias']}.{c} {op} <<{key(p, k)}>>" for k, (c, op) in enumerate(zip(p["cols"], p["ops"]))]


def from_clause(t):
    joins = ["{}.id = {}.mid".format(t["from"][0][1] or "movie", t["from"][1][1] or "info")] if len(t["from"]) > 1 else []
    if len(t["from"]) > 2:
        joins.append("m2.id = m.id")
    return "FROM " + ", ".join(b + (f" AS {a}" if a else "") for b, a in t["from"]), joins


def base_sql(t):
    frm, conds = from_clause(t)
    conds = conds + [c for p in t["preds"] for c in condition(p)]
    return f"SELECT COUNT(*) {frm} WHERE " + " AND ".join(conds)


def pred_sql(t, p):
    frm, conds = from_clause(t)
    by = {q["name"]: q for q in t["preds"]}
    conds = conds + [c for dep in p["deps"] for c in condition(by[dep])]
    conds += [p["extra"]] if p.get("extra") else []
    cols = [f"{p['alias']}.{c}" for c in p["cols"]]
    out = list(cols)
    if p["weights"]:
        out.insert(p["weights"] - 1, "COUNT(*) AS cnt")
    where = (" WHERE " + " AND ".join(conds)) if conds else ""
    return f"SELECT {'DISTINCT ' if p['distinct'] and not p['weights'] else ''}{', '.join(out)} {frm}{where}" + (f" GROUP BY {', '.join(cols)}" if p["weights"] else "")


def toml(v):
    if isinstance(v, bool):
        return "true" if v else "false"
    if isinstance(v, list):
        return "[" + ", ".join(toml(x) for x in v) + "]"
    if isinstance(v, dict):
        return "{ " + ", ".join(f"{k} = {toml(x)}" for k, x in v.items()) + " }"
    return json.dumps(v)


def template_file(t):
    aliases = {(a or b): (b if a else "") for b, a in t["from"]}
    lines = [f"title = {toml(t['title'])}", "", "[base_sql]", f"sql = {toml(base_sql(t))}", f"table_aliases = {toml(aliases)}"]
    for k in t["order"]:
        p = t["preds"][k]
        lines += ["", "[[predicates]]", f"name = {toml(p['name'])}"]
        keys = [key(p, i) for i in range(len(p["cols"]))]
        lines.append("keys = " + toml([f"<<{x}>>" for x in keys] if p["brackets"] else keys))
        lines.append("columns = " + toml([c if p["bare"] else f"{p['alias']}.{c}" for c in p["cols"]]))
        lines.append("pred_type = " + toml(p["ops"][0] if p["scalar_op"] else p["ops"]))
        lines.append(f"sampling_method = {toml(p['sampling'])}")
        lines.append(f"type = {toml(p['type'])}")
        if p["deps"]:
            lines.append(f"dependencies = {toml(p['deps'])}")
        if p["weights"]:
            lines.append(f"weights_column = {p['weights']}")
        if p["min"] is not None:
            lines.append(f"min_samples = {p['min']}")
        if p["max"] is not None:
            lines.append(f"max_samples = {p['max']}")
        if p["type"] == "list":
            lines.append("options = " + toml([o[0] if len(o) == 1 else o for o in p["options"]]))
        else:
            lines.append(f"sql = {toml(pred_sql(t, p))}")
    return "\n".join(lines) + "\n"


LITERAL = r"'(?:[^']|'')*'|[^\s()',]+"


def matcher(t):
    pattern, names = re.escape(base_sql(t)), []
    for p in t["preds"]:
        for k, op in enumerate(p["ops"]):
            want = rf"\((?:{LITERAL})(?:, *(?:{LITERAL}))*\)" if op == "IN" else LITERAL
            pattern = pattern.replace(re.escape(f"<<{key(p, k)}>>"), f"(?P<{key(p, k)}>{want})")
            names.append(key(p, k))
    return re.compile(pattern + r"\s*")


def cast(con, literal, typ, what):
    try:
        return con.execute(f"SELECT ({literal})::{typ}").fetchall()[0][0]
    except Exception as e:  # noqa: BLE001
        fail(f"{what}: {literal} is no {typ} value ({e})")


def candidates(con, t, p, found):
    """candidate rows (without weights) of a predicate under the given literals, as a multiset"""
    if p["type"] == "list":
        rows = [tuple(o) for o in p["options"]]
        typs = [TABLES[p["tab"]][c] for c in p["cols"]]
        if p["weights"]:
            typs.insert(p["weights"] - 1, "INTEGER")
        rows = [tuple(con.execute(f"SELECT ?::{ty}", [v]).fetchall()[0][0] for v, ty in zip(r, typs)) for r in rows]
    else:
        sql = re.sub(r"<<(\w+)>>", lambda m: found[m.group(1)], pred_sql(t, p))
        rows = con.execute(sql).fetchall()
    if p["weights"]:
        rows = [r[:p["weights"] - 1] + r[p["weights"]:] for r in rows if r[p["weights"] - 1] > 0]
    return rows


def check_query(con, t, rx, sql):
    m = rx.fullmatch(sql.strip().rstrip(";"))
    require(m is not None, "query %r of template %s does not follow %r", sql, t["title"], base_sql(t))
    found = m.groupdict()
    for p in t["preds"]:
        rows = candidates(con, t, p, found)
        typs = [TABLES[p["tab"]][c] for c in p["cols"]]
        if p["ops"] == ["IN"]:
            vals = [cast(con, x, typs[0], f"{p['name']} in {sql}") for x in re.findall(LITERAL, found[key(p, 0)][1:-1])]
            require(len(vals) == len(set(vals)), "IN list of %s repeats values: %s", p["name"], sql)
            require(set(vals) <= {r[0] for r in rows}, "values %s of %s are not all among %s: %s", vals, p["name"], rows, sql)
            require((p["min"] or 1) <= len(vals) <= (p["max"] or len(vals)), "%s has %s values, allowed are %s to %s: %s", p["name"], len(vals), p["min"], p["max"], sql)
            continue
        vals = []
        for k, (ty, op) in enumerate(zip(typs, p["ops"])):
            x = found[key(p, k)]
            if op in ("LIKE", "ILIKE"):
                require(x.startswith("'%") and x.endswith("%'") and len(x) >= 4, "%s pattern of %s is %s: %s", op, p["name"], x, sql)
                x = "'" + x[2:-2] + "'"
            vals.append(cast(con, x, ty, f"{p['name']} in {sql}"))
        require(tuple(vals) in rows, "values %s of %s are not among %s: %s", vals, p["name"], rows, sql)
    try:
        con.execute(sql).fetchall()
    except Exception as e:  # noqa: BLE001
        fail(f"{sql} does not run: {type(e).__name__} {e}")


def possible(con, t):
    """number of different queries of a template without dependencies (counted up to 100)"""
    total = 1
    for p in t["preds"]:
        distinct = len(set(candidates(con, t, p, {})))
        if p["ops"] == ["IN"]:
            lo, hi = p["min"] or 1, min(p["max"] or distinct, distinct)
            distinct = sum(len(list(itertools.islice(itertools.permutations(range(distinct), k), 100))) for k in range(lo, hi + 1))
        total = min(total * distinct, 100)
    return total


def prepare(spec):
    pb.reset()
    db = database()
    con = db._cur
    for t, rows in spec["rows"].items():
        con.execute(f"DELETE FROM {t}")
        for r in rows:
            con.execute(f"INSERT INTO {t} VALUES ({', '.join(lit(v) for v in r)})")
    return db, con


def check_templates(spec):
    db, con = prepare(spec)
    random.seed(spec["seed"])
    rng = REAL_RNG(spec["seed"])
    np.random.default_rng = lambda *a: rng
    folder = Path(tempfile.mkdtemp(prefix="pbt_ceb_"))
    try:
        for t in spec["templates"]:
            (folder / f"{t['title']}.toml").write_text(template_file(t))
        plain = all(not p["deps"] for t in spec["templates"] for p in t["preds"])
        room = min(possible(con, t) for t in spec["templates"]) if plain else None
        uniform = plain and all(p["sampling"] == "uniform" and p["ops"] != ["IN"] for t in spec["templates"] for p in t["preds"])
        fn = ceb.generate_raw_workload if spec["raw"] else ceb.generate_workload
        try:
            wl = fn(folder, queries_per_template=spec["per"], db_connection=db)
        except ceb.SamplingError as e:
            require(not (uniform and room >= 2 * spec["per"]), "%s although every template has %s different queries", e, room)
            require("{" not in str(e), "error message %r", str(e))
            return {"queries": 0, "deps": not plain}
        except Exception as e:  # noqa: BLE001
            fail(f"{type(e).__name__}: {e} for template {template_file(spec['templates'][0])!r}")
        require(room is None or room >= spec["per"], "%s queries are generated, but there are only %s different ones: %s", spec["per"], room, dict(wl if spec["raw"] else {}))
        entries = {label: str(q) for label, q in (wl.items() if spec["raw"] else wl.entries())}
        want = {f"{t['title']}-{k}" for t in spec["templates"] for k in range(1, spec["per"] + 1)}
        require(set(entries) == want, "labels are %s instead of %s", sorted(entries), sorted(want))
        require(len(set(entries.values())) == len(entries), "queries are not unique: %s", entries)
        for t in spec["templates"]:
            rx = matcher(t)
            if spec["raw"]:
                for k in range(1, spec["per"] + 1):
                    check_query(con, t, rx, entries[f"{t['title']}-{k}"])
            else:
                for k in range(1, spec["per"] + 1):
                    con.execute(entries[f"{t['title']}-{k}"])
        if not spec["raw"]:
            require(wl.root == folder if hasattr(wl, "root") else True, "root is not %s", folder)
        if spec["persist"]:
            out = folder / "out"
            out.mkdir()
            ceb.persist_workload(out, wl)
            files = {f.stem: f.read_text() for f in out.iterdir()}
            require(set(files) == set(entries), "files %s for queries %s", sorted(files), sorted(entries))
            for label, text in files.items():
                if spec["raw"]:
                    require(text.strip() == entries[label].strip(), "file %s contains %r instead of %r", label, text, entries[label])
                else:
                    require(" ".join(text.split()).rstrip("; ") == " ".join(entries[label].split()).rstrip("; ") or con.execute(text).fetchall() == con.execute(entries[label]).fetchall(),
                            "file %s contains %r instead of %r", label, text, entries[label])
        return {"queries": len(entries), "deps": not plain}
    finally:
        np.random.default_rng = REAL_RNG
        shutil.rmtree(folder)


# ---------------------------------------------------------------- sampling weights

@composite
def weights(d):
    heavy, light = d.some([1, 2, 3], 2, 2)
    return {"type": d.choice(["list", "sql"]), "sampling": d.choice(["uniform", "weighted"]), "weights": d.choice([None, 1, 2]), "in": d.flag(40), "heavy": heavy, "light": light,
            "times": d.weighted([(2, 1), (3, 400)]), "seed": d.int(0, 10 ** 6), "heavy_first": d.flag(50)}


def check_weights(spec):
    """a value that is hundreds of times more frequent dominates weighted sampling and only that"""
    db, con = prepare({"rows": {"movie": [], "info": []}})
    random.seed(spec["seed"])
    rng = REAL_RNG(spec["seed"])
    w = spec["weights"] if spec["sampling"] == "weighted" else None
    a, b, n = spec["heavy"], spec["light"], spec["times"]
    values = [a] * n + [b] if spec["heavy_first"] else [b] + [a] * n
    if spec["type"] == "sql":
        con.execute("INSERT INTO movie (id, year) VALUES " + ", ".join(f"({k}, {v})" for k, v in enumerate(values)))
    pairs = [(a, n), (b, 1)] if spec["heavy_first"] else [(b, 1), (a, n)]
    options = [list(p) if w == 2 else list(p)[::-1] for p in pairs] if w else values
    sql = "SELECT year FROM movie" if not w else "SELECT year, COUNT(*) FROM movie GROUP BY year" if w == 2 else "SELECT COUNT(*), year FROM movie GROUP BY year"
    text = "\n".join(['title = "w"', "[base_sql]", f"sql = \"SELECT COUNT(*) FROM movie m WHERE m.year {'IN' if spec['in'] else '='} <<Y>>\"", 'table_aliases = { m = "movie" }',
                      "[[predicates]]", 'name = "Y"', 'keys = ["Y"]', 'columns = ["m.year"]', f"pred_type = [\"{'IN' if spec['in'] else '='}\"]",
                      f"sampling_method = \"{spec['sampling']}\"", f"type = \"{spec['type']}\"", "max_samples = 1", f"weights_column = {w}" if w else "",
                      f"options = {toml(options)}" if spec["type"] == "list" else f"sql = {toml(sql)}"]) + "\n"
    np.random.default_rng = lambda *x: rng
    folder = Path(tempfile.mkdtemp(prefix="pbt_ceb_"))
    try:
        (folder / "w.toml").write_text(text)
        got = []
        for _ in range(60):
            q = ceb.generate_raw_workload(folder, queries_per_template=1, db_connection=db)["w-1"]
            m = re.fullmatch(r"SELECT COUNT\(\*\) FROM movie m WHERE m.year (?:IN|=) \(?(\d)\)?", q.strip())
            require(m is not None, "query %r", q)
            got.append(int(m.group(1)))
    finally:
        np.random.default_rng = REAL_RNG
        shutil.rmtree(folder)
    require(set(got) <= {a, b}, "%s generates values %s", text, got)
    light = got.count(b)
    if spec["sampling"] == "uniform" or n == 1:  # probability 1/2 each: outside of 5..55 with a probability below 1e-10
        require(5 <= light <= 55, "uniform sampling draws %s %s times out of 60: %s", b, light, text)
    else:                                   # probability below 1/300 each
        require(light <= 8, "weighted sampling draws the rare value %s %s times out of 60: %s", b, light, text)
    return {}


def labels(s):
    preds = [p for t in s["templates"] for p in t["preds"]]
    return ["deps" if any(p["deps"] for p in preds) else "plain", "raw" if s["raw"] else "parsed", f"per={s['per']}"] + sorted({x for p in preds for x in (p["type"], p["sampling"])} | {o for p in preds for o in p["ops"]})


FACETS = [
    Facet("templates", templates, check_templates, 480, 20000, "several predicates or a predicate with several values per case",
          nontrivial=lambda s: any(len(t["preds"]) > 1 or len(t["preds"][0]["cols"]) > 1 or t["preds"][0]["ops"] == ["IN"] for t in s["templates"]), classify=labels, shards=8),
    Facet("weights", weights, check_weights, 60, 1500, "every case draws 60 values",
          classify=lambda s: [s["type"], s["sampling"], "IN" if s["in"] else "scalar", "weights" if s["weights"] else "counted"]),
]
