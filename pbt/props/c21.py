"""C21: query execution, result caching, timeouts and connection pooling follow their documented contract (checked on quacklab)."""
from __future__ import annotations

import atexit
import math
import os
import shutil
import tempfile
import time
from collections import UserString
from pathlib import Path

from pbt import pb
from pbt.draw import composite
from pbt.engine import Facet, fail, require
from postbound import ColumnReference, TableReference, qal, transform
from postbound.db import DatabasePool, current_database
from postbound import duckdb as dd

ASSUMPTIONS = ["forcing the cache for single queries while it is disabled for the database: persistence of the cache is not judged",
               "process exit is emulated by running the registered atexit handlers"]
QUERIES = ["select d.k, d.v from d where d.v > 2 order by d.k", "select d.w from d where d.k < 4 order by d.k", "select count(*) from d", "select min(d.v), max(d.v) from d",
           "select d.k from d where d.k > 900 order by d.k", "select d.t from d order by d.k limit 3", "select d.m from d where d.k = 1", "select max(d.t) from d",
           "select d.k, d.w, d.t, d.m, d.ts from d order by d.k", "select d.v from d where d.k = 2", "select avg(d.v) from d", "select d.ts from d where d.k < 3 order by d.k",
           "select d.b, d.k from d order by d.k", "select d.i from d where d.k < 3 order by d.k", "select sum(d.m) from d"]
STATS = ["rows", "distinct", "minmax"]


@composite
def history(d):
    ops = []
    for _ in range(d.int(4, 22)):
        op = d.weighted([(10, "q"), (2, "time"), (4, "mutate"), (2, "toggle"), (1, "reset"), (2, "restart"), (1, "reconnect"), (3, "stat")])
        if op == "q":
            ops.append(["q", d.weighted([(3, d.int(0, 3)), (2, d.int(0, len(QUERIES) - 1))]), d.weighted([(3, "str"), (5, "sql"), (2, "user"), (3, "prep"), (2, "hinted"), (2, "prep+hinted")]), d.choice([None, None, True, True, False]),
                        d.flag(50), d.weighted([(5, None), (1, 60)]), d.int(1, 4)])
        elif op == "time":
            ops.append(["time", d.int(0, 3), d.flag(60), d.weighted([(3, None), (1, 60)])])
        elif op == "mutate":
            ops.append(["mutate", d.choice(["insert", "delete", "update"]), d.int(1, 8)])
        elif op in ("toggle", "restart"):
            ops.append([op, d.flag(65)])
        elif op == "stat":
            ops.append(["stat", d.choice(STATS), d.choice([None, None, True, False]), d.choice([None, True, False])])
        elif op == "reconnect":
            ops.append(["reconnect", d.choice(["reset", "close"])])
        else:
            ops.append([op])
    return {"enabled": d.flag(60), "rows": d.int(0, 6), "ops": ops}


def simplified(rows):
    if not rows:
        return []
    if len(rows[0]) == 1:
        rows = [r[0] for r in rows]
    return rows[0] if len(rows) == 1 else rows


def same_value(a, b):
    """equal in type and value: rows are tuples, NaN equals itself"""
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return type(a) is type(b) and len(a) == len(b) and all(map(same_value, a, b))
    if isinstance(a, float) and isinstance(b, float) and math.isnan(a) and math.isnan(b):
        return True
    return type(a) is type(b) and a == b


class World:
    def __init__(self, folder):
        self.folder, self.handlers, self.dbs = folder, [], []
        self.old_register, self.old_cwd = atexit.register, os.getcwd()
        atexit.register = lambda f, *a, **k: self.handlers.append((f, a, k)) or f
        os.chdir(folder)

    def exit_process(self):
        handlers, self.handlers = self.handlers, []
        for f, a, k in reversed(handlers):
            f(*a, **k)

    def finish(self):
        atexit.register = self.old_register
        os.chdir(self.old_cwd)
        for db in self.dbs:
            try:
                db.close()
            except Exception:
                pass
        shutil.rmtree(self.folder, ignore_errors=True)


def check_history(spec):
    pb.reset()
    w = World(tempfile.mkdtemp(prefix="pbt-c21-"))
    try:
        run_history(spec, w)
    finally:
        w.finish()


def run_history(spec, w):
    def connect(enabled):
        db = dd.DuckDBInterface(Path(w.folder) / "data.duckdb", cache_enabled=enabled)
        w.dbs.append(db)
        return db
    db = connect(spec["enabled"])
    cur = db.cursor()
    cur.execute("CREATE TABLE d (k INTEGER, v INTEGER, w VARCHAR, t DATE, m DECIMAL(8,2), ts TIMESTAMP, b BOOLEAN, i INTERVAL)")
    counter = [0]

    def insert(n):
        for _ in range(n):
            k = counter[0] = counter[0] + 1
            cur.execute(f"INSERT INTO d VALUES ({k}, {k * 7 % 5}, {'NULL' if k % 4 == 0 else repr('w' + str(k % 3))}, DATE '2020-01-{k % 28 + 1:02}', {k}.{k % 10}5, "
                        f"TIMESTAMP '2021-02-03 04:05:{k % 60:02}', {'true' if k % 2 else 'NULL'}, INTERVAL {k} HOUR)")
    insert(spec["rows"])
    # the model
    cache, default, persistent, disk = {}, spec["enabled"], spec["enabled"], None
    for step, op in enumerate(spec["ops"]):
        at = f"at step {step} {op}"
        if op[0] == "mutate":
            if op[1] == "insert":
                insert(op[2])
            elif op[1] == "delete":
                cur.execute(f"DELETE FROM d WHERE k = {op[2]}")
            else:
                cur.execute(f"UPDATE d SET v = v + 1, w = 'u' WHERE k >= {op[2]}")
        elif op[0] == "toggle":
            if op[1] and cache and not persistent:
                continue        # whether results that were cached before are persisted as well is not specified
            db.cache_enabled = op[1]
            default = op[1]
            require(db.cache_enabled == op[1], "cache_enabled is %s %s", db.cache_enabled, at)
            if op[1]:
                persistent = True
                if not cache and disk is not None:
                    cache = dict(disk)
        elif op[0] == "reset":
            db.reset_cache()
            cache = {}
        elif op[0] == "reconnect":
            cur = None
            if op[1] == "close":
                db.close()
                db.reconnect()
            else:
                db.reset_connection()
            cur = db.cursor()
        elif op[0] == "restart":
            cur = None
            w.exit_process()
            if persistent:
                disk = dict(cache)
            db = connect(op[1])
            cur = db.cursor()
            cache, default, persistent = dict(disk or {}) if op[1] else {}, op[1], op[1]
        elif op[0] == "stat":
            table = TableReference("d")
            col = ColumnReference("v", table)
            db.statistics().cache_enabled = op[3]
            live = cur.execute({"rows": "SELECT count(*) FROM d", "distinct": "SELECT count(DISTINCT v) FROM d", "minmax": "SELECT min(v), max(v) FROM d"}[op[1]]).fetchall()
            st = db.statistics()
            fn, arg = {"rows": (st.total_rows, table), "distinct": (st.num_distinct, col), "minmax": (st.min_max, col)}[op[1]]
            got = fn(arg, emulated=True, cache_enabled=op[2])
            use = op[2] if op[2] is not None else op[3] if op[3] is not None else default
            want = cache.setdefault(("stat", op[1]), live) if use else live
            require(same_value(got, simplified(want)), "statistics return %s instead of %s (live %s) %s", got, simplified(want), live, at)
        elif op[0] == "time":
            # the query is always executed and its result is never cached
            before = db.last_query_runtime()
            for _ in range(4):  # two executions may take exactly the same number of nanoseconds
                got = db.time_query(pb.parse(QUERIES[op[1]]), **({"timeout": op[3]} if op[3] else {})) if op[2] else db.time_query(QUERIES[op[1]])
                if got != before:
                    break
            require(got == db.last_query_runtime() and 0 <= got < 600, "time_query returns %s, but the last runtime is %s %s", got, db.last_query_runtime(), at)
            require(got != before, "time_query did not execute the query: the runtime is still %s %s", before, at)
        else:
            _, qi, kind, use, raw, timeout, threads = op
            sql = QUERIES[qi]
            live = cur.execute(sql).fetchall()
            query = sql
            if kind in ("sql", "prep", "hinted", "prep+hinted"):
                query = pb.parse(sql)
                prep = f"SET default_null_order = '{'nulls_last' if threads % 2 else 'nulls_first'}';\nSET threads = {threads};" if "prep" in kind else ""
                if kind != "sql":
                    query = transform.add_clause(query, qal.Hint(prep, "/* a hint block */" if "hinted" in kind else ""))
            elif kind == "user":
                query = UserString(sql)
            before = db.last_query_runtime()
            got = db.execute_query(query, cache_enabled=use, raw=raw, **({"timeout": timeout} if timeout else {}))
            after = db.last_query_runtime()
            key = ("text" if kind in ("str", "user") else "hinted" if "hinted" in kind else "query", qi)
            hit = False
            want = live
            if use or (use is None and default):
                hit = key in cache
                want = cache.setdefault(key, live)
            want = want if raw else simplified(want)
            require(same_value(got, want), "returned %s instead of %s (%s; live result %s) %s", got, want, "cached" if hit else "not cached", live, at)
            if hit:
                require(after == before or (math.isnan(after) and math.isnan(before)), "the runtime changed from %s to %s for a cached query %s", before, after, at)
            else:
                require(0 <= after < 600, "runtime is %s %s", after, at)
            if "prep" in kind:
                now = db._cur.execute("SELECT current_setting('threads')").fetchone()[0]
                require(now == threads, "threads is %s instead of %s %s", now, threads, at)
            if not raw and isinstance(got, list) and got and not isinstance(got[0], tuple):
                require(len(got) > 1, "single values are not unwrapped: %s %s", got, at)


# ---------------------------------------------------------------- timeouts

SLOW = ["select count(*) from range(100000000) a, range(100000) b", "select max(a.range * b.range) from range(10000000) a, range(1000000) b"]


@composite
def timeout_strategy(d):
    ops = [d.weighted([(3, ["slow", d.int(0, 1), d.choice(["with_timeout", "execute", "time"]), d.choice([0.05, 0.1]), d.flag(50)]), (3, ["fast", d.int(0, 2), d.choice(["with_timeout", "execute", "time"]), d.flag(50)]),
                       (1, ["error", d.choice(["with_timeout", "execute"])])]) for _ in range(d.int(2, 6))]
    return {"ops": ops}


FAST = ["select e.a from e where e.a < 3 order by e.a", "select count(*) from e", "select e.a from e where e.a > 100"]
_TDB = None


def check_timeout(spec):
    global _TDB
    pb.reset()
    if _TDB is None:
        _TDB = dd.DuckDBInterface(Path(":memory:"))
        _TDB.cursor().execute("CREATE TABLE e AS SELECT range AS a FROM range(10)")
    db = _TDB
    for step, op in enumerate(spec["ops"]):
        at = f"at step {step} {op}"
        if op[0] == "slow":
            sql, timeout = SLOW[op[1]], op[3]
            start = time.time()
            if op[2] == "with_timeout":
                got = db.execute_with_timeout(sql, timeout=timeout)
                require(got is None, "a cancelled query returns %s %s", got, at)
            else:
                try:
                    got = db.execute_query(sql, timeout=timeout, cache_enabled=op[4]) if op[2] == "execute" else db.time_query(sql, timeout=timeout)
                    fail(f"a cancelled query returns {got} {at}")
                except TimeoutError:
                    pass
            require(time.time() - start < 60, "the query was not cancelled %s", at)
            require(db.last_query_runtime() == math.inf, "runtime of a cancelled query is %s %s", db.last_query_runtime(), at)
        elif op[0] == "fast":
            sql = FAST[op[1]]
            query = pb.parse(sql) if op[3] else sql
            rows = [[(0,), (1,), (2,)], [(10,)], []][op[1]]
            if op[2] == "with_timeout":
                got = db.execute_with_timeout(query, timeout=120)
                require(got == rows, "returned %s instead of %s %s", got, rows, at)
            elif op[2] == "execute":
                got = db.execute_query(query, timeout=120, cache_enabled=False)
                require(got == simplified(rows), "returned %s instead of %s %s", got, rows, at)
            else:
                got = db.time_query(query, timeout=120)
                require(got == db.last_query_runtime(), "time_query returns %s, but the last runtime is %s %s", got, db.last_query_runtime(), at)
            require(0 <= db.last_query_runtime() < 120, "runtime is %s %s", db.last_query_runtime(), at)
        else:
            try:
                got = db.execute_with_timeout("select * from missing_table", timeout=120) if op[1] == "with_timeout" else db.execute_query("select * from missing_table", timeout=120)
            except TimeoutError:
                fail(f"an invalid query times out {at}")
            except Exception:
                continue
            fail(f"an invalid query returns {got} {at}")


# ---------------------------------------------------------------- the pool

@composite
def pool_strategy(d):
    ops = [d.weighted([(6, ["connect", d.choice(["duckdb", "a", "b"]), d.flag(20), d.flag(20)]), (2, ["close", d.choice(["duckdb", "a", "b"])]), (3, ["current"]), (2, ["any"]), (3, ["get", d.choice(["duckdb", "a", "b", "c"])]),
                       (1, ["clear"]), (1, ["register", d.choice(["a", "c"]), d.choice(["duckdb", "b"])])]) for _ in range(d.int(3, 14))]
    return {"ops": ops}


def expect(exc, fn, at):
    try:
        r = fn()
    except exc:
        return
    fail(f"{r} is returned instead of raising {exc} {at}")


def check_pool(spec):
    pb.reset()
    w = World(tempfile.mkdtemp(prefix="pbt-c21-"))
    pool = DatabasePool.get_instance()
    old = dict(pool._pool)
    pool.clear()
    try:
        model = {}
        for step, op in enumerate(spec["ops"]):
            at = f"at step {step} {op}"
            if op[0] == "connect":
                _, name, refresh, private = op
                db = dd.connect(":memory:", name=name, refresh=refresh, private=private)
                w.dbs.append(db)
                if name in model and not refresh:
                    require(db is model[name], "a new connection is established %s", at)
                else:
                    require(all(db is not other for other in w.dbs[:-1]), "no new connection is established %s", at)
                    if not private:
                        model[name] = db
                require(db.execute_query("select 41 + 1") == 42, "the connection does not work %s", at)
            elif op[0] == "close":
                if op[1] in model:
                    model[op[1]].close()
            elif op[0] == "current":
                if len(model) == 1:
                    require(pool.current_database() is next(iter(model.values())) and current_database() is pool.current_database(), "current database differs %s", at)
                else:
                    expect(ValueError, pool.current_database, at)
                    expect(ValueError, current_database, at)
            elif op[0] == "any":
                if model:
                    require(any(pool.any_database() is m for m in model.values()), "unknown database %s", at)
                else:
                    expect(ValueError, pool.any_database, at)
            elif op[0] == "get":
                if op[1] in model:
                    require(pool.retrieve_database(op[1]) is model[op[1]], "wrong database %s", at)
                else:
                    expect(KeyError, lambda: pool.retrieve_database(op[1]), at)
            elif op[0] == "register":
                if op[2] in model:
                    pool.register_database(op[1], model[op[2]])
                    model[op[1]] = model[op[2]]
            else:
                pool.clear()
                model = {}
            require(pool.n_databases() == len(model) and pool.empty() == (not model), "the pool has %s entries instead of %s %s", pool.n_databases(), sorted(model), at)
            for n in ("duckdb", "a", "b", "c"):
                require((n in pool) == (n in model), "%s in pool is %s %s", n, n in pool, at)
            require(DatabasePool.get_instance() is pool, "there are two pools")
    finally:
        pool.clear()
        for k, v in old.items():
            pool.register_database(k, v)
        w.finish()


FACETS = [
    Facet("history", history, check_history, quick=700, thorough=20000, shards=6,
          rule="histories of queries (text, SqlQuery, preparatory statements), data changes, cache switches, restarts and statistics; non-trivial: at least one repeated query and a data change",
          nontrivial=lambda s: any(o[0] == "mutate" for o in s["ops"]) and len({o[1] for o in s["ops"] if o[0] == "q"}) < sum(o[0] == "q" for o in s["ops"]),
          classify=lambda s: sorted({o[0] for o in s["ops"]})),
    Facet("timeouts", timeout_strategy, check_timeout, quick=60, thorough=1000, shards=4,
          rule="sequences of slow, fast and failing queries with timeouts; non-trivial: a query after a cancelled one",
          nontrivial=lambda s: any(o[0] == "slow" for o in s["ops"][:-1])),
    Facet("pool", pool_strategy, check_pool, quick=200, thorough=5000, shards=2,
          rule="histories of connects, disconnects and pool accesses; non-trivial: at least 2 connects", nontrivial=lambda s: sum(o[0] == "connect" for o in s["ops"]) > 1),
]
