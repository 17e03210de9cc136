"""C24: execute_workload runs, measures and reports a benchmark as documented (scripted database, scripted optimizer, real quacklab)."""
from __future__ import annotations

import csv
import datetime
import json
import math
import os
import shutil
import tempfile
import warnings
from pathlib import Path

import natsort
import numpy as np
import pandas as pd


from pbt.draw import composite
from pbt.engine import Facet, HarnessError, fail, require
from postbound import OptimizationPipeline, OptimizationStage, Workload, bench, parse_query, util
from postbound.bench import ExecutionResult, QueryPreparation
from postbound import duckdb as dd
from postbound.db import Database

ASSUMPTIONS = ["errors raised by preparatory statements or by the prewarming itself are not generated",
               "the value of exec_time for timeouts may be the timeout itself or infinity (the documentation states both)",
               "with error_action='ignore' the numbering of the remaining repetitions of a query with failures is not judged",
               "HDF output is not judged (pytables is not installed)"]
TABLES = ["r", "s", "w", "m", "t1", "t2"]
LABELS = ["1a", "1b", "2a", "10a", "q-1", "q-2", "q-10", "001", "7", "x/1", "x/2", "A", "é,1"]
RESULTS = [[[5]], [[5], [7]], [[1, "a"], [2, None]], [], [[None]], [["text"]], [[1.5]], [["a", 2.5]], [["x,\"y\""], ["z\nz"]], [[0]], [[True]], [["date:2024-02-29", 1]], [["date:2024-02-29"]],
           [["date:2024-02-29"], ["date:1999-12-31"]]]
MESSAGES = ["boom", "syntax error at or near \"x\"", "", "zerstört, 'weil'"]


def rows_of(spec_rows):
    return [tuple(datetime.date.fromisoformat(v[5:]) if isinstance(v, str) and v.startswith("date:") else v for v in row) for row in spec_rows]


def simplified(rows):
    if rows is None:
        return None
    if not rows:
        return []
    if len(rows[0]) == 1:
        rows = [r[0] for r in rows]
    return rows[0] if len(rows) == 1 else rows


def base_text(i, t, *, opt=False, proj=None):
    sel = proj or f"{t}.a"
    extra = f" AND {t}.b = 42" if opt else ""
    return f"SELECT {sel} FROM {t} WHERE {t}.a = {i}{extra};"


@composite
def run_spec(d, files=False):
    n = d.weighted([(1, 0), (4, 1), (4, 2), (4, 3), (2, 4)])
    timeout = d.flag(35)
    style = d.weighted([(3, "workload"), (1, "list")])
    results = [r for r in RESULTS]
    outcomes = []
    scalar = d.flag(50)
    for _ in range(d.int(1, 9)):
        kind = d.weighted([(6, "rows"), (2, "error")] + ([(2, "timeout")] if timeout else []))
        if kind == "rows":
            outcomes.append(["rows", d.choice([r for r in results if not scalar or (len(r) == 1 and len(r[0]) == 1 and isinstance(r[0][0], int))])])
        elif kind == "error":
            outcomes.append(["error", d.choice(MESSAGES)])
        else:
            outcomes.append(["timeout"])
    if d.flag(35):
        outcomes = [o for o in outcomes if o[0] != "error"] or [["rows", [[5]]]]
    optimizer = None
    if d.flag(55):
        optimizer = {"fails": sorted(d.subset(list(range(n)), 25)) if d.flag(50) else [], "online": d.flag(30), "data": d.flag(20), "workload": d.flag(20), "samples": d.weighted([(6, None), (1, "given"), (1, "fitted"), (1, "missing")])}
    prep = None
    if d.flag(45):
        prep = {"projection": d.choice(["none", "star", "*", "count_star", "count(*)"]), "output": d.choice(["default", "default", "explain", "analyze", "explain_analyze"]), "prewarm": d.flag(30),
                "preparatory_statements": d.choice([None, [], ["SET x = 1"], ["SET x = 1", "SET y TO 'a'"]])}
        prep["legacy"] = d.weighted([(5, None), (1, "explain"), (1, "analyze"), (1, "count_star")])
        prep["off"] = d.flag(40)
        prep["as_dict"] = d.flag(50)
    return {"queries": [[label, i, d.choice(TABLES)] for i, label in enumerate(d.some(LABELS, n, n) if n else [])], "style": style, "wreps": d.weighted([(1, 0), (5, 1), (4, 2), (1, 3)]),
            "qreps": d.weighted([(5, 1), (4, 2), (1, 3)]), "timeout": d.choice([0.5, 2, 60.0]) if timeout else None, "stopwatch": d.flag(60), "prewarm_support": d.flag(60), "optimizer": optimizer,
            "prep": prep, "error": d.weighted([(5, "log"), (2, "ignore"), (2, "raise"), (2, None)]), "outcomes": outcomes, "shuffled": d.flag(25), "callback": d.flag(60), "logger": d.flag(50),
            "name": d.choice(["<unnamed>", "exp 1", "exp-2"])}


def make_database(spec, events):
    class Scripted(Database):
        def __init__(self):
            self.system_name, self._cache_enabled, self._query_cache = "scripted", False, {}
            self.calls, self.statements, self.last = 0, 0, math.nan

        def schema(self):
            raise HarnessError("schema")

        statistics = hinting = optimizer = cursor = reset_connection = schema

        def database_name(self):
            return "scripted"

        def database_system_version(self):
            return util.Version("1.0")

        def close(self):
            pass

        def describe(self):
            return {"system_name": "scripted", "state": self.statements}

        def _next(self, query):
            if isinstance(query, str):
                self.statements += 1
                events.append(["stmt", query])
                return []
            out = spec["outcomes"][self.calls % len(spec["outcomes"])]
            self.calls += 1
            events.append(["exec", query, out])
            self.last = self.calls / 8
            if out[0] == "error":
                raise RuntimeError(out[1])
            return None if out[0] == "timeout" else rows_of(out[1])

        def execute_query(self, query, *, cache_enabled=None, raw=False):
            require(cache_enabled is False, "a benchmark query was executed with cache_enabled=%s", cache_enabled)
            res = self._next(query)
            if res is None:
                raise HarnessError("timeout without a timeout")
            return res if raw else simplified(res)

    def execute_with_timeout(self, query, *, timeout=60.0):
        require(timeout == spec["timeout"], "timeout %s was passed as %s", spec["timeout"], timeout)
        return self._next(query)

    def prewarm_tables(self, tables=None, *more, exclude_table_pages=False, include_primary_index=True, include_secondary_indexes=True):
        events.append(["prewarm", sorted(t.full_name for t in util.enlist(tables))])

    if spec["timeout"]:
        Scripted.execute_with_timeout = execute_with_timeout
    if spec["stopwatch"]:
        Scripted.last_query_runtime = lambda self: self.last
        Scripted.time_query = lambda self, query, *, timeout=None: self.last
    if spec["prewarm_support"]:
        Scripted.prewarm_tables = prewarm_tables
    Scripted.__abstractmethods__ = frozenset()
    return Scripted()


def make_optimizer(opt, db, events, optimized):
    members = {}
    if opt["data"]:
        def fit_database(self, database):
            require(database is db, "trained on another database")
            events.append(["fit-db"])
            self.fit_db = True
            return {}
        members |= {"fit_database": fit_database, "database_fit_completed": lambda self: getattr(self, "fit_db", False)}
    if opt["workload"]:
        def fit_workload(self, queries, database):
            require(database is db, "trained on another database")
            events.append(["fit-workload", [str(x) for x in queries.values()]])
            self.fit_wl = True
            return {}
        members |= {"fit_workload": fit_workload, "workload_fit_completed": lambda self: getattr(self, "fit_wl", False)}
    if opt["samples"]:
        def fit_samples(self, samples):
            events.append(["fit-samples", samples])
            self.fit_smp = True
            return {}
        members |= {"fit_samples": fit_samples, "sample_spec": lambda self: None, "sample_fit_completed": lambda self: getattr(self, "fit_smp", opt["samples"] == "fitted")}
    if opt["online"]:
        def learn(self, query, result_set, *, exec_time):
            events.append(["learn", str(query), result_set, exec_time])
            return {}
        members["learn_from_feedback"] = learn
    stage = type("Stage", (OptimizationStage,), members)()

    class Pipeline(OptimizationPipeline):
        def query_execution_plan(self, query):
            raise HarnessError("plan")

        def optimize_query(self, query):
            events.append(["opt", str(query)])
            out = optimized[str(query)]
            if isinstance(out, Exception):
                raise out
            return out

        def stages(self):
            return [stage]

        def target_database(self):
            return db

        def describe(self):
            return {"name": "scripted pipeline"}

        __json__ = describe

    return Pipeline()


def prep_object(prep):
    """-> (argument of execute_workload, expected projection, output, prewarm, statements)"""
    kw = {k: prep[k] for k in ("projection", "output", "prewarm", "preparatory_statements")}
    if prep["legacy"]:
        kw[prep["legacy"]] = not prep.get("off")
    proj = {"*": "star", "count(*)": "count_star"}.get(kw["projection"], kw["projection"])
    out = {"explain_analyze": "analyze"}.get(kw["output"], kw["output"])
    if prep.get("off"):
        pass        # an explicit False does not change anything
    elif prep["legacy"] == "count_star":
        proj = "count_star"
    elif prep["legacy"]:
        out = prep["legacy"]
    prewarm = kw["prewarm"] and out != "explain"
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        arg = dict(kw) if prep["as_dict"] else QueryPreparation(**kw)
    return arg, proj, out, prewarm, kw["preparatory_statements"] or []


class Model:
    """the documented control flow; follows the observed events only to learn the order of shuffled queries"""

    def __init__(self, spec, db, names):
        self.spec, self.names = spec, names
        self.events, self.rows, self.callbacks, self.reps, self.logged, self.error = [], [], [], [], [], None

    def run(self, order, observed, optimized, optimizer, originals, first_idx=1):
        spec, opt, prep = self.spec, self.spec["optimizer"], self.spec["prep"]
        action = spec["error"] or "log"
        proj, out, prewarm, stmts = ("none", "default", False, []) if not prep else prep_object(prep)[1:]
        if opt:
            if opt["data"]:
                self.events.append(["fit-db"])
            if opt["workload"]:
                self.events.append(["fit-workload", [str(originals[label]) for label in order]])
            if opt["samples"] in ("given",):
                self.events.append(["fit-samples", "the-data"])
            if opt["samples"] == "missing":
                self.error = "missing-training-data"
                return
        calls, statements, idx = 0, 0, first_idx
        for wrep in range(1, spec["wreps"] + 1):
            todo = list(order)
            while todo:
                label = todo[0] if not spec["shuffled"] else self.peek(todo, observed, optimizer, optimized, originals)
                todo.remove(label)
                self.logged.append(label)
                query, final, failure = originals[label], originals[label], None
                if opt:
                    self.events.append(["opt", str(query)])
                    final = optimized[str(query)]
                    if isinstance(final, Exception):
                        failure = final
                if failure is not None:
                    if action == "raise":
                        self.error = failure
                        return
                    for rep in range(1, spec["qreps"] + 1) if action == "log" else ():
                        self.rows.append({"label": label, "wrep": wrep, "rep": rep, "status": "optimization-error", "result": None, "time": None, "reason": str(failure), "state": None, "opt": None, "idx": idx})
                        idx += 1
                    continue
                feedback = []
                failed_before = False
                for rep in range(1, spec["qreps"] + 1):
                    if prewarm and spec["prewarm_support"]:
                        self.events.append(["prewarm", sorted(t.full_name for t in final.tables())])
                    for s in stmts:
                        statements += 1
                        self.events.append(["stmt", s])
                    outcome = spec["outcomes"][calls % len(spec["outcomes"])]
                    calls += 1
                    self.events.append(["exec", final_text(final, proj), out, outcome])
                    row = {"label": label, "wrep": wrep, "rep": rep, "state": statements, "opt": final if opt else None, "idx": idx, "reason": "", "time": None, "result": None}
                    if outcome[0] == "error":
                        if action == "raise":
                            self.error = RuntimeError(outcome[1])
                            return
                        if action == "ignore":
                            failed_before = True
                            continue
                        row |= {"status": "execution-error", "reason": outcome[1]}
                    elif outcome[0] == "timeout":
                        row |= {"status": "timeout", "time": ("timeout", spec["timeout"])}
                    else:
                        rows = rows_of(outcome[1])
                        row |= {"status": "ok", "result": simplified(rows), "time": calls / 8 if spec["stopwatch"] else "measured"}
                        feedback.append(["learn", str(final), rows, 1000 * row["time"] if spec["stopwatch"] else None])
                    if failed_before:
                        row["rep"] = None
                    if outcome[0] != "error" and spec["callback"]:
                        self.callbacks.append({**row, "executed": str(final)})
                    self.rows.append(row)
                    idx += 1
                if opt and opt["online"]:
                    self.events += feedback
            self.reps.append(wrep)

    def peek(self, todo, observed, optimizer, optimized, originals):
        for ev in observed[len(self.events):]:
            if ev[0] == "opt":
                text = ev[1]
                cands = [l for l in todo if str(originals[l]) == text]
            elif ev[0] == "exec":
                where = str(ev[1]).split(" WHERE ")[1]
                cands = [l for l in todo if str(originals[l]).split(" WHERE ")[1] == where]
            else:
                continue
            require(cands, "the shuffled repetition executes %s again (or a query outside of the workload), still to do: %s", str(ev[1]), todo)
            return cands[0]
        fail(f"a shuffled repetition ends although {todo} were not executed")


def final_text(query, proj):
    text = str(query)
    if proj == "none":
        return text
    return "SELECT " + ("*" if proj == "star" else "COUNT(*)") + text[text.index(" FROM"):]


def explain_kind(query):
    if not query.is_explain():
        return "default"
    return "analyze" if query.explain.analyze else "explain"


def same_result(a, b):
    if b is None:
        return a is None
    if isinstance(b, (list, tuple)):
        return type(a) is type(b) and len(a) == len(b) and all(same_result(x, y) for x, y in zip(a, b))
    return type(a) is type(b) and a == b


def setup(spec, events):
    db = make_database(spec, events)
    originals, optimized = {}, {}
    labels = [l for l, _, _ in spec["queries"]]
    if spec["style"] == "list":
        labels = list(range(1, len(labels) + 1))
    for label, (_, i, t) in zip(labels, spec["queries"]):
        q = parse_query(base_text(i, t), bind_columns=False)
        originals[label] = q
        if spec["optimizer"]:
            optimized[str(q)] = RuntimeError(f"cannot optimize {i}") if i in spec["optimizer"]["fails"] else parse_query(base_text(i, t, opt=True), bind_columns=False)
    queries = Workload(dict(originals), name="bench") if spec["style"] == "workload" else iter(list(originals.values()))
    order = natsort.natsorted(originals)
    pipeline = make_optimizer(spec["optimizer"], db, events, optimized) if spec["optimizer"] else None
    return db, originals, optimized, queries, order, pipeline


def execute(spec, target, queries, callbacks, reps, logged, **kw):
    if spec["prep"]:
        kw["query_preparation"] = prep_object(spec["prep"])[0]
    if spec["error"]:
        kw["error_action"] = spec["error"]
    if spec["timeout"]:
        kw["timeout"] = spec["timeout"]
    if spec["callback"]:
        kw["exec_callback"] = callbacks.append
        kw["repetition_callback"] = reps.append
    if spec["logger"]:
        kw["logger"] = logged.append
    if spec["optimizer"] and spec["optimizer"]["samples"] == "given":
        kw["training_data"] = "the-data"
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        return bench.execute_workload(queries, target, name=spec["name"], workload_repetitions=spec["wreps"], per_query_repetitions=spec["qreps"], shuffled=spec["shuffled"], **kw)


def check_events(observed, expected, stopwatch):
    for i, exp in enumerate(expected):
        require(i < len(observed), "step %s is missing: %s", i + 1, exp)
        ev = observed[i]
        if exp[0] == "exec":
            ok = ev[0] == "exec" and explain_kind(ev[1]) == exp[2] and str(ev[1])[str(ev[1]).index("SELECT"):] == exp[1]
        elif exp[0] == "learn":
            ok = ev[:3] == exp[:3] and (exp[3] is None or math.isclose(ev[3], exp[3])) and ev[3] >= 0
        elif exp[0] == "fit-workload":
            ok = ev[0] == exp[0] and sorted(ev[1]) == sorted(exp[1])
        else:
            ok = ev == exp
        require(ok, "step %s of the benchmark is %s, expected %s", i + 1, [str(x) for x in ev], exp)
    require(len(observed) == len(expected), "unexpected additional steps %s", [str(x) for x in observed[len(expected):]])


def check_row(row, exp, spec, pipeline, originals, exact_idx):
    what = f"row of query {exp['label']!r}, repetition {exp['wrep']}/{exp['rep']}"
    require(row["label"] == exp["label"] and row["workload_repetition"] == exp["wrep"], "%s is reported as label %r in workload repetition %s", what, row["label"], row["workload_repetition"])
    if exp["rep"] is not None:
        require(row["query_repetition"] == exp["rep"], "%s is reported as query repetition %s", what, row["query_repetition"])
    if exact_idx:
        require(row["exec_index"] == exp["idx"], "%s: exec_index %s, expected %s", what, row["exec_index"], exp["idx"])
    require(row["query"] is originals[exp["label"]] or row["query"] == originals[exp["label"]], "%s: query is %s", what, row["query"])
    require(row["status"] == exp["status"], "%s: status %r, expected %r", what, row["status"], exp["status"])
    require(same_result(row["query_result"], exp["result"]), "%s (%s): query_result %r, expected %r", what, exp["status"], row["query_result"], exp["result"])
    check_time(row["exec_time"], exp, what)
    if exp["status"].endswith("error"):
        require(exp["reason"] in row["failure_reason"], "%s: failure_reason %r, the error was %r", what, row["failure_reason"], exp["reason"])
    else:
        require(not row["failure_reason"], "%s: failure_reason %r without a failure", what, row["failure_reason"])
    if exp["state"] is not None:
        require(isinstance(row["timestamp"], datetime.datetime) and not pd.isna(row["timestamp"]), "%s: timestamp is %r", what, row["timestamp"])
        require(row["db_config"] == {"system_name": "scripted", "state": exp["state"]}, "%s: db_config %s does not describe the state after preparation of the query (%s statements executed)", what, row["db_config"], exp["state"])
    if spec["prep"]:
        _, proj, out, prewarm, stmts = prep_object(spec["prep"])
        p = row["query_preparation"]
        require(isinstance(p, QueryPreparation) and p.prewarm == prewarm and p.preparatory_stmts == stmts, "%s: query_preparation %s", what, p)
    else:
        require(row["query_preparation"] is None, "%s: query_preparation %s without any", what, row["query_preparation"])
    if exp["opt"] is not None:
        require(row["optimized_query"] == exp["opt"] and row["optimization_pipeline"] is pipeline and row["optimization_time"] >= 0, "%s: optimized query %s by %s in %s", what, row["optimized_query"], row["optimization_pipeline"], row["optimization_time"])
    else:
        require(row["optimized_query"] is None and math.isnan(row["optimization_time"]), "%s: optimized_query %s (%s s) although the query was not optimized", what, row["optimized_query"], row["optimization_time"])
        if pipeline is not None:
            require(row["optimization_pipeline"] is pipeline, "%s: the failed optimization is not attributed to its pipeline but to %s", what, row["optimization_pipeline"])
        else:
            require(row["optimization_pipeline"] is None, "%s: optimization_pipeline %s", what, row["optimization_pipeline"])


def check_time(val, exp, what):
    if exp["time"] is None:
        require(math.isnan(val), "%s (%s): exec_time %s", what, exp["status"], val)
    elif exp["time"] == "measured":
        require(0 <= val < 60, "%s: exec_time %s", what, val)
    elif isinstance(exp["time"], tuple):
        require(val in (exp["time"][1], math.inf), "%s (timeout of %s): exec_time %s", what, exp["time"][1], val)
    else:
        require(val == exp["time"], "%s: exec_time %s, the database measured %s", what, val, exp["time"])


COLUMNS = ["exec_index", "label", "timestamp", "workload_repetition", "query_repetition", "query", "status", "query_result", "exec_time", "failure_reason", "db_config", "query_preparation",
           "optimization_time", "optimization_pipeline", "optimized_query"]


def run_checked(spec, **kw):
    """one benchmark run checked against the model -> (frame or None, model, error)"""
    events, callbacks, reps, logged = [], [], [], []
    db, originals, optimized, queries, order, pipeline = setup(spec, events)
    df, error = None, None
    try:
        df = execute(spec, pipeline or db, queries, callbacks, reps, logged, **kw)
    except (RuntimeError, ValueError) as e:
        error = e
    model = Model(spec, db, order)
    model.run(order, events, optimized, pipeline, originals)
    if model.error == "missing-training-data":
        require(isinstance(error, ValueError), "missing training data: %r", error)
        require(all(e[0].startswith("fit") for e in events), "the benchmark starts without the required training data: %s", [str(e) for e in events])
        return None, None, error
    if model.error is None:
        if error is not None:
            raise error
    else:
        require(error is not None, "error_action='raise' swallowed %r", model.error)
        require(type(error) is type(model.error) and str(error) == str(model.error), "error_action='raise' raised %r instead of %r", error, model.error)
    check_events(events, model.events, spec["stopwatch"])
    if spec["callback"]:
        require(reps == model.reps, "repetition_callback was called with %s, expected %s", reps, model.reps)
        successes = [c for c in callbacks if c.status in ("ok", "timeout")]
        require(len(successes) == len(model.callbacks), "exec_callback was called %s times for %s successful executions", len(successes), len(model.callbacks))
        for c, exp in zip(successes, model.callbacks):
            what = f"exec_callback for {exp['label']!r}"
            require(isinstance(c, ExecutionResult) and c.status == exp["status"], "%s: %s", what, c)
            require(str(c.query) == exp["executed"], "%s: query %s, but %s was executed", what, c.query, exp["executed"])
            if exp["status"] == "ok":
                require(same_result(c.query_result, exp["result"]), "%s: result %r, expected %r", what, c.query_result, exp["result"])
            check_time(c.execution_time, exp, what)
            require((c.optimization_time >= 0) == (exp["opt"] is not None), "%s: optimization time %s", what, c.optimization_time)
    if spec["logger"]:
        require(len(logged) >= len(model.logged) and all(isinstance(m, str) for m in logged), "the logger was called %s times for %s queries", len(logged), len(model.logged))
    if df is not None:
        require(isinstance(df, pd.DataFrame) and len(df) == len(model.rows), "%s result rows for %s executions", len(df), len(model.rows))
        if len(df):
            require(sorted(df.columns) == sorted(COLUMNS), "columns %s", list(df.columns))
            exact = (spec["error"] or "log") != "ignore"
            cols = {c: list(df[c]) for c in df.columns}
            recs = [{c: cols[c][i] for c in cols} for i in range(len(df))]
            for c in ("query_result", "optimized_query", "optimization_pipeline", "query_preparation"):
                for r in recs:  # pandas may represent None by NaN and integers by floats
                    if isinstance(r[c], float) and math.isnan(r[c]):
                        r[c] = None
            homogeneous_numbers(recs, model.rows)
            for r, exp in zip(recs, model.rows):
                check_row(r, exp, spec, pipeline, originals, exact)
            idx = [int(i) for i in df["exec_index"]]
            require(all(a < b for a, b in zip(idx, idx[1:])), "exec_index is not increasing: %s", idx)
    return df, model, error


def homogeneous_numbers(recs, rows):
    """a column of plain numbers is stored as a numpy column: compare by value then"""
    for r, exp in zip(recs, rows):
        want, got = exp["result"], r["query_result"]
        if isinstance(got, np.generic):
            got = got.item()
        if not isinstance(want, (list, tuple)) and want is not None and isinstance(got, (int, float, bool)) and isinstance(want, (int, float, bool)) and got == want:
            got = want
        if isinstance(got, pd.Timestamp) and isinstance(want, datetime.date):
            got = got.date()
        r["query_result"] = got


def check_control(spec):
    run_checked(spec)


# -- shuffling

@composite
def shuffle_spec(d):
    spec = d.any(run_spec())
    tables = [d.choice(TABLES) for _ in range(9)]
    # 9 queries in at least 3 repetitions: all of them in natural order by chance has a probability below 1e-16
    return {**spec, "queries": [[label, i, tables[i]] for i, label in enumerate(LABELS[:9])], "style": "workload", "wreps": d.int(3, 4), "qreps": 1, "shuffled": d.flag(80),
            "error": "log", "optimizer": None, "prep": None, "timeout": None, "logger": False, "callback": True, "outcomes": [["rows", [[1]]]]}


def check_shuffle(spec):
    df, _, _ = run_checked(spec)
    order = natsort.natsorted(l for l, _, _ in spec["queries"])
    n = len(order)
    labels = list(df["label"])
    runs = [labels[i:i + n] for i in range(0, len(labels), n)]
    require(len(runs) == spec["wreps"] and all(sorted(r) == sorted(order) for r in runs), "repetitions contain %s", runs)
    if not spec["shuffled"]:
        require(all(r == order for r in runs), "repetitions are in order %s instead of %s", runs, order)
        return
    require(any(r != order for r in runs), "no repetition of the shuffled workload is in a different order: %s", runs)
    require(any(r != runs[0] for r in runs), "all repetitions of the shuffled workload are in the same order: %s", runs)


# -- files

@composite
def file_spec(d):
    runs = [d.any(run_spec(files=True)) for _ in range(d.weighted([(2, 1), (2, 2), (1, 3)]))]
    for r in runs:  # labels of different types in one parquet column are not judged
        r["style"] = runs[0]["style"]
    fmt = d.weighted([(5, "csv"), (4, "json"), (3, "parquet")])
    return {"runs": runs, "format": fmt, "subdir": d.flag(30)}


def read_file(path, fmt):
    if fmt == "csv":
        with open(path, newline="", encoding="utf-8") as f:
            return list(csv.DictReader(f))
    if fmt == "json":
        with open(path, encoding="utf-8") as f:
            data = json.load(f)
        n = max((len(v) for v in data.values()), default=0)
        return [{c: data[c][str(i)] for c in data} for i in range(n)]
    df = pd.read_parquet(path)
    return [{c: df[c].iloc[i] for c in df.columns} for i in range(len(df))]


def null(v):
    return v is None or v == "" or (isinstance(v, float) and math.isnan(v))


def plain_json(v):
    if isinstance(v, (list, tuple)):
        return [plain_json(x) for x in v]
    if isinstance(v, datetime.date):
        return v.isoformat()
    return v


def same_stored(got, want):
    """a stored value vs. the value in memory: scalars as they are (or as JSON), everything else as JSON"""
    if want is None:
        return null(got) or got == "null"
    if isinstance(got, np.generic):
        got = got.item()
    options = [got]
    if isinstance(got, str):
        try:
            options.append(json.loads(got))
        except ValueError:
            pass
        if got in ("True", "False"):
            options.append(got == "True")
    w = plain_json(want)
    if isinstance(w, (list, tuple)):
        return w in [o for o in options if isinstance(o, list)]
    if isinstance(w, str):
        return w in options or (isinstance(want, datetime.date) and any(_date(o) == w for o in options))
    return any(isinstance(o, (int, float)) and float(o) == float(w) for o in options)


def _date(o):
    if isinstance(o, (pd.Timestamp, datetime.date)):
        return str(o)[:10]
    if isinstance(o, str):
        return o[:10]
    if isinstance(o, (int, float)) and not isinstance(o, bool):
        return str(datetime.datetime.fromtimestamp(o / 1000, datetime.timezone.utc).date()) if abs(o) > 1e6 else None
    return None


def check_files(spec):
    base = tempfile.mkdtemp(prefix="c24-")
    try:
        _check_files(spec, Path(base))
    finally:
        shutil.rmtree(base, ignore_errors=True)


def _check_files(spec, base):
    out = (base / "sub" / "dir" if spec["subdir"] else base) / f"results.{spec['format']}"
    expected, logs = [], []
    for n, run in enumerate(spec["runs"]):
        df, model, error = run_checked(run, progressive_output=str(out) if n % 2 else out)
        if model is None:
            continue
        expected += [(run, r) for r in model.rows]
        logs.append((run, error))
        if not expected:
            require(not out.exists() or not read_file(out, spec["format"]), "output without results")
        else:
            require(out.is_file(), "%s results have been obtained, but there is no output file", len(expected))
            check_stored(read_file(out, spec["format"]), expected)
        with open(out.parent / "experiment_log.json", encoding="utf-8") as f:
            log = json.load(f)
        require(len(log) == len(logs), "the experiment log has %s entries after %s experiments", len(log), len(logs))
        for entry, (r, err) in zip(log, logs):
            require(entry["experiment"] == r["name"], "experiment log: %s instead of %s", entry["experiment"], r["name"])
            require(entry["status"] == ("failed" if err is not None else "completed") and entry["end_time"], "experiment log: status %s (error: %r), end %s", entry["status"], err, entry["end_time"])
            if err is not None:
                require(entry["error"]["message"] == str(err), "experiment log: %s instead of %r", entry["error"], err)
            require(datetime.datetime.fromisoformat(entry["start_time"]) <= datetime.datetime.fromisoformat(entry["end_time"]), "experiment log: ends before its start")
            labels = [l for l, _, _ in r["queries"]] if r["style"] == "workload" else [str(i + 1) for i in range(len(r["queries"]))]
            want = {l: str(parse_query(base_text(i, t), bind_columns=False)) for l, (_, i, t) in zip(labels, r["queries"])}
            require({l: e["query"] for l, e in entry["workload"]["queries"].items()} == want, "experiment log: workload %s", entry["workload"])
            require(entry["workload_repetitions"] == r["wreps"] and entry["per_query_repetitions"] == r["qreps"] and entry["shuffled"] == r["shuffled"] and entry["query_timeout"] == r["timeout"],
                    "experiment log: settings %s", entry)
            require((entry["optimizer"] is None) == (r["optimizer"] is None), "experiment log: optimizer %s", entry["optimizer"])


def check_stored(got, expected):
    require(len(got) == len(expected), "the output file has %s rows, %s results have been obtained", len(got), len(expected))
    for i, (g, (run, exp)) in enumerate(zip(got, expected)):
        what = f"output row {i + 1} (query {exp['label']!r}, {exp['status']})"
        require(set(g) == set(COLUMNS), "%s: columns %s", what, list(g))
        require(str(g["label"]) == str(exp["label"]), "%s: label %r", what, g["label"])
        require(int(g["workload_repetition"]) == exp["wrep"] and (exp["rep"] is None or int(g["query_repetition"]) == exp["rep"]), "%s: repetition %s/%s", what, g["workload_repetition"], g["query_repetition"])
        if (run["error"] or "log") != "ignore":
            require(int(g["exec_index"]) == exp["idx"], "%s: exec_index %s, expected %s", what, g["exec_index"], exp["idx"])
        require(g["status"] == exp["status"], "%s: status %s", what, g["status"])
        require(same_stored(g["query_result"], exp["result"]), "%s: query_result %r, expected %r", what, g["query_result"], exp["result"])
        if exp["time"] is None:
            require(null(g["exec_time"]), "%s: exec_time %r", what, g["exec_time"])
        elif not isinstance(exp["time"], str):
            check_time(float(g["exec_time"]), exp, what)
        reason = g["failure_reason"] or ""
        require((exp["reason"] in reason) if exp["reason"] else null(reason), "%s: failure_reason %r, expected %r", what, reason, exp["reason"])
        q = next(parse_query(base_text(i, t), bind_columns=False) for n, (l, i, t) in enumerate(run["queries"]) if (l if run["style"] == "workload" else n + 1) == exp["label"])
        require(same_stored(g["query"], str(q)), "%s: query %r", what, g["query"])
        require(null(g["optimized_query"]) if exp["opt"] is None else same_stored(g["optimized_query"], str(exp["opt"])), "%s: optimized_query %r", what, g["optimized_query"])
        if exp["state"] is not None:
            require(json.loads(g["db_config"]) == {"system_name": "scripted", "state": exp["state"]}, "%s: db_config %r", what, g["db_config"])
        require(null(g["query_preparation"]) == (run["prep"] is None), "%s: query_preparation %r", what, g["query_preparation"])


# -- export and sorting of result frames

VALUES = [5, 1.5, "text", None, [1, 2], [["t", 1], ["t", 2]], [], ["tuple", 1, "a"], {"a": [1, None]}, "query", "é", True]


@composite
def frame_spec(d):
    cols = {}
    n = d.int(0, 6)
    for c in d.some(["query_result", "db_config", "optimized_query", "x"], 1, 4):
        few = d.some(list(range(len(VALUES))), 1, 3)
        cols[c] = [d.choice(few) for _ in range(n)]
    return {"n": n, "cols": cols, "labels": [d.choice(LABELS + ["9", "100a", "2"]) for _ in range(n)], "wrep": [d.int(1, 3) for _ in range(n)], "by": d.choice([None, "label", ["label"], ["label", "exec_index"], ["wrep", "label"]]),
            "order": d.permutation(list(range(n))) if n else []}


def build(v):
    if v == "query":
        return parse_query("SELECT * FROM r WHERE r.a = 1", bind_columns=False)
    if isinstance(v, list) and v and v[0] == "tuple":
        return tuple(v[1:])
    return v


def check_frame(spec):
    n = spec["n"]
    values = {c: [build(VALUES[i]) for i in idx] for c, idx in spec["cols"].items()}
    frame = {"label": spec["labels"], "exec_index": [i + 1 for i in spec["order"]], "wrep": spec["wrep"]}
    df = pd.DataFrame(frame)
    for c, vals in values.items():
        df[c] = pd.Series(vals, dtype=object)
    before = df.copy(deep=True)
    res = bench.prepare_export(df)
    require(all(list(map(id, df[c])) == list(map(id, before[c])) or df[c].equals(before[c]) for c in df.columns) and list(df.columns) == list(before.columns), "prepare_export modified its argument")
    require(len(res) == n and list(res.columns) == list(df.columns), "prepare_export changed the shape of the frame")
    for c, vals in values.items():
        complex_col = any(isinstance(v, (list, tuple, dict)) or hasattr(v, "__json__") for v in vals)
        for v, r in zip(vals, res[c]):
            if v is None:
                require(r is None or r == "null" or (isinstance(r, float) and math.isnan(r)), "prepare_export turns None into %r", r)
            elif complex_col and not isinstance(v, (int, float, str)):
                require(isinstance(r, str), "prepare_export leaves %r as an object (%r) in column %s", v, r, vals)
                want = json.loads(util.to_json(v)) if hasattr(v, "__json__") else plain_json(v)
                require(json.loads(r) == want, "prepare_export turns %r into %r", v, r)
            elif not complex_col:
                require(r == v and type(r) is type(v), "prepare_export turns the scalar %r into %r", v, r)
            else:
                require(r == v or json.loads(r) == v, "prepare_export turns the scalar %r into %r", v, r)
    if not n:
        return
    kw = {} if spec["by"] is None else {"by_column": spec["by"]}
    by = spec["by"] or ["label", "exec_index"]
    by = [by] if isinstance(by, str) else list(by)
    sorted_df = bench.sort_results(df[["label", "exec_index", "wrep"]], **({} if not kw else {"by_column": by if len(by) > 1 or isinstance(spec["by"], list) else by[0]}))
    require(df["label"].tolist() == spec["labels"], "sort_results modified its argument")
    recs = list(zip(*(sorted_df[c].tolist() for c in ["label", "exec_index", "wrep"])))
    require(sorted(recs) == sorted(zip(spec["labels"], frame["exec_index"], spec["wrep"])), "sort_results changed the rows: %s", recs)
    keys = [tuple(natsort.natsort_keygen()(dict(zip(["label", "exec_index", "wrep"], r))[c]) for c in by) for r in recs]
    require(all(a <= b for a, b in zip(keys, keys[1:])), "sort_results by %s yields %s", by, recs)


# -- a real database

@composite
def duck_spec(d):
    qs = []
    for i in range(d.int(1, 4)):
        qs.append(d.choice(DUCK_QUERIES))
    return {"queries": qs, "reps": d.int(1, 2), "timeout": d.choice([None, 30.0]), "prep": d.choice([None, "count_star", "star", "analyze", "explain"])}


DUCK_QUERIES = ["select r.a from r where r.a > 1 order by r.a", "select count(*) from r, s where r.a = s.a", "select min(s.a), max(s.a) from s", "select nope.x from nope", "select r.a, s.a from r, s where r.a = s.a",
                "select r.a from r where r.a < -100", "select r.a / 0 from r where r.a = 1", "select sum(r.a) from r", "select cast('x' as integer) from r"]
_CON = {}


def duck_db():
    if "db" not in _CON:
        import quacklab
        path = tempfile.mkdtemp(prefix="c24-duck-")
        con = quacklab.connect(os.path.join(path, "x.duckdb"))
        con.execute("create table r(a integer, b integer)")
        con.execute("create table s(a integer, b integer)")
        con.execute("insert into r values (1, 2), (2, 3), (2, NULL), (4, 1)")
        con.execute("insert into s values (1, 2), (2, 3), (7, 1)")
        con.close()
        import atexit
        atexit.register(shutil.rmtree, path, True)
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            _CON["db"] = dd.connect(os.path.join(path, "x.duckdb"), refresh=True, private=True)
    return _CON["db"]


def check_duck(spec):
    db = duck_db()
    queries = [parse_query(s, bind_columns=False) for s in spec["queries"]]
    wl = Workload({i: q for i, q in enumerate(queries)})
    kw = {"timeout": spec["timeout"]} if spec["timeout"] else {}
    if spec["prep"] in ("count_star", "star"):
        kw["query_preparation"] = {"projection": spec["prep"]}
    elif spec["prep"]:
        kw["query_preparation"] = QueryPreparation(output=spec["prep"])
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        df = bench.execute_workload(wl, db, per_query_repetitions=spec["reps"], **kw)
    require(len(df) == len(queries) * spec["reps"], "%s rows", len(df))
    k = 0
    cur = db.cursor()
    for i, q in enumerate(queries):
        text = str(q)
        if spec["prep"] in ("star", "count_star"):
            text = str(parse_query(spec["queries"][i], bind_columns=False))
            text = "SELECT " + ("*" if spec["prep"] == "star" else "COUNT(*)") + text[text.index(" FROM"):]
            text = text.replace(" ORDER BY r.a", "") if spec["prep"] == "count_star" else text
            if spec["prep"] == "count_star" and "ORDER BY" in str(q):
                k += spec["reps"]
                continue
        elif spec["prep"]:
            text = "EXPLAIN " + ("ANALYZE " if spec["prep"] == "analyze" else "") + text
        try:
            want = cur.execute(text).fetchall()
        except Exception as e:
            want = e
        for _ in range(spec["reps"]):
            row = df.iloc[k]
            k += 1
            if isinstance(want, Exception):
                require(row["status"] == "execution-error" and null(row["query_result"]) and str(want).split("\n")[0][:60] in row["failure_reason"] and math.isnan(row["exec_time"]),
                        "%s: %s / %r / %s instead of %r", text, row["status"], row["query_result"], row["failure_reason"], want)
                continue
            require(row["status"] == "ok" and 0 <= row["exec_time"] < 60, "%s: %s after %s s", text, row["status"], row["exec_time"])
            if spec["prep"] in ("analyze", "explain"):
                require(row["query_result"], "%s: no plan", text)
                continue
            got, exp = row["query_result"], simplified(want)
            if isinstance(exp, list) and "ORDER BY" not in text:
                got, exp = sorted(map(repr, got)), sorted(map(repr, exp))
            require(got == exp, "%s: result %r, expected %r", text, got, exp)


def labels(s):
    yield "error_action " + str(s["error"])
    if s["optimizer"]:
        yield "optimizer"
        if s["optimizer"]["fails"]:
            yield "failing optimization"
        if s["optimizer"]["online"]:
            yield "online learning"
    if any(o[0] == "error" for o in s["outcomes"]):
        yield "failing execution"
    if any(o[0] == "timeout" for o in s["outcomes"]):
        yield "timeouts"
    if s["shuffled"]:
        yield "shuffled"
    if s["prep"]:
        yield "prepared"
    if s["wreps"] > 1 or s["qreps"] > 1:
        yield "repetitions"


FACETS = [
    Facet("control", run_spec, check_control, 4000, 80000, "several executions with repetitions, an optimizer, failures, timeouts or preparation", lambda s: len(s["queries"]) * s["wreps"] * s["qreps"] > 1 and bool(s["optimizer"] or s["prep"] or s["timeout"] or len(s["outcomes"]) > 2),
          classify=lambda s: list(labels(s))),
    Facet("shuffling", shuffle_spec, check_shuffle, 40, 400, "shuffled repetitions", lambda s: s["shuffled"]),
    Facet("files", file_spec, check_files, 800, 12000, "at least two results written to the file", lambda s: sum(len(r["queries"]) * r["wreps"] * r["qreps"] for r in s["runs"]) > 1, classify=lambda s: [s["format"], f"{len(s['runs'])} runs"]),
    Facet("frames", frame_spec, check_frame, 3000, 40000, "a frame of at least two rows", lambda s: s["n"] > 1, classify=lambda s: ["by " + str(s["by"])]),
    Facet("quacklab", duck_spec, check_duck, 300, 4000, "always", lambda s: True, classify=lambda s: ["prep " + str(s["prep"])]),
]
