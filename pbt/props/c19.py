"""C19: optimization pipelines call their stages in order, honour all checks, and route training."""
from __future__ import annotations

import functools

import pandas as pd

from pbt import pb
from pbt.draw import composite
from pbt.engine import Facet, fail, require
import postbound as pbd
from postbound import _pipelines as pl
from postbound import _stages as st
from postbound import util, validation as val
from postbound._hints import PhysicalOperatorAssignment, PlanParameterization
from postbound.db import Database
from postbound.train import TrainingData, TrainingDataRepository, TrainingSpec

ASSUMPTIONS = ["stages are recording stubs with arbitrary checks and training capabilities; the stages of one pipeline have distinct names"]
SQL = ["SELECT * FROM t0, t1 WHERE t0.x = t1.y", "SELECT count(*) FROM t0", "SELECT * FROM t0, t1, t2 WHERE t0.x = t1.y AND t1.x = t2.y UNION SELECT * FROM t0, t1, t2"]
NQ, ND = len(SQL), 3
CAPS = ["data", "workload", "samples", "online"]
KINDS = {"complete": st.CompleteOptimizationAlgorithm, "join": st.JoinOrderOptimization, "ops": st.PhysicalOperatorSelection, "params": st.ParameterGeneration,
         "card": st.CardinalityEstimator, "cost": st.CostModel, "enum": st.PlanEnumerator, "step": st.IncrementalOptimizationStep}


# ---------------------------------------------------------------- stubs

class StubHints:
    def __init__(self, db):
        self.db = db

    def generate_hints(self, query, plan=None, *, join_order=None, physical_operators=None, plan_parameters=None):
        return ("hinted", self.db.id, query, plan, join_order, physical_operators, plan_parameters)

    def supports_hint(self, hint):
        return True


class StubOptimizer:
    def __init__(self, db):
        self.db = db

    def query_plan(self, query):
        return ("native", self.db.id, query)


class PipeDB(Database):
    def __init__(self, ident):
        self.id, self.system_name = ident, f"db{ident}"

    def hinting(self):
        return StubHints(self)

    def optimizer(self):
        return StubOptimizer(self)

    def describe(self):
        return {"system_name": self.system_name}

    def close(self):
        pass

    def __str__(self):
        return self.system_name

    __repr__ = __str__


PipeDB.__abstractmethods__ = frozenset()


def training_methods(caps):
    ns = {}
    if "data" in caps:
        def fit_database(self, database):
            self.log.append(("fit-data", self.id, database.id))
            self.done["data"] = self.spec["sticky"]
            return {"m": ["data", self.id]}
        ns |= {"fit_database": fit_database, "database_fit_completed": lambda self: self.done["data"]}
    if "workload" in caps:
        def fit_workload(self, queries, database):
            self.log.append(("fit-workload", self.id, queries, database.id))
            self.done["workload"] = self.spec["sticky"]
            return {"m": ["workload", self.id]}
        ns |= {"fit_workload": fit_workload, "workload_fit_completed": lambda self: self.done["workload"]}
    if "samples" in caps:
        def fit_samples(self, samples):
            self.log.append(("fit-samples", self.id, samples))
            self.done["samples"] = self.spec["sticky"]
            return {"m": ["samples", self.id]}
        ns |= {"fit_samples": fit_samples, "sample_fit_completed": lambda self: self.done["samples"],
               "sample_spec": lambda self: TrainingSpec(self.spec["features"])}
    if "online" in caps:
        def learn_from_feedback(self, query, result_set, *, exec_time):
            self.log.append(("feedback", self.id, query, result_set, exec_time))
            return {"m": ["online", self.id]}
        ns |= {"learn_from_feedback": learn_from_feedback}
    return ns


@functools.cache
def stage_class(kind, caps):
    def init(self, ident, spec, log):
        KINDS[kind].__init__(self)
        self.id, self.spec, self.log, self.name = ident, spec, log, f"stage{ident}"
        self.done = {"data": False, "workload": False, "samples": False}

    def pre_check(self):
        if self.spec["check"] == "none":
            return None
        if self.spec["check"] == "empty":
            return val.EmptyPreCheck()
        return check_of(f"check{self.id}", self.spec)
    ns = {"__init__": init, "pre_check": pre_check, **training_methods(caps)}
    if kind == "complete":
        def optimize_query(self, query):
            self.log.append(("run", self.id, query))
            return ("plan", self.id, query)
        ns["optimize_query"] = optimize_query
    elif kind == "step":
        def optimize_query(self, query, current_plan):
            self.log.append(("run", self.id, query, current_plan))
            return ("step", self.id, query, current_plan)
        ns["optimize_query"] = optimize_query
    elif kind == "join":
        def optimize_join_order(self, query):
            self.log.append(("run", self.id, query))
            return ("join", self.id, query) if self.spec["sticky"] else None
        ns["optimize_join_order"] = optimize_join_order
    elif kind == "ops":
        def select_physical_operators(self, query, join_order):
            self.log.append(("run", self.id, query, join_order))
            return ("ops", self.id, query)
        ns["select_physical_operators"] = select_physical_operators
    elif kind in ("params", "card"):
        def generate_plan_parameters(self, query, join_order, operator_assignment):
            self.log.append(("run", self.id, query, join_order, operator_assignment))
            return ("params", self.id, query)
        ns["generate_plan_parameters"] = generate_plan_parameters
    if kind in ("card", "cost"):
        ns["initialize"] = lambda self, target_db, query: self.log.append(("init", self.id, target_db.id, query))
        ns["cleanup"] = lambda self: self.log.append(("cleanup", self.id))
    if kind == "card":
        ns["calculate_estimate"] = lambda self, query, intermediate: 1
    elif kind == "cost":
        ns["estimate_cost"] = lambda self, query, plan: 1
    elif kind == "enum":
        def generate_execution_plan(self, query, *, cost_model, cardinality_estimator):
            self.log.append(("run", self.id, query, cost_model.id, cardinality_estimator.id))
            return ("plan", self.id, query)
        ns["generate_execution_plan"] = generate_execution_plan
    return type(f"Stub_{kind}", (KINDS[kind],), ns)


def check_of(name, spec):
    def qc(query):
        ok = QUERIES.index(query) in spec["queries"]
        return val.PreCheckResult(ok, "" if ok else f"{name}-query")

    def dc(database):
        ok = database.id in spec["dbs"]
        return val.PreCheckResult(ok, "" if ok else f"{name}-db")
    c = NamedCheck(name, query_check=qc, db_check=dc)
    if spec["check"] == "compound":
        return val.CompoundCheck([c, val.EmptyPreCheck(), NamedCheck(name + "'")])
    return c


class NamedCheck(val.CustomCheck):
    """checks with the same name are the same check"""

    def describe(self):
        return {"name": self.name}

    def __eq__(self, other):
        return isinstance(other, NamedCheck) and other.name == self.name

    def __hash__(self):
        return hash(self.name)


class Settings(pl.OptimizationSettings):
    def __init__(self, check=None, join=None, ops=None, params=None):
        self.parts = {"check": check, "join": join, "ops": ops, "params": params}

    def query_pre_check(self):
        return self.parts["check"]

    def build_join_order_optimizer(self):
        return self.parts["join"]

    def build_physical_operator_selection(self):
        return self.parts["ops"]

    def build_plan_parameterization(self):
        return self.parts["params"]


QUERIES: list = []


def queries():
    pb.reset()
    QUERIES[:] = [pb.parse(s) for s in SQL]
    return QUERIES


# ---------------------------------------------------------------- histories

PIPES = {"integrated": ["complete"], "textbook": ["enum", "cost", "card"], "multi": ["join", "ops", "params", "card"], "incremental": ["complete", "step", "step", "step"]}


def gen_check(d):
    return {"check": d.weighted([(4, "plain"), (1, "compound"), (3, "none"), (1, "empty")]), "queries": sorted(d.subset(range(NQ), 80)),
            "dbs": sorted(d.subset(range(ND), d.choice([50, 100, 100])))}


def gen_stage(d, kinds):
    return {"kind": d.choice(kinds), "caps": sorted(d.subset(CAPS, 35)), "sticky": d.flag(80), "features": d.some(["f0", "f1", "f2"], 1, 2), **gen_check(d)}


def accepts_db(spec, db):
    return spec["check"] in ("none", "empty") or db in spec["dbs"]


def accepts_query(spec, q):
    return spec["check"] in ("none", "empty") or q in spec["queries"]


@composite
def strategy(d):
    pipe = d.choice(list(PIPES))
    stages = [gen_stage(d, PIPES[pipe]) for _ in range(d.int(2, 6))]
    for i, kind in enumerate(dict.fromkeys(PIPES[pipe])):
        if i < len(stages) and d.flag(80):
            stages[i]["kind"] = kind
    checks = [gen_check(d) for _ in range(2)]
    ops = [["use", i] for i in range(min(len(set(PIPES[pipe])), len(stages)))] if d.flag(60) else []
    if pipe == "incremental" and d.flag(70):
        ops += [["use", i, d.flag(50)] for i in d.permutation(range(len(stages)))]
    for _ in range(d.int(3, 14)):
        ops.append(gen_op(d, pipe, len(stages)))
    return {"pipe": pipe, "stages": stages, "checks": checks, "db": d.int(0, ND - 1), "ops": ops}


def gen_op(d, pipe, n):
    k = d.weighted([(8, "use"), (1, "build"), (5, "plan"), (4, "optimize"), (6, "db"), (1, "check"), (3, "train"), (1, "describe")]) if pipe == "incremental" else \
        d.weighted([(4, "use"), (5, "build"), (5, "plan"), (4, "optimize"), (2, "db"), (1, "check"), (1, "settings"), (3, "train"), (1, "describe")])
    if k == "use":
        return ["use", d.int(0, n - 1), d.flag(50)]
    if k in ("plan", "optimize"):
        return [k, d.int(0, NQ - 1)]
    if k == "db":
        return ["db", d.int(0, ND - 1)]
    if k == "check":
        return ["check", d.choice([None, 0, 1])]
    if k == "settings":
        return ["settings", d.choice([None, 0, 1]), [d.choice([None, *range(n)]) for _ in range(3)]]
    if k == "train":
        return ["train", d.choice(CAPS), d.int(0, ND - 1), d.choice(["data", "repo", "repo"]), sorted(d.subset(["f0", "f1", "f2"], 75))]
    return [k]


class Model:
    """the documented behaviour of the four pipelines"""

    def __init__(self, pipe, stages, db):
        self.pipe, self.stages, self.db, self.built = pipe, stages, db, False
        self.slots = {}
        self.steps, self.check = [], None

    def current(self):
        order = {"integrated": ["complete"], "textbook": ["enum", "cost", "card"], "multi": ["join", "ops", "params"], "incremental": ["complete"]}[self.pipe]
        return [self.slots[k] for k in order if k in self.slots] + self.steps


def slot_of(pipe, kind):
    return "params" if pipe == "multi" and kind == "card" else kind


def expect(fn, exc, what):
    """-> result of fn(), or the expected exception"""
    try:
        res = fn()
    except (val.UnsupportedQueryError, val.UnsupportedSystemError, util.StateError, ValueError) as e:
        require(exc is not None and type(e) is exc, "%s raises %s(%s), expected %s", what, type(e).__name__, e, exc and exc.__name__)
        return e
    require(exc is None, "%s does not raise %s", what, exc and exc.__name__)
    return res


def run(spec):
    qs = queries()
    log = []
    dbs = [PipeDB(i) for i in range(ND)]
    sspecs = spec["stages"]
    objs = [stage_class(s["kind"], tuple(s["caps"]))(i, s, log) for i, s in enumerate(sspecs)]
    uchecks = [val.EmptyPreCheck() if c["check"] in ("none", "empty") else check_of(f"user{i}", c) for i, c in enumerate(spec["checks"])]
    pipe = spec["pipe"]
    m = Model(pipe, sspecs, spec["db"])
    db = dbs[spec["db"]]
    p = {"integrated": pl.IntegratedOptimizationPipeline, "textbook": pl.TextBookOptimizationPipeline, "multi": pl.MultiStageOptimizationPipeline,
         "incremental": pl.IncrementalOptimizationPipeline}[pipe](db)
    if pipe == "textbook":      # the default components need a real database
        for kind in PIPES[pipe]:
            i = next((i for i, s in enumerate(sspecs) if s["kind"] == kind), None)
            if i is None:
                return
            p.use(objs[i])
            m.slots[kind] = i
    for op in spec["ops"]:
        del log[:]
        step(spec, m, p, objs, dbs, uchecks, qs, log, op)
        require([s.id for s in p.stages()] == [i for i in m.current()] or sorted(s.id for s in p.stages()) == sorted(m.current()),
                "after %s the pipeline's stages are %s instead of %s", op, p.stages(), m.current())
        require(p.target_database().id == m.db, "after %s the target database is %s instead of db%d", op, p.target_database(), m.db)


def bad_db(m, spec, db, extra=()):
    parts = [m.stages[i] for i in [*m.current(), *extra]]
    if m.check is not None:
        parts.append(spec["checks"][m.check])
    return any(not accepts_db(s, db) for s in parts)


def step(spec, m, p, objs, dbs, uchecks, qs, log, op):
    pipe, kind = m.pipe, op[0]
    if kind == "use":
        i = op[1]
        k = m.stages[i]["kind"]
        exc = None
        if pipe == "incremental":
            keep = dict(m.slots)
            if k == "complete":
                m.slots["complete"] = i
            exc = val.UnsupportedSystemError if bad_db(m, spec, m.db, [i]) else None
            if exc:
                m.slots = keep
            elif k == "step":
                if i in m.steps:
                    return
                m.steps.append(i)
        else:
            m.slots[slot_of(pipe, k)] = i
            m.built = False
        expect(lambda: setup(p, pipe, k, objs[i], len(op) > 2 and op[2]), exc, op)
        require(not log, "%s already runs stages: %s", op, log)
    elif kind == "check" and pipe == "multi":
        p.setup_query_support_check(uchecks[op[1]] if op[1] is not None else val.EmptyPreCheck())
        m.check, m.built = op[1], False
    elif kind == "settings" and pipe == "multi":
        parts = {}
        for i in op[2]:
            if i is not None:
                parts[slot_of(pipe, m.stages[i]["kind"])] = i
        p.load_settings(Settings(uchecks[op[1]] if op[1] is not None else None, **{k: objs[i] for k, i in parts.items()}))
        m.slots |= parts
        m.check = op[1] if op[1] is not None else m.check
        m.built = False
    elif kind == "db" and pipe != "textbook":
        if pipe == "incremental":
            exc = val.UnsupportedSystemError if bad_db(m, spec, op[1]) else None
            expect(lambda: setattr(p, "target_db", dbs[op[1]]), exc, op)
            if not exc:
                m.db = op[1]
        else:
            p.target_db = dbs[op[1]]
            m.db, m.built = op[1], False
    elif kind == "build" and pipe != "incremental":
        exc = util.StateError if pipe == "integrated" and not m.current() else val.UnsupportedSystemError if bad_db(m, spec, m.db) else None
        res = expect(p.build, exc, op)
        if exc is None:
            m.built = True
            require(res is p, "build() returns %r", res)
        require(not log, "%s already runs stages: %s", op, log)
    elif kind in ("plan", "optimize"):
        check_optimize(spec, m, p, objs, qs, log, op)
    elif kind == "train":
        check_training(spec, m, p, objs, dbs, qs, log, op)
    elif kind == "describe":
        text = util.to_json(p.describe())
        for i in m.current():
            require(f"stage{i}" in text, "the description does not mention stage%d: %s", i, text)
        require(f"db{m.db}" in text, "the description does not mention db%d: %s", m.db, text)
        str(p), repr(p)
    # the configuration is reported back
    if pipe == "multi":
        for attr, slot in (("join_order_enumerator", "join"), ("physical_operator_selection", "ops"), ("plan_parameterization", "params")):
            got = getattr(p, attr)
            require((got and got.id) == m.slots.get(slot), "after %s, %s is %s", op, attr, got)


def setup(p, pipe, kind, obj, direct):
    if not direct:
        return p.use(obj)
    if pipe == "integrated":
        return p.setup_optimization_algorithm(obj)
    if pipe == "textbook":
        return {"card": p.setup_cardinality_estimator, "cost": p.setup_cost_model, "enum": p.setup_plan_enumerator}[kind](obj)
    if pipe == "multi":
        return {"join": p.setup_join_order_optimization, "ops": p.setup_physical_operator_selection, "params": p.setup_plan_parameterization,
                "card": p.setup_plan_parameterization}[kind](obj)
    if kind == "complete":
        p.initial_plan_generator = obj
        return p
    return p.add_optimization_step(obj)


def check_optimize(spec, m, p, objs, qs, log, op):
    pipe, q = m.pipe, qs[op[1]]
    fn = p.query_execution_plan if op[0] == "plan" else p.optimize_query
    parts = [m.stages[i] for i in m.current()] + ([spec["checks"][m.check]] if m.check is not None else [])
    exc = None
    if pipe != "incremental" and not m.built:
        exc = util.StateError
    elif any(not accepts_query(s, op[1]) for s in parts):
        exc = val.UnsupportedQueryError
    res = expect(lambda: fn(q), exc, op)
    if exc is not None:
        require(not log, "%s is rejected but stages run nevertheless: %s", op, log)
        return
    want_log = []
    if pipe == "integrated":
        want_log = [("run", m.slots["complete"], q)]
        plan = ("plan", m.slots["complete"], q)
    elif pipe == "textbook":
        want_log = [("run", m.slots["enum"], q, m.slots["cost"], m.slots["card"])]
        plan = ("plan", m.slots["enum"], q)
    elif pipe == "incremental":
        plan = ("plan", m.slots["complete"], q) if "complete" in m.slots else ("native", m.db, q)
        if "complete" in m.slots:
            want_log.append(("run", m.slots["complete"], q))
        for i in m.steps:
            want_log.append(("run", i, q, plan))
            plan = ("step", i, q, plan)
    if pipe != "multi":
        want = plan if op[0] == "plan" else ("hinted", m.db, q, plan, None, None, None)
        require(res == want, "%s gives %s instead of %s", op, res, want)
    else:
        want_log, want = multi_expect(m.slots, m.stages, m.db, q)
        hinted = res
        if op[0] == "plan":
            require(isinstance(res, tuple) and res[:2] == ("native", m.db), "%s gives %s", op, res)
            hinted = res[2]
        same_hints(hinted, want)
    require(same_log(log, want_log), "%s runs the stages as %s instead of %s", op, log, want_log)


def same_log(log, want):
    return len(log) == len(want) and all(len(a) == len(b) and all(x == y or empty(x) and empty(y) for x, y in zip(a, b)) for a, b in zip(log, want))


def empty(x):
    return x is None or (isinstance(x, PhysicalOperatorAssignment) and x == PhysicalOperatorAssignment()) or (
        isinstance(x, PlanParameterization) and not (x.cardinalities or x.system_settings or x.parallel_workers))


def multi_expect(slots, stages, db, q):
    """-> call log, hinted query"""
    log = []
    jo = ops = params = None
    if "join" in slots:
        log.append(("run", slots["join"], q))
        jo = ("join", slots["join"], q) if stages[slots["join"]]["sticky"] else None
    if "ops" in slots:
        log.append(("run", slots["ops"], q, jo))
        ops = ("ops", slots["ops"], q)
    if "params" in slots:
        i = slots["params"]
        card = stages[i]["kind"] == "card"
        log += [("init", i, db, q)] if card else []
        log.append(("run", i, q, jo, ops))
        log += [("cleanup", i)] if card else []
        params = ("params", i, q)
    return log, ("hinted", db, q, None, jo, ops, params)


def same_hints(got, want):
    require(isinstance(got, tuple) and len(got) == len(want) and all(x == y or empty(x) and empty(y) for x, y in zip(got, want)),
            "the hints are generated for %s instead of %s", got, want)


class Repo(TrainingDataRepository):
    def __init__(self, features):
        super().__init__()
        self.features, self.datasets = set(features), {}

    def retrieve_merged(self, spec):
        if not set(spec.features) <= self.features:
            return None
        return self.datasets.setdefault(frozenset(spec.features), make_data(spec.features))


def make_data(features):
    return TrainingData(pd.DataFrame({f: [1] for f in features}), feature_map={f: f for f in features})


def check_training(spec, m, p, objs, dbs, qs, log, op):
    _, cap, dbi, kind, features = op
    able = [i for i in m.current() if cap in m.stages[i]["caps"]]
    need = {"data": p.requires_data_training, "workload": p.requires_workload_training, "samples": p.requires_sample_training,
            "online": p.requires_online_training}[cap]()
    require(need is bool(able), "requires %s training: %s, but the stages with this capability are %s", cap, need, able)
    todo = able if cap == "online" else [i for i in able if not objs[i].done[cap]]
    exc = None
    if cap == "data":
        res = p.train_on_database(dbs[dbi])
        want = [("fit-data", i, dbi) for i in todo]
    elif cap == "workload":
        wl = pbd.Workload({"q": qs[0]})
        res = p.train_on_workload(wl, dbs[dbi])
        want = [("fit-workload", i, wl, dbi) for i in todo]
    elif cap == "samples":
        require(p.sample_fit_completed() is (not todo), "sample_fit_completed: %s, still to train: %s", p.sample_fit_completed(), todo)
        data = Repo(features) if kind == "repo" else make_data(features)
        missing = [i for i in todo if kind == "repo" and not set(m.stages[i]["features"]) <= set(features)]
        exc = ValueError if missing else None
        res = expect(lambda: p.train_on_samples(data), exc, op)
        if exc:
            require(all(e[0] == "fit-samples" and e[1] in todo and e[1] not in missing for e in log), "%s trains %s, no data for %s", op, log, missing)
            return
        want = [("fit-samples", i, data.datasets[frozenset(m.stages[i]["features"])] if kind == "repo" else data) for i in todo]
    else:
        rs = [(dbi,)]
        res = p.learn_from_feedback(qs[0], rs, exec_time=12.5 + dbi)
        want = [("feedback", i, qs[0], rs, 12.5 + dbi) for i in todo]
    require(sorted(map(repr, log)) == sorted(map(repr, want)) and all(any(same(x, y) for y in want) for x in log), "%s training calls %s instead of %s", cap, log, want)
    expected = {f"stage{i}": {"m": [cap, i]} for i in todo}
    require(dict(res) == expected, "%s training reports %s instead of %s", cap, res, expected)


def same(x, y):
    return len(x) == len(y) and all(a is b or (isinstance(a, (str, int, float, tuple)) and a == b) for a, b in zip(x, y))


# ---------------------------------------------------------------- single stages as complete algorithms

@composite
def single_strategy(d):
    return {"stage": gen_stage(d, ["join", "ops", "params", "card"]), "q": d.int(0, NQ - 1), "db": d.int(0, ND - 1)}


def check_single(spec):
    """as_complete_algorithm(stage) is shorthand for a multi-stage pipeline that only has this stage"""
    qs = queries()
    log = []
    s = spec["stage"]
    obj = stage_class(s["kind"], tuple(s["caps"]))(0, s, log)
    db = PipeDB(spec["db"])
    algo = st.as_complete_algorithm(obj, database=db)
    q = qs[spec["q"]]
    plan = algo.optimize_query(q)
    want_log, want = multi_expect({slot_of("multi", s["kind"]): 0}, [s], spec["db"], q)
    require(isinstance(plan, tuple) and plan[:2] == ("native", spec["db"]), "optimize_query gives %s", plan)
    same_hints(plan[2], want)
    require(same_log(log, want_log), "the stage is called as %s instead of %s", log, want_log)
    p = pl.IntegratedOptimizationPipeline(db).use(algo)
    ok = accepts_db(s, spec["db"])
    expect(p.build, None if ok else val.UnsupportedSystemError, "build")
    if ok:
        expect(lambda: p.query_execution_plan(q), None if accepts_query(s, spec["q"]) else val.UnsupportedQueryError, "plan")
    require("stage0" in util.to_json(p.describe()), "description: %s", p.describe())


# ---------------------------------------------------------------- capabilities

METHODS = {"data": ["fit_database", "database_fit_completed"], "workload": ["fit_workload", "workload_fit_completed"],
           "samples": ["fit_samples", "sample_spec", "sample_fit_completed"], "online": ["learn_from_feedback"]}


@composite
def caps_strategy(d):
    names = [x for ms in METHODS.values() for x in ms]
    full = [x for c in d.subset(CAPS, 50) for x in METHODS[c]]
    own = sorted(set(full) | set(d.some(names, 0, 2) if d.flag(50) else []))
    return {"kind": d.choice(list(KINDS)), "methods": own, "level": {x: d.int(0, 2) for x in own}, "call": d.flag(50)}


def check_caps(spec):
    base = stage_class(spec["kind"], ())
    for level in range(3):
        base = type(f"L{level}", (base,), {x: (lambda self, *a, **k: "own") for x, lv in spec["level"].items() if lv == level})
    own = set(spec["methods"])
    partial = any(own & set(ms) and not set(ms) <= own for ms in METHODS.values())
    flags = {"data": base.requires_data_training, "workload": base.requires_workload_training, "samples": base.requires_sample_training,
             "online": base.uses_online_feedback}
    for cap, fn in flags.items():
        require(fn() is (METHODS[cap][0] in own), "%s training: %s, but implemented are %s", cap, fn(), sorted(own))
    sspec = {"check": "none"}
    try:
        obj = base(0, sspec, [])
    except NotImplementedError as e:
        require(partial, "a stage implementing %s cannot be created: %s", sorted(own), e)
        missing = [x for ms in METHODS.values() if own & set(ms) for x in ms if x not in own]
        require(any(x in str(e) for x in missing), "the error does not name the missing methods %s: %s", missing, e)
        return
    require(not partial, "a stage that only implements %s is accepted", sorted(own))
    for cap, ms in METHODS.items():
        for x in ms:
            fn, kw = getattr(obj, x), {"exec_time": 1} if x == "learn_from_feedback" else {}
            n = {"fit_database": 1, "fit_workload": 2, "fit_samples": 1, "learn_from_feedback": 2}.get(x, 0)
            try:
                res = fn(*[None] * n, **kw)
            except NotImplementedError:
                require(x not in own, "%s raises although it is implemented", x)
                continue
            require(x in own and res == "own", "%s returns %s without an implementation", x, res)


def n_ops(s, *kinds):
    return sum(op[0] in kinds for op in s["ops"])


FACETS = [
    Facet("histories", strategy, run, quick=3000, thorough=80000, shards=6,
          rule="histories of up to 18 configuration, build, optimization and training calls on the four pipelines; non-trivial: an optimization after at "
               "least 3 configuration steps",
          nontrivial=lambda s: n_ops(s, "plan", "optimize") >= 1 and n_ops(s, "use", "db", "settings", "check", "build") >= 3,
          classify=lambda s: [s["pipe"], *sorted({op[0] for op in s["ops"]})]),
    Facet("single", single_strategy, check_single, quick=300, thorough=5000, shards=1, rule="every stage kind as a complete algorithm; non-trivial: all",
          nontrivial=lambda s: True, classify=lambda s: [s["stage"]["kind"]]),
    Facet("capabilities", caps_strategy, check_caps, quick=600, thorough=10000, shards=1,
          rule="stages implementing any subset of the training methods, spread over a class hierarchy; non-trivial: at least one method",
          nontrivial=lambda s: bool(s["methods"]), classify=lambda s: [s["kind"]]),
]
