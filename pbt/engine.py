"""Facet engine: drives hypothesis, shrinks failures, writes replay and evidence files.

A property is decided by one or more *facets*.  A facet has
  * a hypothesis strategy that yields a plain JSON-able specification of a case (never objects of the code under test),
  * check(spec): builds the case through the public API of /repo and compares with an oracle; raises on violation,
  * classify(spec) -> iterable of labels, nontrivial(spec) -> bool.
check() is a pure function of (code, spec); a replay runs it on the saved spec without hypothesis.
"""
from __future__ import annotations

import argparse
import collections
import hashlib
import importlib
import json
import os
import pickle
import signal
import sys
import tempfile
import time
import traceback
from dataclasses import dataclass, field
from typing import Any, Callable, Iterable, Optional

import hypothesis
from hypothesis import HealthCheck, Phase, Verbosity, settings

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EVIDENCE = os.path.join(ROOT, "evidence")
REPLAYS = os.path.join(ROOT, "replays")
KNOWN = os.path.join(ROOT, "known_findings.jsonl")
CASE_LIMIT_S = 120  # watchdog for one case (cases normally take milliseconds)
SHRINK_LIMIT_S = 40


class Violation(AssertionError):
    pass


class HarnessError(Exception):
    """Raised by harness code when it (not the code under test) is at fault."""


class _Abort(BaseException):
    pass


class _CaseTimeout(BaseException):
    pass


def fail(msg: str):
    raise Violation(msg)


def require(cond, msg="requirement violated", *args):
    if not cond:
        raise Violation(msg % args if args else msg)


def eq(actual, expected, what=""):
    if not (actual == expected):
        raise Violation(f"{what}: got {actual!r}, expected {expected!r}")


@dataclass
class Facet:
    name: str
    strategy: Callable[[], Any]
    check: Callable[[Any], Any]
    quick: int = 200
    thorough: int = 4000
    rule: str = ""
    nontrivial: Callable[[Any], bool] = lambda spec: True
    classify: Callable[[Any], Iterable[str]] = lambda spec: ()
    shards: int = 2  # number of parallel sub-searches in the quick tier
    excluded: Optional[Callable[[Any], Optional[str]]] = None  # known-finding class of the spec, if any
    setup: Optional[Callable[[], None]] = None  # run once in each worker process


@dataclass
class ShardResult:
    facet: str
    evaluations: int = 0
    hashes: set = field(default_factory=set)
    nontrivial_hashes: set = field(default_factory=set)
    labels: collections.Counter = field(default_factory=collections.Counter)
    excluded: collections.Counter = field(default_factory=collections.Counter)
    samples: list = field(default_factory=list)
    failure: Optional[dict] = None
    harness_error: Optional[str] = None
    wall_s: float = 0.0


def canon(spec) -> str:
    return json.dumps(spec, sort_keys=True, separators=(",", ":"), ensure_ascii=True)


def load(prop: str):
    return importlib.import_module(f"pbt.props.{prop.lower()}")


def _describe(exc: BaseException) -> str:
    tb = traceback.extract_tb(exc.__traceback__)
    where = ""
    for fr in reversed(tb):
        if "/repo/" in fr.filename:
            where = f" at {fr.filename}:{fr.lineno} in {fr.name}"
            break
    return f"{type(exc).__name__}: {exc}{where}"[:4000]


def _is_harness_fault(exc: BaseException) -> bool:
    if isinstance(exc, HarnessError):
        return True
    if isinstance(exc, (AssertionError,)):
        return False
    tb = traceback.extract_tb(exc.__traceback__)
    if any("/repo/postbound" in fr.filename for fr in tb):
        return False
    # An unexpected exception purely in the oracle: it met a value from the code under test that it could not
    # interpret.  Resource problems are the harness's own.
    return isinstance(exc, (MemoryError, OSError, ImportError))


def run_case(facet: Facet, spec) -> Optional[dict]:
    """Returns None if the case holds, else a failure description."""
    def on_alarm(signum, frame):
        raise _CaseTimeout()
    old = signal.signal(signal.SIGALRM, on_alarm)
    signal.alarm(CASE_LIMIT_S)
    try:
        facet.check(spec)
        return None
    except _CaseTimeout:
        return {"message": f"no answer within {CASE_LIMIT_S} s (cases of this kind take milliseconds)", "hang": True}
    except RecursionError as e:
        return {"message": "RecursionError: " + str(e)}
    except Exception as e:  # noqa: BLE001
        if _is_harness_fault(e):
            raise HarnessError(_describe(e) + "\n" + traceback.format_exc()) from e
        return {"message": _describe(e), "traceback": traceback.format_exc()[-6000:]}
    finally:
        signal.alarm(0)
        signal.signal(signal.SIGALRM, old)


def run_shard(facet: Facet, examples: int, seed: int) -> ShardResult:
    res = ShardResult(facet.name)
    t0 = time.monotonic()
    if facet.setup:
        facet.setup()
    state = {"first_fail": None, "best": None}

    class _Fail(Exception):
        pass

    def body(spec):
        if facet.excluded is not None:
            cls = facet.excluded(spec)
            if cls:
                res.excluded[cls] += 1
                return
        text = canon(spec)
        h = hashlib.sha1(text.encode()).digest()[:10]
        if state["first_fail"] is None:
            res.evaluations += 1
            if h not in res.hashes:
                res.hashes.add(h)
                if facet.nontrivial(spec):
                    res.nontrivial_hashes.add(h)
                    if len(res.samples) < 2 or (len(res.samples) < 4 and len(res.hashes) % 97 == 0):
                        res.samples.append(spec)
                for label in facet.classify(spec):
                    res.labels[label] += 1
        elif time.monotonic() - state["first_fail"] > SHRINK_LIMIT_S:
            raise _Abort()
        f = run_case(facet, json.loads(text))
        if f is not None:
            if state["first_fail"] is None:
                state["first_fail"] = time.monotonic()
            if state["best"] is None or len(text) <= state["best"][0]:
                state["best"] = (len(text), json.loads(text), f)
            if f.get("hang"):
                raise _Abort()
            raise _Fail(f["message"][:80])

    test = hypothesis.given(facet.strategy())(body)
    test = hypothesis.seed(seed)(test)
    test = settings(max_examples=examples, database=None, deadline=None, derandomize=False, print_blob=False,
                    verbosity=Verbosity.quiet, report_multiple_bugs=False,
                    phases=(Phase.generate, Phase.shrink),
                    suppress_health_check=list(HealthCheck))(test)
    try:
        test()
    except _Fail:
        pass
    except _Abort:
        pass
    except HarnessError as e:
        res.harness_error = str(e)
    except BaseException as e:  # noqa: BLE001  hypothesis Flaky, generator errors
        if state["best"] is None:
            res.harness_error = "".join(traceback.format_exception(e))[-6000:]
    if state["best"] is not None:
        _, spec, f = state["best"]
        res.failure = {"spec": spec, **f}
        res.harness_error = None
    res.wall_s = time.monotonic() - t0
    return res


def _parallel(tasks: list[Callable[[], Any]], workers: int) -> list[Any]:
    """Runs each task in its own forked process."""
    results: list[Any] = [None] * len(tasks)
    tmp = tempfile.mkdtemp(prefix="pbt-")
    running: dict[int, int] = {}
    todo = list(range(len(tasks)))
    sys.stdout.flush()
    sys.stderr.flush()
    try:
        while todo or running:
            while todo and len(running) < workers:
                i = todo.pop(0)
                pid = os.fork()
                if pid == 0:
                    code = 0
                    try:
                        os.environ["TMPDIR"] = tmp
                        devnull = os.open(os.devnull, os.O_WRONLY)
                        os.dup2(devnull, 1)
                        if not os.environ.get("PBT_DEBUG"):
                            os.dup2(devnull, 2)
                        out = tasks[i]()
                        with open(f"{tmp}/{i}.pkl", "wb") as fh:
                            pickle.dump(out, fh)
                    except BaseException:  # noqa: BLE001
                        with open(f"{tmp}/{i}.err", "w") as fh:
                            fh.write(traceback.format_exc())
                        code = 3
                    finally:
                        os._exit(code)
                running[pid] = i
            pid, status = os.wait()
            if pid not in running:
                continue
            i = running.pop(pid)
            try:
                with open(f"{tmp}/{i}.pkl", "rb") as fh:
                    results[i] = pickle.load(fh)
            except FileNotFoundError:
                err = f"worker ended with status {status}"
                if os.path.exists(f"{tmp}/{i}.err"):
                    err += "\n" + open(f"{tmp}/{i}.err").read()
                results[i] = RuntimeError(err)
    finally:
        import shutil
        shutil.rmtree(tmp, ignore_errors=True)
    return results


def known_entries(prop: str) -> list[dict]:
    if not os.path.exists(KNOWN):
        return []
    out = []
    for line in open(KNOWN):
        line = line.strip()
        if line.startswith("{"):
            e = json.loads(line)
            if e.get("property") == prop and e.get("status", "known") == "known":
                out.append(e)
    return out


def main(argv) -> int:
    ap = argparse.ArgumentParser()
    ap.add_argument("property", nargs="?")
    ap.add_argument("--facet")
    ap.add_argument("--replay")
    ap.add_argument("--list", action="store_true")
    ap.add_argument("--examples", type=int)
    ap.add_argument("--selftest", action="store_true", help="check that the environment is complete")
    args = ap.parse_args(argv)
    t0 = time.monotonic()
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    workers = int(os.environ.get("PBT_WORKERS", "8"))

    if args.selftest:
        import postbound  # noqa: F401
        import quacklab  # noqa: F401
        import pglast  # noqa: F401
        print(f"hypothesis {hypothesis.__version__}, postbound from {os.path.dirname(postbound.__file__)}")
        return 0

    if args.replay:
        rep = json.load(open(args.replay))
        facet = {f.name: f for f in load(rep["property"]).FACETS}[rep["facet"]]
        if facet.setup:
            facet.setup()
        f = run_case(facet, rep["spec"])
        print(f.get("traceback", f["message"]) if f else "holds")
        if f:
            print(f["message"])
            print(f"VIOLATION property={rep['property']} replay={args.replay}")
        return 1 if f else 0

    prop = args.property
    mod = load(prop)
    facets: list[Facet] = list(mod.FACETS)
    if args.list:
        for f in facets:
            print(f.name, f.quick, f.thorough)
        return 0
    if args.facet:
        facets = [f for f in facets if f.name == args.facet]
    names = [f.name for f in facets]
    assert len(set(names)) == len(names), "duplicate facet names"
    by_name = {f.name: f for f in facets}

    tasks, meta = [], []
    known = [k for k in known_entries(prop) if k["facet"] in by_name]
    for k in known:
        fct = by_name[k["facet"]]

        def task_known(fct=fct, k=k):
            if fct.setup:
                fct.setup()
            return run_case(fct, k["spec"])
        tasks.append(task_known)
        meta.append(("known", k))
    for fct in facets:
        total = args.examples or (fct.quick if tier == "quick" else fct.thorough)
        shards = fct.shards if tier == "quick" else max(8, fct.shards)
        shards = max(1, min(shards, total))
        for s in range(shards):
            n = total // shards + (1 if s < total % shards else 0)
            key = f"{seed}/{prop}/{fct.name}/{s}/{shards}"
            hseed = int.from_bytes(hashlib.sha256(key.encode()).digest()[:8], "big")
            tasks.append(lambda fct=fct, n=n, hseed=hseed: run_shard(fct, n, hseed))
            meta.append(("shard", fct.name))
    results = _parallel(tasks, workers)

    merged: dict[str, ShardResult] = {f.name: ShardResult(f.name) for f in facets}
    harness_errors, failures = [], {}
    for (kind, info), r in zip(meta, results):
        if isinstance(r, RuntimeError):
            harness_errors.append(f"{kind} {info if kind == 'shard' else info['id']}: {r}")
            continue
        if kind == "known":
            if r is not None:
                print(f"KNOWN-FINDING: property={prop} {info['id']}: {info['what']}")
            continue
        m = merged[info]
        m.evaluations += r.evaluations
        m.hashes |= r.hashes
        m.nontrivial_hashes |= r.nontrivial_hashes
        m.labels += r.labels
        m.excluded += r.excluded
        m.samples += r.samples
        m.wall_s += r.wall_s
        if r.harness_error:
            harness_errors.append(f"{info}: {r.harness_error}")
        if r.failure:
            old = failures.get(info)
            if old is None or len(canon(r.failure["spec"])) < len(canon(old["spec"])):
                failures[info] = r.failure

    violations = []
    os.makedirs(EVIDENCE, exist_ok=True)
    for name, f in failures.items():
        os.makedirs(REPLAYS, exist_ok=True)
        hh = hashlib.sha1(canon(f["spec"]).encode()).hexdigest()[:10]
        path = os.path.join(REPLAYS, f"{prop}-{name}-{hh}.json")
        with open(path, "w") as fh:
            json.dump({"property": prop, "facet": name, "seed": seed, "spec": f["spec"], "message": f["message"],
                       "traceback": f.get("traceback", "")}, fh, indent=1)
        violations.append({"facet": name, "message": f["message"], "replay": path, "spec": f["spec"]})
        print(f"[{prop}/{name}] {f['message'][:1500]}")
        print(f"   spec: {canon(f['spec'])[:1500]}")
        print(f"VIOLATION property={prop} replay={path}")

    wall = time.monotonic() - t0
    evaluations = sum(m.evaluations for m in merged.values())
    nontriv = sum(len(m.nontrivial_hashes) for m in merged.values())
    evidence = {
        "property": prop, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": evaluations,
            "distinct_nontrivial": nontriv,
            "rule": " || ".join(f"{f.name}: {f.rule}" for f in facets),
            "samples": [{"facet": n, "case": m.samples[:3]} for n, m in merged.items() if m.samples][:40],
            "facets": {n: {"evaluations": m.evaluations, "distinct": len(m.hashes),
                           "distinct_nontrivial": len(m.nontrivial_hashes),
                           "excluded_known": dict(m.excluded),
                           "labels": dict(sorted(m.labels.items(), key=lambda kv: (-kv[1], kv[0]))[:60]),
                           "cpu_s": round(m.wall_s, 2)} for n, m in merged.items()},
        },
        "wall_s": round(wall, 3),
        "violations": len(violations),
        "violation_details": violations,
        "assumptions": list(getattr(mod, "ASSUMPTIONS", [])),
    }
    if not args.facet and not args.examples:
        with open(os.path.join(EVIDENCE, f"{prop}.json"), "w") as fh:
            json.dump(evidence, fh, indent=1)
    for n, m in merged.items():
        print(f"  {prop}/{n}: {m.evaluations} cases, {len(m.nontrivial_hashes)} distinct non-trivial, "
              f"{m.wall_s:.1f} cpu s" + (f", excluded {dict(m.excluded)}" if m.excluded else ""))
        if os.environ.get("PBT_LABELS"):
            print("      ", dict(m.labels.most_common(50)))
    print(f"{prop} {tier} seed={seed}: {evaluations} cases, {nontriv} distinct non-trivial, {wall:.1f} s, "
          f"{len(violations)} violation(s)")
    if violations:
        return 1
    if harness_errors:
        for h in harness_errors[:5]:
            print("HARNESS ERROR", h if len(h) < 2500 else h[:500] + "\n...\n" + h[-2000:], file=sys.stderr)
        return 2
    return 0
