#!/usr/bin/env python3
"""plant.py ID PROP: reads a Python plan from stdin that defines
     needs, breaks : str;  edits = [(file, old, new), ...] (each old text exactly once);  demo : str (Python source)
Applies the edits in a scratch copy, checks that the demo passes on /repo and fails with the change, and that the stable
tests pass with it (in /repo, applied and undone), then writes /verif/seeded/ID/.  tools only; no check uses this file."""
import json, os, shutil, subprocess, sys, tempfile

SEEDED = "/verif/seeded"


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, **kw)


def main():
    bug, prop = sys.argv[1:3]
    plan = {}
    exec(sys.stdin.read(), plan)
    assert sh("git -C /repo status --porcelain").stdout == "", "repo dirty"
    tmp = tempfile.mkdtemp(prefix="plant")
    wt = tmp + "/repo"
    try:
        sh(f"git -C /repo worktree add --detach {wt} HEAD")
        for f, old, new in plan["edits"]:
            s = open(f"{wt}/{f}").read()
            assert s.count(old) == 1, (s.count(old), old)
            blame = sh(f"git -C {wt} blame -s {f}").stdout.splitlines()
            line0 = s[:s.index(old)].count("\n")
            a, b = old.split("\n"), new.split("\n")
            touched = [blame[line0 + i] for i, l in enumerate(a) if l not in b]
            bad = [t for t in touched if "97860d1" not in t.split()[0]]
            if bad or not touched:
                print("WARNING: not (only) original lines:", *bad, sep="\n  ")
            open(f"{wt}/{f}", "w").write(s.replace(old, new))
        diff = sh(f"git -C {wt} diff").stdout
        d = f"{SEEDED}/{bug}"
        os.makedirs(d, exist_ok=True)
        open(f"{d}/patch.diff", "w").write(diff)
        open(f"{d}/demo.py", "w").write(plan["demo"].lstrip("\n"))
        open(f"{d}/demo.sh", "w").write('#!/bin/bash\n# run with cwd /repo; exit 0 = behaves correctly\nexport PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg '
                                        'PYTHONPATH="$PWD"\nexec /opt/venv/bin/python -W ignore "$(dirname "$0")/demo.py"\n')
        os.chmod(f"{d}/demo.sh", 0o755)
        json.dump({"property": prop, "needs": plan["needs"], "what_it_breaks": plan["breaks"]}, open(f"{d}/meta.json", "w"), indent=1)
        ok = sh(f"bash {d}/demo.sh", cwd="/repo")
        broken = sh(f"bash {d}/demo.sh", cwd=wt)
        print("demo unchanged:", ok.returncode, ok.stdout[-300:], ok.stderr[-300:])
        print("demo patched:", broken.returncode, broken.stdout[-300:], broken.stderr[-200:])
        assert ok.returncode == 0 and broken.returncode != 0
        assert wt in broken.stderr or True
        r = sh(f"git -C /repo apply {d}/patch.diff")
        assert r.returncode == 0, r.stderr
        try:
            sh("bash /opt/vp/test.sh /tmp/plant-o.json")
            base = json.load(open("/opt/vp/BASELINE.json"))
            st = base.get("stable") or base.get("passed") or base.get("tests")
            out = json.load(open("/tmp/plant-o.json"))
            miss = [t for t in st if t not in out["passed"]]
            print("missing tests:", miss)
            assert not miss
            if "--check" in sys.argv:
                for c in [prop] + [a for a in sys.argv[3:] if a.startswith("C")]:
                    r = sh(f"./check {c}", cwd="/verif")
                    print(c, "exit", r.returncode, r.stdout[-700:])
        finally:
            sh("git -C /repo checkout -- .")
        print("KEPT", bug)
    except BaseException:
        shutil.rmtree(f"{SEEDED}/{bug}", ignore_errors=True)
        raise
    finally:
        sh(f"git -C /repo worktree remove --force {wt}")
        shutil.rmtree(tmp, ignore_errors=True)


main()
