"""Development aid: generate cases of one facet without stopping at failures and bucket the failures by message shape.

usage: python pbt/explore.py C01 roundtrip [N] [seed]
"""
import os
import re
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.dirname(HERE))
sys.path = [p for p in sys.path if os.path.abspath(p or ".") != HERE]
sys.path.insert(1, "/repo")
from pbt import shim  # noqa: E402

shim.install()
import hypothesis  # noqa: E402
from hypothesis import HealthCheck, Phase, settings  # noqa: E402

from pbt import engine  # noqa: E402


def main():
    prop, name = sys.argv[1], sys.argv[2]
    n = int(sys.argv[3]) if len(sys.argv) > 3 else 500
    seed = int(sys.argv[4]) if len(sys.argv) > 4 else 1
    facet = {f.name: f for f in engine.load(prop).FACETS}[name]
    if facet.setup:
        facet.setup()
    buckets = {}
    total = [0]

    def body(spec):
        if facet.excluded and facet.excluded(spec):
            return
        total[0] += 1
        import json
        spec = json.loads(engine.canon(spec))
        f = engine.run_case(facet, spec)
        if f:
            msg = f["message"]
            key = re.sub(r"'[^']*'|\"[^\"]*\"|\d+|\[[^\]]*\]", "#", msg.split("\n")[0])[:110]
            old = buckets.get(key)
            size = len(engine.canon(spec))
            if old is None or size < old[0]:
                buckets[key] = (size, spec, f, (old[3] if old else 0) + 1)
            else:
                buckets[key] = (*old[:3], old[3] + 1)
    t = hypothesis.seed(seed)(hypothesis.given(facet.strategy())(body))
    settings(max_examples=n, database=None, deadline=None, phases=(Phase.generate,),
             suppress_health_check=list(HealthCheck))(t)()
    print(f"{total[0]} cases, {sum(b[3] for b in buckets.values())} failing, {len(buckets)} buckets")
    for key, (size, spec, f, c) in sorted(buckets.items(), key=lambda kv: kv[1][0]):
        print(f"--- x{c}: {f['message'][:700]}")
        if os.environ.get("TB"):
            print(f.get("traceback", "")[-1500:])
        if os.environ.get("SPEC"):
            print("   ", engine.canon(spec)[:800])


main()
