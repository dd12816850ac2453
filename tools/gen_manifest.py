"""Writes MANIFEST.json from properties.jsonl and the checks that exist."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
import glob
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
NOTES = {}
checks, na = [], []
for p in props:
    i = p["id"]
    if os.path.exists(os.path.join(V, "checks", i + ".py")):
        checks.append(dict(
            property=i, quick_cmd=f"./run.sh {i} --tier quick", thorough_cmd=f"./run.sh {i} --tier thorough",
            technique="runtime monitoring: seeded hostile workload on the real code, reference-model oracles and recording stand-ins at the API boundary",
            level="exploration",
            level_note="Sampled executions only: held on every execution of this run; inputs, sizes and monitors are listed in the evidence file.",
        ))
    else:
        na.append(dict(property=i, reason="check not built yet"))
m = dict(version=1, setup_cmd="test -x /opt/venv-pypy/bin/python && chmod +x run.sh", checks=checks, not_applicable=na)
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
