"""Writes /verif/MANIFEST.json from the properties and the check modules, that exist in mon/."""
import importlib
import json
import os
import sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
sys.path.insert(0, os.environ.get("VERIF_REPO", "/repo"))
properties = [json.loads(l) for l in open(os.path.join(HERE, "properties.jsonl"))]
checks, na = [], []
for p in properties:
    i = p["id"]
    if os.path.exists(os.path.join(HERE, "mon", f"p_{i}.py")):
        m = importlib.import_module(f"mon.p_{i}")
        checks.append({"property": i, "quick_cmd": f"tools/check {i} --tier quick",
                       "thorough_cmd": f"tools/check {i} --tier thorough",
                       "evidence_file": f"evidence/{i}.json",
                       "technique": getattr(m, "TECHNIQUE", "runtime monitoring: random workloads on the real code, every observed result judged by an independent reference model"),
                       "level": getattr(m, "LEVEL", "exploration"),
                       "level_note": getattr(m, "LEVEL_NOTE", "randomised and boundary-directed workloads; decides the executions that were observed, see the evidence file for their number and classes")})
    else:
        na.append({"property": i, "reason": "the check for this property is still being built"})
manifest = {"version": 1, "setup_cmd": "tools/setup", "checks": checks, "not_applicable": na}
with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
    json.dump(manifest, f, indent=1)
    f.write("\n")
print(len(checks), "checks;", [n["property"] for n in na], "not claimed")
