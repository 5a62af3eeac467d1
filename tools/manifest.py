"""Writes MANIFEST.json from properties.jsonl and the registry (python3 tools/manifest.py)."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
exec(open(os.path.join(V, "harness/registry.py")).read())
NOTE = ("TLC model-checks the specification exhaustively at small constants and judges every recorded call of the real code; "
        "assurance is bounded by the inputs and histories explored. Trusted: TLC, the projection in harness/, Python's fractions.")
props = [json.loads(x) for x in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for p in props:
    if p["id"] in REGISTRY:
        checks.append({"property": p["id"], "quick_cmd": f"bash check.sh {p['id']}",
                       "thorough_cmd": f"VERIF_TIER=thorough bash check.sh {p['id']}",
                       "technique": "TLA+ specification model-checked with TLC, bound to the code by trace validation of recorded executions",
                       "level": "model_checking", "level_note": LEVEL_NOTES.get(p["id"], NOTE) if "LEVEL_NOTES" in globals() else NOTE})
    else:
        na.append({"property": p["id"], "reason": NA.get(p["id"], "check not built yet") if "NA" in globals() else "check not built yet"})
m = {"version": 1, "setup_cmd": "bash setup.sh", "checks": checks, "not_applicable": na,
     "notes": "No hooks: all observation goes through the public API; parallel tasks are observed through an in-process stand-in for the ray module."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks;", len(na), "not claimed")
