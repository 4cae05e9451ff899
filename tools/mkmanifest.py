"""Writes MANIFEST.json: every property in properties.jsonl with a props/pNN.py is claimed."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
TECH = json.load(open(V + "/tools/technique.json"))
checks, na = [], []
for p in props:
    pid = p["id"]
    if os.path.exists(f"{V}/props/{pid.lower()}.py"):
        t = TECH.get(pid, {})
        checks.append(dict(property=pid, quick_cmd=f"bash check.sh {pid} quick", thorough_cmd=f"bash check.sh {pid} thorough",
                           technique=t.get("technique", "property-based testing (Hypothesis) against a reference model"),
                           level="exploration",
                           level_note=t.get("note", "Generated-input search with shrinking; finds violations within the generated sizes, does not prove their absence. Trusts the reference model in harness/ and props/, numpy, torch and float32 tolerances.")))
    else:
        na.append(dict(property=pid, reason="its check is not built yet"))
m = dict(version=1, setup_cmd="bash setup.sh", checks=checks, not_applicable=na,
         notes="Each check imports dhg from /repo's working tree (pure Python: nothing to build) and drives it with Hypothesis in forked workers. VERIF_SEED fixes every random choice. Replay a saved case with: /opt/venv/bin/python run.py <ID> --replay <file>.")
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks;", len(na), "not claimed")
