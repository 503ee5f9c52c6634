"""Writes /verif/MANIFEST.json from the check modules present and properties.jsonl."""
import ast, json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"
# Properties that are stated but not claimed, with the reason.
NOT_APPLICABLE = {}
rows = [json.loads(l) for l in open(os.path.join(HERE, "properties.jsonl"))]
checks, missing = [], []
for r in rows:
    pid = r["id"]
    fs = [f for f in sorted(os.listdir(os.path.join(HERE, "checks"))) if f.startswith(pid.lower() + "_") and f.endswith(".py")]
    if not fs:
        missing.append({"property": pid, "reason": NOT_APPLICABLE.get(pid, "no bounded exhaustive check has been built for it yet")})
        continue
    consts = {}
    for node in ast.parse(open(os.path.join(HERE, "checks", fs[0])).read()).body:
        if isinstance(node, ast.Assign) and isinstance(node.targets[0], ast.Name):
            try:
                consts[node.targets[0].id] = ast.literal_eval(node.value)
            except ValueError:
                pass
    tech = consts.get("TECHNIQUE", "bounded exhaustive enumeration of inputs/configurations on the real code against a reference model")
    note = consts.get("NOTE") or ("Every case of the enumerated space is executed on the code in /repo and compared with an independent reference model; "
            "nothing is sampled. Bounds and assumptions: " + "; ".join(consts.get("ASSUMPTIONS", [])))
    checks.append({"property": pid, "quick_cmd": f"{PY} run.py {pid} --tier quick", "thorough_cmd": f"{PY} run.py {pid} --tier thorough",
                   "evidence_file": f"evidence/{pid}.json", "technique": tech, "level": consts["LEVEL"], "level_note": note})
with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
    json.dump({"version": 1, "setup_cmd": "true", "checks": checks, "not_applicable": missing,
               "notes": "No hooks: the checks import /repo/src directly."}, f, indent=1)
    f.write("\n")
print(len(checks), "checks;", [m["property"] for m in missing])
