"""Regenerates MANIFEST.json from properties.jsonl and the check modules."""
import json, os, re, ast
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"
NA = {}
exec(open(os.path.join(V, "tools", "not_applicable.py")).read()) if os.path.exists(os.path.join(V, "tools", "not_applicable.py")) else None
checks, na = [], []
for line in open(os.path.join(V, "properties.jsonl")):
    d = json.loads(line)
    i = d["id"]
    f = os.path.join(V, "checks", i.lower() + ".py")
    if not os.path.exists(f) or i in NA:
        na.append({"property": i, "reason": NA.get(i, "check not built yet")})
        continue
    m = {}
    for node in ast.parse(open(f).read()).body:
        if isinstance(node, ast.Assign) and isinstance(node.targets[0], ast.Name):
            try:
                m[node.targets[0].id] = ast.literal_eval(node.value)
            except Exception:
                pass
    note = "Bounds (quick): %s. Rule: %s." % (m["BOUNDS"]["quick"], m["RULE"])
    if m.get("ASSUMPTIONS"):
        note += " Trusts: " + "; ".join(m["ASSUMPTIONS"]) + "."
    checks.append({"property": i, "quick_cmd": "%s run.py %s quick" % (PY, i),
                   "thorough_cmd": "%s run.py %s thorough" % (PY, i),
                   "technique": m["TECHNIQUE"], "level": m["LEVEL"], "level_note": note})
json.dump({"version": 1, "setup_cmd": "%s tools/selfcheck.py" % PY, "checks": checks, "not_applicable": na,
           "notes": "Checks copy /repo/coniii into a scratch directory, build cpp/ there and explore that copy; no hooks in /repo."},
          open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks;", len(na), "not claimed")
