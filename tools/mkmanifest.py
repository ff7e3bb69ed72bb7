"""Writes MANIFEST.json from properties.jsonl and the constants of vt/props/*.py."""
import ast, json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(HERE, "properties.jsonl"))]
checks, na = [], []
for p in props:
    f = os.path.join(HERE, "vt", "props", p["id"].lower() + ".py")
    if not os.path.exists(f):
        na.append({"property": p["id"], "reason": "no check built yet (the technique applies; see DESIGN.md)"})
        continue
    c = {}
    for n in ast.parse(open(f).read()).body:
        if isinstance(n, ast.Assign) and getattr(n.targets[0], "id", "") in ("TECH", "NOTE"):
            c[n.targets[0].id] = ast.literal_eval(n.value)
    cmd = "/opt/venv/bin/python check.py %s --tier " % p["id"]
    checks.append({"property": p["id"], "quick_cmd": cmd + "quick", "thorough_cmd": cmd + "thorough",
                   "technique": c["TECH"], "level": "exploration", "level_note": c["NOTE"]})
m = {"version": 1, "setup_cmd": "/opt/venv/bin/python tools/setup.py", "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo. Thorough runs are bounded by --budget seconds (default 2400)."}
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks;", len(na), "unclaimed")
