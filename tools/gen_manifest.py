"""Writes MANIFEST.json from properties.jsonl and the check modules present."""
import json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
TECH = json.load(open(os.path.join(V, "tools", "technique.json")))
checks, na = [], []
for p in props:
    i = p["id"]
    f = os.path.join(V, "vlib", "checks", i.lower() + ".py")
    if not os.path.exists(f):
        na.append({"property": i, "reason": "check not built yet"})
        continue
    level = re.search(r'^LEVEL = "(\w+)"', open(f).read(), re.M).group(1)
    t = TECH[i]
    checks.append({"property": i, "quick_cmd": f"./run.sh {i} quick", "thorough_cmd": f"./run.sh {i} thorough",
                   "evidence_file": f"evidence/{i}.json", "technique": "runtime monitoring: " + t[0], "level": level,
                   "level_note": t[1]})
m = {"version": 1, "setup_cmd": "/opt/venv/bin/python -c 'import torch, numpy, scipy'", "checks": checks,
     "not_applicable": na,
     "notes": "Pure Python code; no hooks are committed in /repo: monitors attach from outside (torch function modes, "
              "wrapped entry points, state snapshots). Checks import simple_einet straight from /repo's working tree."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
