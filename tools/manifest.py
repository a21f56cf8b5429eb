"""Writes MANIFEST.json: python3 tools/manifest.py (claims every property that has checks/<id>.py)."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOTES = json.load(open(os.path.join(ROOT, "tools/levels.json")))
ids = [json.loads(l)["id"] for l in open(os.path.join(ROOT, "properties.jsonl"))]
checks, na = [], []
for i in ids:
    if os.path.exists(os.path.join(ROOT, "checks", i + ".py")):
        tech, note = NOTES[i]
        checks.append(dict(property=i, quick_cmd=f"python3 check.py {i} --tier quick",
                           thorough_cmd=f"python3 check.py {i} --tier thorough",
                           technique=tech, level="model_checking", level_note=note))
    else:
        na.append(dict(property=i, reason="its specification and conformance check are not built yet"))
json.dump(dict(version=1, setup_cmd="python3 -c 'import vlib; vlib.build()'", checks=checks, not_applicable=na),
          open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
