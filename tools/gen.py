"""Writes properties.jsonl and MANIFEST.json from tools/properties_src.py and tools/manifest_src.py."""
import json, os, sys
here = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, here)
sys.dont_write_bytecode = True
from properties_src import P
import manifest_src as M
root = os.path.dirname(here)
with open(os.path.join(root, "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps(p) + "\n")
checks = []
for p in P:
    i = p["id"]
    if i in M.NA or not os.path.exists(os.path.join(root, "harness", "props", i.lower() + ".py")):
        continue
    tech, note = M.T[i]
    checks.append(dict(property=i, quick_cmd=f"./check {i} quick", thorough_cmd=f"./check {i} thorough",
                       evidence_file=f"evidence/{i}.json", technique=tech, level="exploration", level_note=note))
have = {c["property"] for c in checks}
na = [dict(property=p["id"], reason=M.NA.get(p["id"], "check not built yet")) for p in P if p["id"] not in have]
json.dump(dict(version=1, setup_cmd="./setup.sh", checks=checks, not_applicable=na, notes=M.NOTES),
          open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)
print(len(P), "properties,", len(checks), "checks,", len(na), "not claimed")
