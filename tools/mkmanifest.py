"""MANIFEST.json from properties.jsonl and the check modules present."""
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = {}
exec(open(os.path.join(ROOT, "tools", "notes.py")).read(), TECH)
checks, na = [], []
for line in open(os.path.join(ROOT, "properties.jsonl")):
    d = json.loads(line)
    i = d["id"]
    if os.path.exists(os.path.join(ROOT, "checks", i.lower() + ".py")):
        checks.append(dict(property=i, quick_cmd="./check.sh %s" % i,
                           thorough_cmd="./check.sh %s --tier thorough" % i,
                           evidence_file="evidence/%s.json" % i,
                           technique=TECH["TECHNIQUE"].get(i, "property-based testing (hypothesis) against a reference model"),
                           level="exploration",
                           level_note=TECH["NOTE"].get(i, "generated-input search with an explicit oracle; no exhaustive guarantee")))
    else:
        na.append(dict(property=i, reason="check not built yet"))
m = dict(version=1, setup_cmd="./setup.sh", checks=checks, not_applicable=na)
with open(os.path.join(ROOT, "MANIFEST.json"), "w") as fh:
    json.dump(m, fh, indent=1)
    fh.write("\n")
print(len(checks), "checks", len(na), "not claimed")
