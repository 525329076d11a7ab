#!/usr/bin/env python3
"""Writes DESIGN.md from tools/design.md, seeded/, tools/caught.json and known_findings.jsonl"""
import json, os
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rd = lambda f: open(os.path.join(R, f)).read()
known, fixed = [], []
for l in rd("known_findings.jsonl").splitlines():
    if l.startswith("fixed:"):
        _, p, h, w = l.split(" ", 3)
        fixed.append((p.split("=")[1], h, w))
    elif l.strip():
        d = json.loads(l)
        known.append("- **%s** (`%s`): %s" % (d["property"], d["tag"], d["what"]))
caught = json.loads(rd("tools/caught.json")) if os.path.exists(os.path.join(R, "tools/caught.json")) else {}
first = json.loads(rd("tools/first.json"))
rows = ["| bug | property | what it breaks | needs | caught by | first |", "|---|---|---|---|---|---|"]
for d in sorted(os.listdir(os.path.join(R, "seeded"))):
    m = json.loads(rd("seeded/%s/meta.json" % d))
    c = caught.get(d, {})
    by = ", ".join(k for k, v in sorted(c.items()) if v) or "not caught"
    k = d.split("_")[0]
    rows.append("| %s | %s | %s | %s | %s | %s |" % (d, m["property"], m["what_it_breaks"].replace("|", "/"), m["needs"].replace("|", "/"), by, first.get(k, "caught")))
s = rd("tools/design.md")
s = s.replace("{{KNOWN}}", "\n".join(known)).replace("{{FIXED}}", "\n".join("- %s `%s` %s" % f for f in sorted(fixed)))
s = s.replace("{{SEEDED}}", "\n".join(rows)).replace("{{DOMAIN}}", rd("tools/domain.md").strip()).replace("{{FALSE}}", rd("tools/falsealarms.md").strip())
open(os.path.join(R, "DESIGN.md"), "w").write(s)
