#!/usr/bin/env python3
"""tools/tables.py: rewrites section 6 of DESIGN.md (planted bugs) from seeded/*/meta.json and tools/caught.json."""
import json, os, re
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
hits = json.load(open(R + "/tools/caught.json"))
rows = []
for d in sorted(os.listdir(R + "/seeded")):
    m = json.load(open("%s/seeded/%s/meta.json" % (R, d)))
    rows.append("| %s | %s | %s |" % (d, m["what_it_breaks"].replace("|", "\\|"), " ".join(hits.get(d, [])) or "not run"))
text = "| change | what it breaks | caught by |\n|---|---|---|\n" + "\n".join(rows) + "\n"
p = R + "/DESIGN.md"
s = open(p).read()
s = re.sub(r"(<!-- planted -->\n).*?(<!-- /planted -->)", lambda m: m.group(1) + text + m.group(2), s, flags=re.S)
open(p, "w").write(s)
print(len(rows), "rows;", sum("not run" in r for r in rows), "not run")
