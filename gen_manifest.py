#!/usr/bin/env python3
"""Rewrites MANIFEST.json from checks_table.py and properties.jsonl."""
import json, os
from checks_table import CHECKS, TECHNIQUE, NOTE

HERE = os.path.dirname(os.path.abspath(__file__))
props = [json.loads(l) for l in open(os.path.join(HERE, "properties.jsonl")) if l.strip()]
doc = {
    "version": 1,
    "setup_cmd": "python3 run.py setup",
    "hooks": {"guard": "none: no hook is committed to /repo",
              "enable": "checks of concurrent code compile /repo's current sources through a go build overlay "
                        "(made at check time by /verif/instr) that adds scheduling points; see DESIGN.md",
              "source_commits": []},
    "checks": [], "not_applicable": [],
}
for p in props:
    pid = p["id"]
    if pid not in CHECKS:
        doc["not_applicable"].append({"property": pid, "reason": "no check is registered for it yet"})
        continue
    doc["checks"].append({
        "property": pid,
        "quick_cmd": "python3 run.py %s quick" % pid,
        "thorough_cmd": "python3 run.py %s thorough" % pid,
        "evidence_file": "evidence/%s.json" % pid,
        "technique": TECHNIQUE.get(pid, TECHNIQUE["default"]),
        "level": "exploration",
        "level_note": NOTE.get(pid, NOTE["default"]),
    })
with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
    json.dump(doc, f, indent=1)
    f.write("\n")
