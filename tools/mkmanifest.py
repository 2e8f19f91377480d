#!/usr/bin/env python3
"""regenerates MANIFEST.json from properties.jsonl and rules/registry.py"""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, "rules"))
import registry
m = {"version": 1, "setup_cmd": "bash engine/build.sh", "checks": [], "not_applicable": [],
     "notes": "check.py parses /repo's current translation units with a clang plugin and decides the rules in rules/ on the "
              "gated value graph; nothing of /repo is executed. Genuine defects repaired in /repo are listed in known_findings.txt."}
for pid in registry.PROPS:
    if pid in registry.NA:
        m["not_applicable"].append({"property": pid, "reason": registry.NA[pid]})
        continue
    tech, note = registry.TECH[pid]
    m["checks"].append({"property": pid, "quick_cmd": "./check.py %s --tier quick" % pid,
                        "thorough_cmd": "./check.py %s --tier thorough" % pid,
                        "technique": tech, "level": "other", "level_note": note})
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
