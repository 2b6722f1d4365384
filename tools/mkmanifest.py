#!/usr/bin/env python3
"""Write MANIFEST.json from properties.jsonl and the modules in checks/."""
import importlib
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
checks, na = [], []
with open(os.path.join(HERE, "properties.jsonl")) as f:
    props = [json.loads(line) for line in f]
for p in props:
    i = p["id"]
    if not os.path.exists(os.path.join(HERE, "checks", i.lower() + ".py")):
        na.append({"property": i, "reason": "check not built yet"})
        continue
    m = importlib.import_module("checks." + i.lower())
    checks.append({
        "property": i,
        "quick_cmd": f"python3 check.py {i}",
        "thorough_cmd": f"python3 check.py {i}",
        "evidence_file": f"evidence/{i}.json",
        "technique": getattr(m, "TECHNIQUE", "value-flow static analysis: abstract interpretation of the source into a value "
                             "graph, compared with the graph of a specification (congruence, then valuation)"),
        "level": "other",
        "level_note": getattr(m, "NOTE", m.EXPLAIN),
    })
man = {"version": 1, "setup_cmd": "true", "checks": checks, "not_applicable": na,
       "notes": "Static analysis only: check.py parses the sources under /repo and never imports or runs them."}
with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
    json.dump(man, f, indent=1)
    f.write("\n")
