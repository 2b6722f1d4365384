#!/usr/bin/env python3
"""Write a planted bug: plant.py ID PROPERTY FILE < spec.

spec (python): NEEDS, BREAKS, EDITS = [(file, old, new)], DEMO (python source).
"""
import json
import os
import shutil
import subprocess
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def main():
    bid, prop = sys.argv[1:3]
    ns = {}
    exec(sys.stdin.read(), ns)
    tmp = f"/tmp/plant-{bid}"
    shutil.rmtree(tmp, ignore_errors=True)
    subprocess.run(["cp", "-a", "/repo", tmp], check=True)
    for f, old, new in ns["EDITS"]:
        p = os.path.join(tmp, f)
        s = open(p).read()
        assert s.count(old) == 1, (f, old, s.count(old))
        open(p, "w").write(s.replace(old, new))
    diff = subprocess.run(["git", "-C", tmp, "diff"], check=True, capture_output=True, text=True).stdout
    d = os.path.join(HERE, "seeded", bid)
    os.makedirs(d, exist_ok=True)
    open(os.path.join(d, "patch.diff"), "w").write(diff)
    open(os.path.join(d, "demo.py"), "w").write(ns["DEMO"].lstrip())
    open(os.path.join(d, "demo.sh"), "w").write(
        '#!/bin/bash\nexport PYTHONDONTWRITEBYTECODE=1\nexec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
    json.dump({"property": prop, "needs": ns["NEEDS"], "what_it_breaks": ns["BREAKS"]}, open(os.path.join(d, "meta.json"), "w"), indent=1)
    shutil.rmtree(tmp)


main()
