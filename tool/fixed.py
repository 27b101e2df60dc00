#!/usr/bin/env python3
"""Development aid: tool/fixed.py 'CXX what failed'  records /repo's HEAD as the repair of a finding."""
import json, os, subprocess, sys
p = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "known_findings.json")
d = json.load(open(p))
h = subprocess.check_output(["git", "-C", "/repo", "log", "-1", "--format=%h"] + sys.argv[2:3], universal_newlines=True).strip()
pid, what = sys.argv[1].split(" ", 1)
e = "fixed: property=%s %s %s" % (pid, h, what)
if e not in d["fixed"]:
    d["fixed"].append(e)
json.dump(d, open(p, "w"), indent=1)
