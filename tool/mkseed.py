#!/usr/bin/env python3
"""Development aid: writes seeded/<id>/ from a python description on stdin.
   exec'd text defines: id, prop, needs, breaks, edits=[(file, old, new)...], demo (C++)"""
import json, os, subprocess, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
g = {}
exec(sys.stdin.read(), g)
d = os.path.join(HERE, "seeded", g["id"])
os.makedirs(d, exist_ok=True)
w = "/tmp/mkseed_%d" % os.getpid()
subprocess.run("mkdir -p %s && git -C /repo archive HEAD | tar x -C %s && cd %s && git init -q . && git add -A -f . && git -c user.name=x -c user.email=x commit -qm x" % (w, w, w), shell=True, check=True)
for f, old, new in g["edits"]:
    p = os.path.join(w, f)
    s = open(p).read()
    assert old in s, (f, old)
    open(p, "w").write(s.replace(old, new, g.get("count", 1)))
diff = subprocess.run(["git", "diff"], cwd=w, stdout=subprocess.PIPE, universal_newlines=True).stdout
assert diff
open(os.path.join(d, "patch.diff"), "w").write(diff)
subprocess.run(["rm", "-rf", w])
open(os.path.join(d, "demo.cpp"), "w").write(g["demo"].lstrip())
open(os.path.join(d, "demo.sh"), "w").write("""#!/bin/bash
# Compiles demo.cpp against /repo's headers and library and runs it: exit 0 iff the behaviour is right.
d=$(cd "$(dirname "$0")" && pwd)
w=$(mktemp -d /tmp/demo.XXXXXX) || exit 99
trap 'rm -rf "$w"' EXIT
g++ -std=c++14 -O1 -DNDEBUG -DHAVE_CSTDDEF -DCROCODDYL_WITH_IPOPT -w -I/repo/_build/include -I/repo/include \\
  -isystem /usr/include/eigen3 -isystem /usr/include/coin "$d/demo.cpp" -o "$w/demo" \\
  -L/repo/_build -lcrocoddyl -lipopt -Wl,-rpath,/repo/_build || exit 98
cd "$w" && timeout 100 "$w/demo"
""")
os.chmod(os.path.join(d, "demo.sh"), 0o755)
json.dump({"property": g["prop"], "needs": g["needs"], "what_it_breaks": g["breaks"]}, open(os.path.join(d, "meta.json"), "w"), indent=1)
print("wrote", d)
