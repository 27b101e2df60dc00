#!/usr/bin/env python3
"""mut.py FILE OLD NEW CHECK... : runs checks on a scratch copy of /repo with one text replacement.
   mut.py --patch P CHECK... : the same with a patch.   (development aid; no check uses it)"""
import os, shutil, subprocess, sys
D = "/tmp/mutrepo"
shutil.rmtree(D, ignore_errors=True)
os.makedirs(D)
subprocess.run("git -C /repo archive HEAD | tar x -C %s" % D, shell=True, check=True)
a = sys.argv[1:]
if a[0] == "--patch":
    subprocess.run(["git", "apply", "--directory=" + D.lstrip("/"), "--unsafe-paths", a[1]], cwd="/", check=True)
    ch = a[2:]
else:
    ch = []
    while a and not (a[0][0] == "C" and a[0][1:].isdigit()):
        f, old, new = a[:3]
        a = a[3:]
        p = os.path.join(D, f)
        s = open(p).read()
        if old not in s:
            sys.exit("text not found in " + f)
        open(p, "w").write(s.replace(old, new, 1))
    ch = a
env = dict(os.environ, SA_REPO=D)
for c in ch:
    r = subprocess.run([sys.executable, "check.py", c], cwd="/verif", env=env)
    print("==", c, "exit", r.returncode)
