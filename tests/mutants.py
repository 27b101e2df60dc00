#!/usr/bin/env python3
"""Development aid: one-line breakages (and neutral edits) with the checks that must (not) fire.

  tests/mutants.py [CHECK...]   runs every entry in scratch copies under /tmp, eight at a time.
No check reads this file."""
import os, shutil, subprocess, sys
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.abspath(__file__))
S = "src/core/solvers/"
I = "include/crocoddyl/core/"
# (checks expected to fire; "" for none, file, old, new [, file, old, new ...])
M = []
exec(open(os.path.join(HERE, "mutants.txt")).read())


def run(args):
    i, m, only = args
    want = m[0].split()
    watch = want if not m[0].startswith("!") else m[0][1:].split()
    neutral = m[0].startswith("!")
    if only and not set(watch) & only:
        return None
    d = "/tmp/mut%d" % i
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    subprocess.run("git -C /repo archive HEAD | tar x -C %s" % d, shell=True, check=True)
    try:
        for k in range(1, len(m), 3):
            p = os.path.join(d, m[k])
            s = open(p).read()
            if m[k + 1] not in s:
                return "%d TEXT NOT FOUND %s: %s" % (i, m[k], m[k + 1][:60])
            s = s.replace(m[k + 1], m[k + 2], 1)
            open(p, "w").write(s)
        out = []
        for c in watch:
            if only and c not in only:
                continue
            r = subprocess.run(["timeout", "120", sys.executable, "check.py", c], cwd=os.path.dirname(HERE),
                               env=dict(os.environ, SA_REPO=d, SA_EVID="/tmp/mutev%d" % i), stdout=subprocess.PIPE,
                               stderr=subprocess.STDOUT, universal_newlines=True)
            exp = 0 if neutral else 1
            if r.returncode == exp:
                out.append("%d ok %s %s %s" % (i, c, "quiet" if neutral else "caught", m[2][:50].replace("\n", " ")))
            else:
                out.append("%d FAIL %s exit %d (expected %d) %s -> %s\n%s" % (i, c, r.returncode, exp, m[2][:80], m[3][:80], r.stdout[-1500:]))
        return "\n".join(out)
    finally:
        shutil.rmtree(d, ignore_errors=True)
        shutil.rmtree("/tmp/mutev%d" % i, ignore_errors=True)


if __name__ == "__main__":
    only = set(sys.argv[1:])
    with ThreadPoolExecutor(4) as ex:
        for r in ex.map(run, [(i, m, only) for i, m in enumerate(M)]):
            if r:
                print(r, flush=True)
