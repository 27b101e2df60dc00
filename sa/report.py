"""Result of a check: obligations, violations, known findings, evidence file."""
import json
import os
import sys
import time
import traceback

from .frontend import AnalysisBroken, VERIF

KNOWN = os.path.join(VERIF, "known_findings.json")
EVID = os.environ.get("SA_EVID") or os.path.join(VERIF, "evidence")


class Report:
    def __init__(self, pid, rule):
        self.pid = pid
        self.rule = rule
        self.t0 = time.time()
        self.obls = {}       # kind -> {"n":, "ok":}
        self.viol = {}       # key -> (message, detail lines)
        self.samples = []
        self.cover = {}
        self.assumptions = []

    def ob(self, kind, ok=True, sample=None):
        o = self.obls.setdefault(kind, {"checked": 0, "ok": 0})
        o["checked"] += 1
        if ok:
            o["ok"] += 1
        if sample and len(self.samples) < 14 and (len([s for s in self.samples if s.startswith(kind)]) < 3):
            self.samples.append(kind + ": " + sample)

    def bad(self, key, msg, detail=()):
        """key identifies the construct independently of line numbers."""
        if key not in self.viol:
            self.viol[key] = (msg, list(detail))

    def need(self, what, n, least):
        """A rule that matches nothing passes vacuously: that is a broken check."""
        self.cover[what] = n
        if n < least:
            raise AnalysisBroken("%s: only %d %s found (at least %d expected)" % (self.pid, n, what, least))

    def assume(self, s):
        self.assumptions.append(s)


def known_for(pid):
    if not os.path.exists(KNOWN):
        return {}
    d = json.load(open(KNOWN))
    return {f["key"]: f["what"] for f in d.get("findings", []) if f["property"] == pid}


def run(pid, rule, fn, min_note=""):
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    rep = Report(pid, rule)
    rep.tier = tier
    try:
        fn(rep)
    except AnalysisBroken as e:
        print("ANALYSIS-BROKEN property=%s %s" % (pid, e))
        return 2
    except Exception:
        traceback.print_exc()
        print("ANALYSIS-BROKEN property=%s internal error" % pid)
        return 2
    known = known_for(pid)
    new = {k: v for k, v in rep.viol.items() if k not in known}
    old = {k: v for k, v in rep.viol.items() if k in known}
    os.makedirs(EVID, exist_ok=True)
    ev = {"property": pid, "tier": tier, "seed": seed, "level": "other",
          "coverage": {
              "explanation": rule,
              "obligations_by_kind": rep.obls,
              "obligations": sum(o["checked"] for o in rep.obls.values()),
              "discharged": sum(o["ok"] for o in rep.obls.values()),
              "samples": rep.samples or ["-"],
          },
          "wall_s": round(time.time() - rep.t0, 3),
          "violations": len(new)}
    ev["coverage"].update(rep.cover)
    if rep.assumptions:
        ev["assumptions"] = rep.assumptions
    ev["coverage"]["known_findings"] = sorted(old)
    tmp = os.path.join(EVID, ".%s.%d" % (pid, os.getpid()))
    json.dump(ev, open(tmp, "w"), indent=1)
    os.rename(tmp, os.path.join(EVID, pid + ".json"))
    for k in sorted(old):
        print("KNOWN-FINDING: property=%s %s" % (pid, known[k]))
    missing = set(known) - set(rep.viol)
    for k in sorted(missing):
        print("note: listed finding no longer present: %s" % k)
    if new:
        path = os.path.join(EVID, pid + "-violations.txt")
        with open(path, "w") as f:
            f.write("property %s\nrule: %s\n\n" % (pid, rule))
            for k in sorted(new):
                m, d = new[k]
                f.write("* %s\n  key: %s\n" % (m, k))
                for x in d:
                    f.write("    %s\n" % x)
        for k in sorted(new):
            print("  %s" % new[k][0])
            for x in new[k][1][:8]:
                print("      %s" % x)
            if os.environ.get("SA_KEYS"):
                print("      key: %s" % k)
        print("VIOLATION property=%s replay=%s" % (pid, path))
        return 1
    n = sum(o["checked"] for o in rep.obls.values())
    print("property %s holds: %d obligations (%s)" %
          (pid, n, ", ".join("%s %d" % (k, o["checked"]) for k, o in sorted(rep.obls.items()))))
    return 0
