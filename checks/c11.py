"""C11: the regularization stays in range and failures raise it."""
from collections import namedtuple

from sa import model
from sa.flow import Client, cmp_term, fld, lit, mentions, neg, p_mul, pretty
from sa.paths import le, paths
from sa.solvers import cur, flow_of, loc, method, solver_classes, writes

RULE = ("Path enumeration of every increaseRegularization / decreaseRegularization: on each path the value left in preg_ is "
        "proved to lie between reg_min_ and reg_max_ from the clamps taken, to be the old value times (divided by) the factor "
        "or a limit, and to equal dreg_. Typestate over every solve(): after a failed direction the regularization is raised "
        "and tested against the maximum before the next attempt, saturation returns failure, and before the first direction "
        "both regularizations have been given a value of this solve that is not NaN. Nothing else writes them.")
TECHNIQUE = "path-sensitive value analysis of the update functions plus typestate over the inlined graph of solve()"
NOTE = ("The bounds are proved symbolically for all values of the settings, assuming reg_min_ <= reg_max_ and a factor above "
        "one (what the setters enforce). The initial regularization is the caller's choice and is not clamped by the solver.")

K = namedtuple("K", "fail raised tested sat")


class Cl(Client):
    def __init__(self, rep, cls, needs):
        self.rep, self.cls, self.needs = rep, cls, needs
        self.report = False
        self.retries = 0

    def init(self, flow):
        return K(False, False, False, False)

    def bad(self, what, ev, msg):
        if self.report:
            self.rep.bad("%s: %s" % (self.cls, what), "%s: %s" % (ev.where, msg))

    def ok(self, kind, cond=True, s=None):
        if self.report:
            self.rep.ob(kind, cond, s)

    def step(self, key, ev, st, flow):
        onthis = ev.k == "C" and ev.obj == ("this",)
        if ev.k == "CATCH":
            if "computeDirection" in self.tried(flow, ev.node):
                if self.report:
                    self.retries += 1
                return K(True, False, False, False)
            return key
        if onthis and ev.name == "computeDirection":
            if key.fail:
                good = key.raised and key.tested
                self.ok("retries", good, "%s: direction retried at %s" % (self.cls, ev.where))
                if not key.raised:
                    self.bad("retries with the same regularization", ev, "a failed direction is attempted again without raising the regularization")
                elif not key.tested:
                    self.bad("retries without testing saturation", ev, "a failed direction is attempted again without testing that the maximum is not reached")
            if self.needs:
                for n in ("preg_", "dreg_"):
                    v = cur(flow, st, n)
                    bad = None
                    for x, facts in flow.leaf_facts(v, st.facts):
                        if x == loc(flow, n):
                            bad = "may still hold the value of an earlier solve"
                        elif x[0] == "p" and neg(("call", "isnan", None, (x,))) not in facts and cmp_term("==", x, x) not in facts:
                            bad = "may be the caller's NaN"
                    self.ok("regularization is set", bad is None, "%s: %s before %s" % (self.cls, n, ev.where))
                    if bad:
                        self.bad("%s unset" % n, ev, "%s %s when the direction is computed" % (n, bad))
            return K(False, False, False, False)
        if onthis and ev.name == "increaseRegularization" and key.fail:
            return key._replace(raised=True, tested=False)
        if onthis and ev.name == "decreaseRegularization" and key.fail:
            return key._replace(raised=False, tested=False)
        if key.fail and ev.k == "W" and fld(ev.loc) == "preg_":
            return key._replace(raised=False, tested=False)
        if ev.k == "RET" and key.sat:
            good = ev.val == lit(False)
            self.ok("saturated exits", good)
            if not good:
                self.bad("saturation is not a failure", ev, "the solve does not return failure although the regularization reached its maximum")
        if key.sat and onthis and ev.name in ("tryStep", "computeDirection", "setCandidate"):
            self.bad("goes on after saturation", ev, "the solve goes on although the direction failed at the maximum regularization")
        return key

    def tried(self, flow, catch):
        out = set()
        for n in flow.raisers.get(catch.id, ()):
            for st in flow.states(n):
                evs = []
                flow_client, flow.client = flow.client, Client()
                try:
                    flow.transfer(n, st, evs)
                finally:
                    flow.client = flow_client
                out |= {e.name for e in evs if e.k == "C"}
        return out

    def edge(self, key, term, truth, st, flow, node):
        if not key.fail or not key.raised:
            return key
        t = term if truth else neg(term)
        P, M = cur(flow, st, "preg_"), cur(flow, st, "reg_max_")
        for f in (t,):
            if f in (cmp_term("!=", P, M), ("cmp", "<", P, M)):
                return key._replace(tested=True)
            if f in (cmp_term("==", P, M), ("cmp", "<=", M, P)):
                return key._replace(sat=True)
        return key

    def visit(self, node, st, evs, flow):
        self.report = True
        key = st.key
        for ev in evs:
            key = self.step(key, ev, st, flow)
        self.report = False


def check(rep):
    p, mr = model.load()
    n = m = 0
    for c in solver_classes(p):
        fs = p.fields_of(c)
        if "reg_max_" not in fs:
            continue
        n += 1
        for name in ("increaseRegularization", "decreaseRegularization"):
            up = name.startswith("in")
            f = method(p, c, name)
            fl, pc = paths(p, mr, f, c)
            outs = [st for kind, st in pc.exits if kind == "exit"]
            rep.need("paths of %s::%s" % (c, name), len(outs), 1)
            for st in outs:
                P, D = cur(fl, st, "preg_"), cur(fl, st, "dreg_")
                lo, hi = cur(fl, st, "reg_min_"), cur(fl, st, "reg_max_")
                fac = loc(fl, "reg_incfactor_" if up else "reg_decfactor_")
                old = loc(fl, "preg_")
                new = p_mul(old, fac) if up else ("op", "/", old, fac)
                facts = st.facts | {cmp_term("<=", lo, hi)}
                if not up:      # the old value is in range, and the factor does not increase it
                    facts |= {("cmp", "<=", new, hi)}
                where = f.label
                isl = P in (lo, hi)
                hi_ok = isl or le(facts, P, hi)
                lo_ok = isl or le(facts, lo, P)
                core = {new, lo, hi}
                src = P in core or (P[0] == "call" and P[1] in ("min", "max", "clamp") and leaves_in(P, core))
                src = src or (P[0] == "ite" and leaves_in(P, core))
                rep.ob("range of the update", hi_ok and lo_ok, "%s leaves %s in [reg_min_, reg_max_] when %s" % (
                    where, pretty(P), ", ".join(pretty(x) for x in sorted(facts, key=repr)) or "always"))
                if not hi_ok:
                    rep.bad("%s::%s exceeds the maximum" % (f.cls, name), "%s can leave preg_ = %s above reg_max_" % (where, pretty(P)))
                if not lo_ok:
                    rep.bad("%s::%s falls below the minimum" % (f.cls, name), "%s can leave preg_ = %s below reg_min_" % (where, pretty(P)))
                rep.ob("direction of the update", src)
                if not src:
                    rep.bad("%s::%s changes it by something else" % (f.cls, name),
                            "%s leaves preg_ = %s, not the old value %s the factor (or a limit)" % (where, pretty(P), "times" if up else "divided by"))
                rep.ob("both regularizations agree", D == P)
                if D != P:
                    rep.bad("%s::%s leaves dreg_ behind" % (f.cls, name), "%s leaves dreg_ = %s but preg_ = %s" % (where, pretty(D), pretty(P)))
        used = reads_preg(p, c)
        cl = Cl(rep, c, used)
        fl = flow_of(p, mr, c, "solve", cl)
        fl.report()
        m += cl.retries
        rep.need("failed-direction handlers of " + c, cl.retries, 1)
        owners(rep, p, mr, c)
    rep.need("regularized solvers", n, 5)
    rep.need("failed-direction handlers", m, 5)
    rep.assume("reg_min_ <= reg_max_, reg_incfactor_ > 1, reg_decfactor_ > 1 (enforced by or left to the setters)")


def leaves_in(t, core):
    if t in core:
        return True
    if t[0] == "ite":
        return leaves_in(t[2], core) and leaves_in(t[3], core)
    if t[0] == "call" and t[1] in ("min", "max", "clamp"):
        return all(leaves_in(x, core) for x in t[3])
    return False


def reads_preg(p, c):
    from sa.prog import walk, short
    for b in p.linear_bases(c):
        for f in p.by_cls.get(b, []):
            if f.sname in ("backwardPass", "computeActionValueFunction", "computeValueFunction", "computePrimalDual", "computeDirection", "computeGains"):
                for e in walk(f.body):
                    if e.get("k") == "mem" and e.get("n") == "preg_":
                        return True
    return False


ALLOWED = {"increaseRegularization", "decreaseRegularization", "set_preg", "set_dreg", "set_xreg", "set_ureg", "solve"}


def owners(rep, p, mr, c):
    """Only the update functions, the setters and the start of a solve write the regularizations."""
    for b in p.linear_bases(c):
        for f in p.by_cls.get(b, []):
            if f.rec.get("ctor"):
                continue
            for line, r, op, e in mr.sites[f.id]:
                if r[0] == "fld" and r[2] in ("preg_", "dreg_"):
                    ok = f.sname in ALLOWED or only_called_from(p, c, f)
                    rep.ob("writers of the regularization", ok)
                    if not ok:
                        rep.bad("%s writes %s" % (p.fns[f.id].name, r[2]), "%s:%s: %s changes the regularization" % (f.file, line, f.sname))


def only_called_from(p, c, f, d=0):
    """A helper that only the allowed functions call."""
    if f.virt or d > 4:
        return False
    callers = []
    for g in p.fns.values():
        from sa.prog import walk
        if g.id != f.id and any(n.get("id") == f.id for n in walk(g.body) if n.get("k") in ("call", "opcall")):
            callers.append(g)
    return bool(callers) and all(g.sname in ALLOWED or g.rec.get("ctor") or only_called_from(p, c, g, d + 1) for g in callers)
