"""C10: commit protocol of the line searches."""
from collections import namedtuple

from sa import model
from sa.flow import Client, fld, lit, mentions, neg, pretty
from sa.solvers import cur, feasibility_claims, flow_of, solver_classes, writes

RULE = ("Typestate over every line-search solver's solve(), helpers inlined: a candidate is committed only after a trial step "
        "that completed for the current step length and passed an acceptance comparison; trajectory, cost (and constraint "
        "feasibility) are committed together; no further trial step follows a commit; the next direction recomputes the "
        "derivatives; trial steps have no effect on the current trajectory (transitive mod sets).")
TECHNIQUE = "typestate dataflow over the inlined control-flow graph of solve() plus transitive mod sets of the trial step"
NOTE = ("Decides ordering, arguments and pairing of the commit on every path. Whether an accepted step really improves the "
        "problem is numerical (N04) and not decided.")

K = namedtuple("K", "tried why traj cost feas dirty inloop")
CUR = ("xs_", "us_", "cost_", "is_feasible_")


class Cl(Client):
    def __init__(self, rep, cls, hasfeas):
        self.rep, self.cls, self.hasfeas = rep, cls, hasfeas
        self.commits = 0
        self.report = False

    def init(self, flow):
        return K(False, False, False, False, False, False, False)

    def settled(self, key):
        return key.traj == key.cost and (not self.hasfeas or key.traj == key.feas)

    def bad(self, what, ev, msg):
        if self.report:
            self.rep.bad("%s: %s" % (self.cls, what), "%s: %s" % (ev.where, msg))

    def ok(self, kind, s=None):
        if self.report:
            self.rep.ob(kind, True, s)

    def step(self, key, ev, st, flow):
        onthis = ev.k == "C" and ev.obj == ("this",)
        if onthis and ev.name == "computeDirection":
            self.check_settled(key, ev, "the next direction")
            if key.dirty:
                if ev.args[0] == lit(True):
                    self.ok("directions after a commit", "%s: recomputes derivatives at %s" % (self.cls, ev.where))
                else:
                    self.bad("stale derivatives", ev, "the direction after an accepted step is computed with derivatives of the previous trajectory")
            return K(False, False, False, False, False, False, True)
        if onthis and ev.name == "tryStep":
            if key.traj or key.cost:
                self.bad("searches on after a commit", ev, "another trial step is taken after the candidate was accepted")
            v = ev.args[0]
            if v != cur(flow, st, "steplength_"):
                self.bad("trial step length", ev, "the trial step does not use the current steplength_ (%s)" % pretty(v))
            return key._replace(tried=True, why=False)
        if ev.k == "CATCH":
            return key._replace(tried=False, why=False)
        if ev.k == "W" and ev.op != "init" and fld(ev.loc) == "steplength_":
            return key._replace(tried=False, why=False)
        if onthis and ev.name == "setCandidate":
            a = ev.args
            if a[0][0] == "p" and a[1][0] == "p" and not key.inloop:
                self.ok("initial candidates")
                return key
            if fld(a[0]) == "xs_try_" and fld(a[1]) == "us_try_":
                if self.report:
                    self.commits += 1
                if not key.tried:
                    self.bad("commits an untried candidate", ev, "the candidate is committed although no trial step completed for this step length")
                elif not key.why:
                    self.bad("commits without an acceptance test", ev, "the candidate is committed on a path that passed no acceptance comparison")
                else:
                    self.ok("commits", "%s: candidate accepted at %s" % (self.cls, ev.where))
                return key._replace(traj=True, dirty=True)
            self.bad("commits something else", ev, "setCandidate is called with (%s, %s)" % (pretty(a[0]), pretty(a[1])))
            return key._replace(traj=True, dirty=True)
        if ev.k == "W":
            f = fld(ev.loc)
            if f == "cost_" and key.inloop:
                if ev.val == cur(flow, st, "cost_try_") and ev.op == "=" and key.tried:
                    return key._replace(cost=True)
                self.bad("writes cost_", ev, "cost_ is set to %s, not to the accepted candidate's cost" % pretty(ev.val))
            if f == "hfeas_" and key.inloop and self.hasfeas:
                if ev.val == cur(flow, st, "hfeas_try_") and key.tried:
                    return key._replace(feas=True)
                self.bad("writes hfeas_", ev, "hfeas_ is set to %s, not to the candidate's" % pretty(ev.val))
            for n in ("xs_", "us_", "is_feasible_"):
                if writes(ev, n) and (key.inloop or n != "is_feasible_"):
                    self.bad("writes %s" % n, ev, "%s is changed outside a commit" % n)
        if onthis and ev.name == "stoppingCriteria":
            self.check_settled(key, ev, "the stopping test")
        if ev.k == "C" and ev.name == "operator()" and ev.obj and "callbacks_" in pretty(ev.obj):
            self.check_settled(key, ev, "the callbacks")
        if ev.k == "RET" and key.inloop:
            self.check_settled(key, ev, "returning")
        return key

    def check_settled(self, key, ev, what):
        if self.settled(key):
            self.ok("settled points")
        else:
            miss = [n for n, b in (("the trajectory", key.traj), ("the cost", key.cost),
                                   ("the constraint feasibility", key.feas or not self.hasfeas)) if not b]
            self.bad("partial commit", ev, "before %s only part of the candidate was committed (%s is not)" % (what, " and ".join(miss)))

    def raised(self, key, evs, st, flow):
        for ev in evs:
            if ev.k == "C" and ev.name == "computeDirection" and ev.args[0] == lit(True):
                return key._replace(dirty=False)      # the recomputation was attempted
            if ev.k == "C" and ev.name == "tryStep":
                return key._replace(tried=False, why=False)
        return key

    def edge(self, key, term, truth, st, flow, node):
        if not key.tried or key.why:
            return key
        if self.reason(term if truth else neg(term), st, flow, 0):
            return key._replace(why=True)
        return key

    def reason(self, t, st, flow, d):
        """Does the truth of t imply that an acceptance comparison succeeded?"""
        if d > 6:
            return False
        if t[0] == "or":
            return self.reason(t[1], st, flow, d + 1) and self.reason(t[2], st, flow, d + 1)
        if t[0] == "and":
            return self.reason(t[1], st, flow, d + 1) or self.reason(t[2], st, flow, d + 1)
        if t[0] == "not" and t[1][0] in ("and", "or"):
            x, y = neg(t[1][1]), neg(t[1][2])
            return self.reason(("or" if t[1][0] == "and" else "and", x, y), st, flow, d + 1)
        if t[0] in ("phi", "unk", "ite"):
            ls = flow.leaves(t) - {lit(False)}
            return bool(ls) and t not in ls and all(self.reason(x, st, flow, d + 1) for x in ls)
        if t == neg(cur(flow, st, "is_feasible_")):
            return True
        if t[0] == "cmp" and t[1] in ("<", "<="):
            lo, hi = t[2], t[3]
            gain = lambda x: x[0] == "res" and x[2] == "tryStep"
            if fld(hi) == "th_grad_" and mentions(lo, lambda x: x[0] in ("fld", "idx", "unk", "res") and "d_" in pretty(x)):
                return True
            if mentions(hi, gain) and mentions(lo, lambda x: x[0] == "fld" and x[2].startswith("th_accept")):
                return True
        return False

    def visit(self, node, st, evs, flow):
        self.report = True
        key = st.key
        for ev in evs:
            key = self.step(key, ev, st, flow)
        self.report = False


def check(rep):
    p, mr = model.load()
    feasibility_claims(rep, p, mr)
    n = 0
    for c in solver_classes(p):
        fs = p.fields_of(c)
        if "ipopt_status_" in fs:
            continue
        n += 1
        ts = p.lookup(c, "tryStep")[0]
        hasfeas = any(f == "hfeas_try_" for cl, f in mr.fields[ts.id]) and ts.cls == "SolverIntro"
        cl = Cl(rep, c, hasfeas)
        fl = flow_of(p, mr, c, "solve", cl)
        fl.report()
        rep.need("commits in " + c, cl.commits, 1)
        for name in ("tryStep", "expectedImprovement"):
            f = p.lookup(c, name)[0]
            hit = closure_fields(p, mr, c, f)
            for fld_ in CUR + ("fs_", "problem_"):
                w = hit.get(fld_)
                rep.ob("trial-step effects", not w, "%s never writes %s" % (f.label, fld_))
                if w:
                    rep.bad("%s: %s writes %s" % (c, name, fld_),
                            "%s: a trial step changes the current %s" % (w, fld_), ["reached from %s" % f.label])
    rep.need("line-search solvers", n, 5)


def closure_fields(p, mr, cls, f):
    """Fields of the solver written by f or what it calls on the same object: {field: where}."""
    out, seen, st = {}, set(), [f.id]
    bases = set(p.linear_bases(cls))
    while st:
        x = st.pop()
        if x in seen or x not in p.fns:
            continue
        seen.add(x)
        g = p.fns[x]
        if g.rec.get("ctor"):
            continue
        for line, r, op, e in mr.sites[x]:
            if r[0] == "fld" and r[1] in bases:
                out.setdefault(r[2], "%s:%s" % (g.file, line))
        for n in mr.calls[x][0]:
            for t in mr.targets(n):
                tf = p.fns.get(t)
                if tf is not None and tf.cls in bases:
                    t = p.final(cls, t) if n.get("v") else t
                    st.append(t)
    return out
