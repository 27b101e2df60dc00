"""C09: success is returned only under the stopping and feasibility facts."""
from sa import model
from sa.flow import Client, fld, lit, mentions, pretty
from sa.solvers import feasibility_claims, cur, flow_of, loc, ret_cases, solver_classes

RULE = ("Path-sensitive dataflow with branch facts over every solver's solve(), helpers inlined: at each return that can "
        "yield true, the facts must prove stop_ < th_stop_ for the stop_ recomputed after the last direction, trial step and "
        "commit, and that the trajectory is marked feasible; the interior-point solver may only return success for the "
        "optimizer's own success status of this run.")
TECHNIQUE = "typestate + branch-fact dataflow over the inlined control-flow graph of solve()"
NOTE = ("Decides the exits of solve() for all inputs: which facts hold when success is returned. That stop_ itself measures "
        "optimality is numerical and not decided.")


class Cl(Client):
    def __init__(self, rep, cls):
        self.rep, self.cls = rep, cls
        self.exits = 0

    def init(self, flow):
        return "stale"

    def step(self, key, ev, st, flow):
        if ev.k == "C" and ev.obj == ("this",):
            if ev.name in ("computeDirection", "tryStep", "setCandidate"):
                return "stale"
            if ev.name == "stoppingCriteria":
                return "fresh"
        return key

    def visit(self, node, st, evs, flow):
        key = st.key
        for ev in evs:
            if ev.k == "RET":
                self.ret(ev, st, flow, key)
            key = self.step(key, ev, st, flow)

    def ret(self, ev, st, flow, key):
        rep = self.rep
        for facts in ret_cases(ev, st):
            self.exits += 1
            S, TH = cur(flow, st, "stop_"), cur(flow, st, "th_stop_")
            where = "%s (%s)" % (ev.where, flow.fn.label)
            below = any(f[0] == "cmp" and f[1] in ("<", "<=") and f[2] == S and f[3] == TH for f in facts)
            feas = any(cur(flow, st, n) == lit(True) or cur(flow, st, n) in facts
                       for n in ("was_feasible_", "is_feasible_"))
            ok = below and feas and key == "fresh"
            rep.ob("success exits", ok, "%s: %s proved under stop_ < th_stop_ and a feasible trajectory" % (self.cls, ev.where))
            if not below:
                rep.bad("%s returns success without stop_ < th_stop_" % self.cls,
                        "%s: success is returned on a path where stop_ < th_stop_ is not established" % where,
                        ["facts on this path: " + ", ".join(pretty(f) for f in sorted(facts, key=repr))[:600]])
            if not feas:
                rep.bad("%s returns success without feasibility" % self.cls,
                        "%s: success is returned on a path where the trajectory is not known to be feasible" % where,
                        ["facts on this path: " + ", ".join(pretty(f) for f in sorted(facts, key=repr))[:600]])
            if feas:
                for n in ("was_feasible_", "is_feasible_"):
                    v = cur(flow, st, n)
                    if (v == lit(True) or v in facts) and loc(flow, n) in flow.leaves(v):
                        rep.bad("%s trusts a feasibility flag of an earlier solve" % self.cls,
                                "%s: %s may still hold the value it had before this solve" % (where, n))
            if below and key != "fresh":
                rep.bad("%s uses a stale stopping measure" % self.cls,
                        "%s: stop_ was not recomputed after the last direction, step or commit" % where)


class Ip(Client):
    def __init__(self, rep, cls):
        self.rep, self.cls, self.exits = rep, cls, 0

    def visit(self, node, st, evs, flow):
        for ev in evs:
            if ev.k != "RET":
                continue
            for facts in ret_cases(ev, st):
                self.exits += 1
                S = cur(flow, st, "ipopt_status_")
                ok = S[0] == "res" and S[2] == "OptimizeTNLP" and any(
                    f[0] == "cmp" and f[1] == "==" and S in f[2:] and
                    (lit(0) in f[2:] or lit(1) in f[2:]) for f in facts)
                self.rep.ob("success exits", ok, "%s: status of this run" % ev.where)
                if not ok:
                    self.rep.bad("%s success not tied to the optimizer status" % self.cls,
                                 "%s: success is returned without the optimizer's success status of this run" % ev.where,
                                 ["facts: " + ", ".join(pretty(f) for f in facts)])


def stopping(rep, p, mr):
    """Every stoppingCriteria leaves its measure in stop_ on every path."""
    seen = set()
    for c in solver_classes(p):
        if "ipopt_status_" in p.fields_of(c):
            continue
        f = p.lookup(c, "stoppingCriteria")[0]
        if f.id in seen:
            continue
        seen.add(f.id)
        fl = flow_of(p, mr, c, "stoppingCriteria")
        for st in fl.states(fl.g.exit):
            ok = loc(fl, "stop_") not in fl.leaves(cur(fl, st, "stop_"))
            rep.ob("stopping measures", ok, "%s writes stop_ on every path" % f.label)
            if not ok:
                rep.bad("%s may leave stop_ unchanged" % c, "%s: a path leaves the stopping measure of an earlier iteration in stop_" % f.label)
    rep.need("stoppingCriteria bodies", len(seen), 3)


def check(rep):
    p, mr = model.load()
    stopping(rep, p, mr)
    feasibility_claims(rep, p, mr)
    n = 0
    for c in solver_classes(p):
        ip = "ipopt_status_" in p.fields_of(c)
        cl = Ip(rep, c) if ip else Cl(rep, c)
        fl = flow_of(p, mr, c, "solve", cl)
        fl.report()
        n += 1
        rep.need("success exits of " + c, cl.exits, 1)
    rep.need("solver classes", n, 6)
