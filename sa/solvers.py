"""Solver protocol: what the solve() loops call, shared by the solver checks."""
from .cfg import Policy
from .flow import THIS, Client, Flow, base_chain, conj, fld, lit, mentions, neg, pretty, root_c
from .frontend import AnalysisBroken

# the overridable steps of the solver protocol: never looked into from solve()
STEPS = {"computeDirection", "tryStep", "forwardPass", "calcDiff", "backwardPass", "stoppingCriteria",
         "setCandidate", "increaseRegularization", "decreaseRegularization", "expectedImprovement",
         "updateExpectedImprovement", "resizeData", "computeDynamicFeasibility",
         "computeInequalityFeasibility", "computeEqualityFeasibility", "raiseIfNaN",
         "computeActionValueFunction", "computeValueFunction", "computeGains", "allocateData", "solve"}


def solver_classes(p):
    return [c for c in p.subclasses("SolverAbstract", True)]


def method(p, cls, name):
    fs = p.lookup(cls, name)
    if not fs:
        raise AnalysisBroken("%s::%s has vanished" % (cls, name))
    return fs[0]


def flow_of(p, mr, cls, name, client=None, keep=(), drop=(), nparams=None):
    fs = p.lookup(cls, name, nparams)
    if not fs:
        raise AnalysisBroken("%s::%s has vanished" % (cls, name))
    k = (STEPS | set(keep)) - {name} - set(drop)
    return Flow(p, mr, fs[0], cls, Policy(keep=k), client)


def owner(p, cls, name):
    fs = p.fields_of(cls)
    if name not in fs:
        raise AnalysisBroken("%s has no field %s any more" % (cls, name))
    return fs[name][1]


def loc(flow, name, base=THIS):
    return ("fld", base, name, owner(flow.prog, flow.dyn, name))


def cur(flow, st, name):
    """The value a field of the analysed object has in a state."""
    l = loc(flow, name)
    if l in st.env:
        return st.env[l]
    k = (l[3], l[2])
    if k in st.killed:
        return ("unk", st.killed[k], l)
    return l


def holds(st, t):
    """Is the boolean term t known to be true?"""
    if t == lit(True):
        return True
    return t in st.facts


def ret_cases(ev, st):
    """Ways a boolean function can return true at this return: list of fact sets."""
    v = ev.val
    if v is None:
        return []
    if v == lit(False):
        return []
    if v == lit(True):
        return [st.facts]
    out = []

    def alt(t):
        if t[0] == "or":
            return alt(t[1]) + alt(t[2])
        if t[0] == "not" and t[1][0] == "and":
            return alt(neg(t[1][1])) + alt(neg(t[1][2]))
        if t[0] == "ite":
            return [("and", t[1], x) for x in alt(t[2])] + [("and", neg(t[1]), x) for x in alt(t[3])]
        return [t]
    for a in alt(v):
        f = set(st.facts)
        dead = False
        for c in flat(a):
            if c == lit(False):
                dead = True
            f.add(c)
        if not dead:
            out.append(frozenset(f))
    return out


def flat(t):
    if t[0] == "and":
        return flat(t[1]) + flat(t[2])
    if t[0] == "not" and t[1][0] == "or":
        return flat(neg(t[1][1])) + flat(neg(t[1][2]))
    return [t]


def same_field(l, name):
    return l[0] == "fld" and l[2] == name


def writes(ev, name):
    """Event stores into field `name` (whole or part)."""
    return ev.k == "W" and any(x[0] == "fld" and x[2] == name for x in base_chain(ev.loc)[:4] if x)


def or_terms(t):
    if t[0] == "or":
        return or_terms(t[1]) + or_terms(t[2])
    return [t]


def feasibility_claims(rep, p, mr):
    """The feasibility given to an accepted candidate agrees with how its rollout treats the gaps."""
    n = 0
    for c in solver_classes(p):
        if not p.lookup(c, "forwardPass"):
            continue          # no rollout: the candidate is marked by the optimizer / linear model
        claims = []           # (where, set of disjuncts)

        class S(Client):
            def visit(self, node, st, evs, flow):
                for ev in evs:
                    if ev.k == "C" and ev.name == "setCandidate" and len(ev.args) == 3 and \
                            fld(ev.args[0]) == "xs_try_":
                        ds = set()
                        alts = [ev.args[2]] if ev.args[2][0] == "or" else sorted(flow.leaves(ev.args[2]), key=str)
                        for t in [x for a in alts for x in or_terms(a)]:
                            ls = flow.leaves(t)
                            if t == lit(True):
                                ds.add("always")
                            elif t == lit(False):
                                pass
                            elif t[0] == "cmp" and t[1] == "==" and lit(1) in t[2:] and \
                                    cur(flow, st, "steplength_") in t[2:]:
                                ds.add("full step")
                            elif ls == flow.leaves(cur(flow, st, "is_feasible_")):
                                ds.add("feasible before")
                            else:
                                ds.add("unknown: " + pretty(t))
                        claims.append((ev.where, ds))
        fl = flow_of(p, mr, c, "solve", S())
        fl.report()
        f = p.lookup(c, "forwardPass")[0]

        class F(Client):
            def visit(self, node, st, evs, flow):
                for ev in evs:
                    if ev.k != "C" or ev.name != "integrate" or len(ev.args) != 3 or fld(root_c(ev.args[2])) != "xs_try_":
                        continue
                    for where, ds in claims:
                        for d in ds:
                            if d == "feasible before":
                                ok = neg(cur(flow, st, "is_feasible_")) in st.facts
                            elif d == "full step":
                                ok = any(x[0] == "cmp" and x[1] == "!=" and lit(1) in x[2:] and ("p", 0, flow.fn.params[0]["n"]) in x[2:]
                                         for x in st.facts)
                            else:
                                ok = False
                            rep.ob("feasibility claims", ok, "%s: gaps kept open at %s only when not '%s'" % (c, ev.where, d))
                            if not ok:
                                rep.bad("%s marks a candidate feasible (%s) whose rollout keeps gaps" % (c, d),
                                        "%s: the candidate is marked feasible (%s), but %s keeps a gap open at %s in that case"
                                        % (where, d, f.label, ev.where))
        f2 = flow_of(p, mr, c, "forwardPass", F())
        f2.report()
        for where, ds in claims:
            n += 1
            bad = [d for d in ds if d.startswith("unknown")]
            rep.ob("feasibility claims", not bad)
            for d in bad:
                rep.bad("%s marks a candidate feasible for another reason" % c,
                        "%s: the candidate's feasibility is %s, neither feasibility before the step nor a full step" % (where, d))
    rep.need("commits with a feasibility claim", n, 6)
