"""C12: diverged numbers raise before they are used."""
from sa import model
from sa.cfg import Policy
from sa.flow import THIS, Client, Flow, cmp_term, fld, lit, mentions, neg, pretty, root_c
from sa.modref import sname
from sa.paths import paths
from sa.prog import walk
from sa.solvers import STEPS, cur, flow_of, loc, method, solver_classes

RULE = ("Typestate over every trial step, backward pass and factorization: the accumulated cost and the state predicted by a "
        "node are tested by raiseIfNaN (whole-vector norm) with a throw before the next node is evaluated or the step "
        "returns; the value function of every node (gradient and Hessian of the node just computed) is tested before the next "
        "node; a factorization that reports failure is queried and found successful before it is used or the function "
        "returns; an unchecked linear solve of the direction is tested. raiseIfNaN itself is enumerated path by path.")
TECHNIQUE = "typestate dataflow with branch facts over the inlined graphs of the trial step, backward pass and factorizing functions"
NOTE = "Decides that every diverging value passes a test and a throw on all paths; the exploded-value threshold is the code's own."

NORMS = {"lpNorm", "norm", "squaredNorm", "stableNorm", "blueNorm"}
SUCCESS = lit(0)


def tested(term):
    """raiseIfNaN(x) in a term: the thing x measures."""
    if term[0] == "call" and term[1] == "raiseIfNaN" and len(term[3]) == 1:
        a = term[3][0]
        return a[2] if a[0] == "call" and a[1] in NORMS and a[2] is not None else a
    return None


def clears(term, truth, out):
    """Everything found finite when term has this truth value."""
    if term[0] == "not":
        return clears(term[1], not truth, out)
    if term[0] == "or" and not truth or term[0] == "and" and truth:
        clears(term[1], truth, out)
        clears(term[2], truth, out)
        return out
    if not truth:
        t = tested(term)
        if t is not None:
            out.append(t)
    return out


class Base(Client):
    def __init__(self, rep, cls, what):
        self.rep, self.cls, self.what = rep, cls, what
        self.report = False
        self.n = 0

    def init(self, flow):
        return frozenset()

    def visit(self, node, st, evs, flow):
        self.report = True
        key = st.key
        for ev in evs:
            key = self.step(key, ev, st, flow)
        self.report = False

    def bad(self, what, where, msg):
        if self.report:
            self.rep.bad("%s: %s" % (self.cls, what), "%s: %s" % (where, msg))

    def edge(self, key, term, truth, st, flow, node):
        cl = clears(term, truth, [])
        if cl:
            key = frozenset(k for k in key if not any(self.covers(c, k, st, flow) for c in cl))
        return key

    def covers(self, c, k, st, flow):
        return c == k[1]


class Roll(Base):
    """key: set of (kind, what, where) that still have to be tested."""

    def covers(self, c, k, st, flow):
        if k[0] == "cost":
            return c == cur(flow, st, "cost_try_")
        return c in k[1]

    def pending(self, key, ev, before):
        if not self.report:
            return
        self.n += 1
        self.rep.ob("rollout values tested", not key, "%s: cost and state tested before %s" % (self.cls, before))
        for k in key:
            self.rep.bad("%s: untested %s" % (self.cls, k[0]),
                         "%s: the %s computed at %s is not tested by raiseIfNaN before %s" % (ev.where, k[0], k[2], before))

    def step(self, key, ev, st, flow):
        if ev.k == "C" and ev.name == "calc" and ev.obj is not None and len(ev.args) in (2, 3) and ev.obj != THIS:
            self.pending(key, ev, "the next evaluation at %s" % ev.where)
            return frozenset()
        if ev.k == "W":
            if fld(ev.loc) == "cost_try_" and ev.op != "init" and not (ev.op == "=" and ev.val[0] == "lit"):
                return frozenset(k for k in key if k[0] != "cost") | {("cost", "cost_try_", ev.where)}
            if ev.val is not None and fld(ev.val) == "xnext" and ev.op == "=":
                return key | {("state", (ev.loc, ev.val), ev.where)}
        if ev.k == "RET":
            self.pending(key, ev, "the step returns")
        return key


class Back(Base):
    def step(self, key, ev, st, flow):
        if ev.k == "C" and ev.obj == THIS and ev.name in ("computeActionValueFunction", "computeGains", "computeValueFunction"):
            if ev.name == "computeActionValueFunction":
                self.pending(key, ev, "the next node")
                key = frozenset()
        if ev.k == "C" and ev.obj == THIS and ev.name == "computeValueFunction":
            t = ev.args[0]
            if self.report:
                self.n += 1
            return key | {(n, ("idx", loc(flow, n), t), ev.where) for n in ("Vx_", "Vxx_")}
        if ev.k == "RET":
            self.pending(key, ev, "the backward pass returns")
        return key

    def pending(self, key, ev, before):
        if not self.report:
            return
        self.rep.ob("value function tested", not key, "%s: before %s at %s" % (self.cls, before, ev.where))
        for k in key:
            self.rep.bad("%s: untested %s" % (self.cls, k[0]),
                         "%s: %s of the node computed at %s is not tested by raiseIfNaN before %s" % (ev.where, k[0], k[2], before))


class Fact(Base):
    """Factorizations that report failure."""

    def __init__(self, rep, cls, fn, p, vars_):
        super().__init__(rep, cls, "")
        self.fn, self.p, self.vars = fn, p, vars_

    def reports(self, flow, l):
        r = root_c(l)
        ty = flow_fieldtype(self.p, r) if r[0] == "fld" else self.vars.get(r[2], "") if r[0] == "loc" else ""
        return "LLT<" in ty or "LDLT<" in ty

    def edge(self, key, term, truth, st, flow, node):
        t = term if truth else neg(term)
        return frozenset(k for k in key if not self.good(t, k[0]))

    def good(self, t, l):
        if t[0] == "and":
            return self.good(t[1], l) or self.good(t[2], l)
        if t[0] == "or":
            return self.good(t[1], l) and self.good(t[2], l)
        return t == cmp_term("==", ("call", "info", l, ()), SUCCESS)

    def step(self, key, ev, st, flow):
        if ev.k == "M" and ev.name in ("compute", "rankUpdate") and self.reports(flow, ev.obj):
            if self.report:
                self.n += 1
            return frozenset(k for k in key if k[0] != ev.obj) | {(ev.obj, ev.where)}
        use = None
        if ev.k in ("X", "M") and ev.name in ("solve", "solveInPlace", "matrixL", "matrixU", "matrixLLT", "reconstructedMatrix"):
            use = ev.obj
        if use is not None and any(k[0] == use for k in key):
            self.viol(key, ev, "is used", use)
        if ev.k == "RET":
            if self.report and not key:
                self.rep.ob("factorizations checked", True, "%s at %s" % (self.cls, ev.where))
            for k in key:
                self.viol(key, ev, "the function returns", k[0])
        return key

    def viol(self, key, ev, what, l):
        if self.report:
            self.rep.ob("factorizations checked", False)
            self.rep.bad("%s: unchecked factorization %s" % (self.fn.name, pretty(root_c(l))),
                         "%s: the factorization %s is not known to have succeeded when it %s" % (ev.where, pretty(l), what))


class Lin(Base):
    """Directions from linear solves that report nothing."""

    def step(self, key, ev, st, flow):
        if ev.k == "W" and ev.val is not None and fld(ev.loc) and mentions(ev.val, lambda x: x[0] == "call" and x[1] == "solve" and x[2] is not None):
            if self.report:
                self.n += 1
            return key | {("direction", ev.loc, ev.where)}
        if ev.k == "RET" and self.report:
            self.rep.ob("linear solves tested", not key, "%s returns at %s with a tested direction" % (self.cls, ev.where))
            for k in key:
                self.rep.bad("%s: untested direction" % self.cls,
                             "%s: the direction solved at %s is not tested by raiseIfNaN before it is used" % (ev.where, k[2]))
        return key


def flow_fieldtype(p, l):
    c = p.cls.get(l[3])
    for f in (c.fields if c else []):
        if f["n"] == l[2]:
            return f["t"]
    return ""


def check(rep):
    p, mr = model.load()
    spec(rep, p, mr)
    n = 0
    done = set()
    for c in solver_classes(p):
        if "cost_try_" not in p.fields_of(c) or "ipopt_status_" in p.fields_of(c):
            continue
        n += 1
        cl = Roll(rep, c, "")
        fl = flow_of(p, mr, c, "tryStep", cl, drop={"forwardPass"})
        fl.report()
        rep.need("rollout points of " + c, cl.n, 1)
        if p.lookup(c, "backwardPass"):
            cl = Back(rep, c, "")
            fl = flow_of(p, mr, c, "backwardPass", cl)
            fl.report()
            rep.need("value-function steps of " + c, cl.n, 1)
    rep.need("solvers with a trial step", n, 5)
    m = k = 0
    for f in p.fns.values():
        if not f.file.startswith(("src/", "include/")) or "codegen" in f.file:
            continue
        fact = lin = False
        for e in walk(f.body):
            if e.get("k") == "call" and not e.get("id"):
                nm = e.get("fn") or ""
                if sname(nm) == "compute" and ("LLT<" in (ot(e)) or "LDLT<" in ot(e)):
                    fact = True
                if sname(nm) == "solve" and "Eigen" in nm and f.cls and p.is_a(f.cls, "SolverAbstract"):
                    lin = True
        if fact:
            vars_ = {d["n"]: d["t"] for x in walk(f.body) if x.get("k") == "decl" for d in x["d"]}
            ids = {d["id"]: d["t"] for x in walk(f.body) if x.get("k") == "decl" for d in x["d"]}
            cl = Fact(rep, f.cls, f, p, ids)
            fl = Flow(p, mr, f, f.cls, Policy(keep=STEPS), cl)
            fl.report()
            m += cl.n
        if lin:
            cl = Lin(rep, f.cls, "")
            fl = Flow(p, mr, f, f.cls, Policy(keep=STEPS), cl)
            fl.report()
            k += cl.n
    rep.need("factorizations that report failure", m, 4)
    rep.need("unchecked linear solves of a direction", k, 1)


def ot(e):
    o = e.get("o")
    return (o.get("t") or "") if o else ""


def spec(rep, p, mr):
    fs = [f for f in p.fns.values() if f.sname == "raiseIfNaN" and len(f.params) == 1]
    rep.need("raiseIfNaN definitions", len(fs), 1)
    for f in fs:
        fl, pc = paths(p, mr, f, f.cls)
        v = ("p", 0, f.params[0]["n"])
        nan, inf = ("call", "isnan", None, (v,)), ("call", "isinf", None, (v,))
        fin = ("call", "isfinite", None, (v,))
        for node, st, ev in pc.rets:
            if ev.val is None:
                continue
            for facts in false_cases(ev.val, st.facts):
                big = any(x[0] == "cmp" and x[1] in ("<", "<=") and x[2] == v and x[3][0] == "lit" for x in facts)
                okn = neg(nan) in facts or fin in facts or cmp_term("==", v, v) in facts or big_cmp(facts, v)
                oki = neg(inf) in facts or fin in facts
                for ok, what in ((okn, "a NaN"), (oki, "an infinity"), (big, "an exploded value")):
                    rep.ob("raiseIfNaN", ok, "a false answer at %s excludes %s" % (ev.where, what))
                    if not ok:
                        rep.bad("raiseIfNaN lets %s pass" % what, "%s: raiseIfNaN can answer false for %s" % (ev.where, what))
        never = [ev for node, st, ev in pc.rets if ev.val != lit(True)]
        rep.ob("raiseIfNaN", bool(never))
        if not never:
            rep.bad("raiseIfNaN always raises", "%s: raiseIfNaN answers true for every value" % f.label)


def big_cmp(facts, v):
    return False


def false_cases(v, facts):
    """Fact sets under which the returned term is false."""
    if v == lit(True):
        return []
    if v == lit(False):
        return [facts]
    if v[0] == "or":
        return [g for f in false_cases(v[1], facts) for g in false_cases(v[2], f)]
    if v[0] == "and":
        return false_cases(v[1], facts) + false_cases(v[2], facts)
    if v[0] == "not" and v[1][0] in ("and", "or"):
        x, y = neg(v[1][1]), neg(v[1][2])
        return false_cases(("or" if v[1][0] == "and" else "and", x, y), facts)
    if v[0] == "ite":
        return false_cases(v[2], facts | {v[1]}) + false_cases(v[3], facts | {neg(v[1])})
    return [facts | {neg(v)}]
