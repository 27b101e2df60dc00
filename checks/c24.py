"""C24: out-of-domain parameters are rejected."""
from sa import model
from sa.cfg import Policy
from sa.flow import THIS, Client, Flow, bare, fld, is_num, lit, mentions, p_add, pretty, subterms, to_poly
from sa.frontend import AnalysisBroken
from sa.horizon import Lengths, Sweep

RULE = ("For every numerical parameter with a documented domain, each normal exit of its setter (or of the constructor that rejects it) is "
        "reached only with values inside the domain, and each exception only with values outside: the real line is cut at every constant the "
        "function or the domain mentions, and every path is followed with the set of regions that satisfy its branch conditions. Step-length lists "
        "are non-empty, positive from the first element on, and strictly decreasing.")
TECHNIQUE = "interval-region dataflow over the branch conditions of each parameter setter"
NOTE = "Decides all ordered values; NaN compares false with everything and is not covered."

INF = float("inf")
POS, NONNEG, UNIT, ABOVE1, HALF, CLOSED = (">0", 0, False, INF, True), (">=0", 0, True, INF, True), ("in (0,1]", 0, False, 1, True), \
    (">1", 1, False, INF, True), ("in (0,0.5)", 0, False, 0.5, False), ("in [0,1]", 0, True, 1, True)
# (class, function, parameter position): documented domain
SETTERS = {
    ("SolverAbstract", "set_preg"): NONNEG, ("SolverAbstract", "set_dreg"): NONNEG, ("SolverAbstract", "set_xreg"): NONNEG,
    ("SolverAbstract", "set_ureg"): NONNEG, ("SolverAbstract", "set_th_acceptstep"): UNIT, ("SolverAbstract", "set_th_stop"): POS,
    ("SolverAbstract", "set_th_gaptol"): NONNEG, ("BoxQP", "set_th_acceptstep"): HALF, ("BoxQP", "set_th_grad"): NONNEG,
    ("BoxQP", "set_reg"): NONNEG, ("SolverDDP", "set_reg_incfactor"): ABOVE1, ("SolverDDP", "set_reg_decfactor"): ABOVE1,
    ("SolverDDP", "set_regfactor"): ABOVE1, ("SolverDDP", "set_reg_min"): NONNEG, ("SolverDDP", "set_regmin"): NONNEG,
    ("SolverDDP", "set_reg_max"): NONNEG, ("SolverDDP", "set_regmax"): NONNEG, ("SolverDDP", "set_th_stepdec"): UNIT,
    ("SolverDDP", "set_th_stepinc"): UNIT, ("SolverDDP", "set_th_grad"): NONNEG, ("SolverFDDP", "set_th_acceptnegstep"): NONNEG,
    ("SolverIntro", "set_rho"): UNIT, ("SolverIpopt", "set_th_stop"): POS, ("CallbackVerbose", "set_precision"): NONNEG,
    ("ActionModelUnicycle", "set_dt"): POS, ("IntegratedActionModelAbstract", "set_dt"): NONNEG,
    ("SquashingModelSmoothSat", "set_smooth"): NONNEG, ("ActivationModel2NormBarrier", "set_alpha"): NONNEG,
    ("ActivationModelQuadFlatExp", "set_alpha"): NONNEG, ("ActivationModelQuadFlatLog", "set_alpha"): NONNEG,
}
for c in ("Action", "DifferentialAction", "Activation", "Actuation", "Constraint", "ControlParametrization", "Cost", "Residual"):
    SETTERS[(c + "ModelNumDiff", "set_disturbance")] = NONNEG
SETTERS[("StateNumDiff", "set_disturbance")] = NONNEG
# constructors that document and reject a parameter: (class, floating parameter number)
CTORS = {("ActivationModel2NormBarrier", 0): NONNEG, ("ActivationModelQuadFlatExp", 0): NONNEG, ("ActivationModelQuadFlatLog", 0): NONNEG,
         ("ActivationModelSmooth1Norm", 0): NONNEG, ("ActivationModelSmooth2Norm", 0): NONNEG, ("ActivationBounds", 0): CLOSED}
ROLLOUTS = {("SolverDDP", "forwardPass"), ("SolverFDDP", "forwardPass"), ("SolverBoxDDP", "forwardPass"), ("SolverBoxFDDP", "forwardPass")}
ALPHAS = [("SolverDDP", "set_alphas"), ("BoxQP", "set_alphas")]


def inside(d, v):
    n, lo, cl, hi, ch = d
    return (v > lo or cl and v == lo) and (v < hi or ch and v == hi)


def value(t, P, v):
    """Value of a term when the parameter is v; None when unknown."""
    if t == P:
        return v
    if t[0] == "lit":
        return t[1] if isinstance(t[1], (int, float, bool)) else None
    if t[0] == "poly":
        r = 0
        for m, c in t[1]:
            x = c
            for y in m:
                z = value(y, P, v)
                if z is None:
                    return None
                x *= z
            r += x
        return r
    if t[0] == "cmp":
        a, b = value(t[2], P, v), value(t[3], P, v)
        if a is None or b is None:
            return None
        return {"==": a == b, "!=": a != b, "<": a < b, "<=": a <= b}[t[1]]
    if t[0] in ("and", "or"):
        a, b = value(t[1], P, v), value(t[2], P, v)
        dom = t[0] == "or"
        if a is dom or b is dom:
            return dom
        return None if a is None or b is None else (not dom)
    if t[0] == "not":
        a = value(t[1], P, v)
        return None if a is None else not a
    if t[0] == "call" and t[1] in ("abs", "fabs") and len(t[3]) == 1:
        a = value(t[3][0], P, v)
        return None if a is None else abs(a)
    if t[0] == "ite":
        c = value(t[1], P, v)
        return None if c is None else value(t[2] if c else t[3], P, v)
    return None


def regions(consts, integral):
    cs = sorted({float(c) for c in consts if abs(c) < 1e300})
    if integral:
        return sorted({int(c) + k for c in cs for k in (-1, 0, 1)} | {-7, 9})
    pts = [cs[0] - 1.0] + cs + [cs[-1] + 1.0]
    out = []
    for a, b in zip(pts, pts[1:]):
        out += [a, (a + b) / 2]
    return sorted(set(out + [pts[-1]]))


class Regions(Client):
    split_bools = False
    maxkeys = 64

    def __init__(self, rep, P, dom, pts, what, key, subst):
        self.rep, self.P, self.dom, self.pts, self.what, self.key0, self.subst = rep, P, dom, pts, what, key, subst
        self.exits = self.throws = 0

    def init(self, flow):
        return frozenset(self.pts)

    def edge(self, key, term, truth, st, flow, node):
        t = self.subst(term, st)
        return frozenset(v for v in key if value(t, self.P, v) in (None, truth))

    def leave(self, kind, node, st, flow):
        if kind != "exit":
            return
        out = sorted(v for v in st.key if not inside(self.dom, v))
        self.exits += 1
        self.rep.ob("accepted values", not out, "%s accepts only %s" % (self.what, self.dom[0]))
        if out:
            self.rep.bad(self.key0 + ": accepts values outside the domain",
                         "%s returns normally for %s although the parameter has to be %s" % (self.what, out[0], self.dom[0]))

    def visit(self, node, st, evs, flow):
        for e in evs:
            if e.k == "THROW":
                good = sorted(v for v in st.key if inside(self.dom, v))
                self.throws += 1
                self.rep.ob("rejected values", not good, "%s at %s" % (self.what, e.where))
                if good:
                    self.rep.bad(self.key0 + ": rejects values inside the domain",
                                 "%s: %s rejects %s although the parameter only has to be %s" % (e.where, self.what, good[0], self.dom[0]))


def literals(flow):
    out = set()
    for n in flow.g.nodes if isinstance(flow.g.nodes, list) else flow.g.nodes.values():
        if n.kind == "branch":
            for st in flow.states(n):
                for x in subterms(flow.cond_of(n, st)):
                    if x[0] == "lit" and isinstance(x[1], (int, float)) and not isinstance(x[1], bool):
                        out.add(x[1])
                    if x[0] == "poly":
                        out |= {c for m, c in x[1]}
    return out


def scalar(t):
    return bare(t) in ("double", "float", "int")


def one(rep, p, mr, f, P, dom, subst, what, key, kind=None):
    pol = Policy(keep=set())
    pre = Flow(p, mr, f, f.cls, pol, None, None)
    cs = literals(pre) | {dom[1]} | ({dom[3]} if dom[3] != INF else set())
    r = (kind or Regions)(rep, P, dom, regions(cs, bare(f.params[P[1]]["t"]) == "int"), what, key, subst)
    Flow(p, mr, f, f.cls, pol, r, None).report()
    return r


class Alphas(Client):
    split_bools = False
    maxkeys = 64

    def __init__(self, rep, fn):
        self.rep, self.fn = rep, fn
        self.P = ("p", 0, fn.params[0]["n"])
        self.body = {}

    def init(self, flow):
        return frozenset()

    def elem(self, t, flow):
        """Index term when t is an element of the list (its previous value in a loop counts)."""
        if t[0] == "idx" and t[1] == self.P:
            return self.sw.norm(t[2])
        if t[0] == "phi" and t[1] in self.sw.loops:
            l = self.sw.loops[t[1]]
            if l.phi is None or l.dir != 1:
                return None
            init, step = flow_pre(self).loop_values(t[1], t[2])
            if len(init) == 1 and len(step) == 1:
                i, s = init.pop(), step.pop()
                if i is not None and s is not None and i[0] == s[0] == "idx" and i[1] == s[1] == self.P:
                    k = p_add(s[2], l.phi, -1)           # last iteration's element
                    if is_num(k) and p_add(p_add(l.lo, k), i[2], -1) == lit(1):
                        return p_add(p_add(l.phi, k), lit(-1))
        return None

    def edge(self, key, term, truth, st, flow, node):
        for l in self.sw.loops.values():
            if l.test is not None and l.test.id == node.id:
                lab = ("T",) if truth else ("F",)
                if any(lb == lab and s.id in self.sw.flow.loops[l.head] for s, lb in node.succ):
                    key = key | {("B", l.head)}
                elif ("B", l.head) not in key:
                    key = key | {("Z", l.head)}
        from sa.flow import conj, neg
        for t in conj(term if truth else neg(term)):
            new = self.fact(t, flow)
            if new:
                key = key | {new}
                for y in subterms(new):
                    if y[0] == "phi" and y in self.sw.byphi:
                        self.body.setdefault(self.sw.byphi[y].head, set()).add(new)
        return key

    def fact(self, t, flow):
        if t[0] != "cmp":
            return None
        op, a, b = t[1:]
        n = ("call", "size", self.P, ())
        if n in (a, b) and lit(0) in (a, b):
            return ("nonempty",) if op == "!=" or op == "<" and a == lit(0) else ("empty",) if op == "==" or op == "<=" and b == lit(0) else None
        ia, ib = self.elem(a, flow), self.elem(b, flow)
        if ib is not None and a == lit(0):
            return ("pos", ib) if op == "<" else None
        if ia is not None and b == lit(0):
            return ("nonpos", ia) if op == "<=" else None
        if ia is not None and ib is not None:
            d = p_add(ia, ib, -1)
            if op == "<" and d == lit(1):
                return ("dec", ia)
            if op == "<=" and d == lit(-1):
                return ("nondec", ib)
        return None

    def cover(self, idx, first):
        pts, rng = set(), []
        need = lit(first)
        n = ("call", "size", self.P, ())
        for i in idx:
            s, off = self.sw.split(i)
            if s is None and is_num(i):
                pts.add(i)
            elif s and s in self.sw.byphi:
                l = self.sw.byphi[s]
                if not l.early:
                    rng.append((p_add(l.lo, off), p_add(p_add(l.hi, off), lit(1))))
        for _ in range(6):
            if need == n:
                return True
            if need in pts:
                need = p_add(need, lit(1))
                continue
            for lo, hi in rng:
                d = p_add(need, lo, -1)
                if is_num(d) and d[1] >= 0 and hi != need:
                    need = hi
                    break
            else:
                return False
        return need == n

    def leave(self, kind, node, st, flow):
        if kind != "exit":
            return
        key = set(st.key)
        for x in st.key:
            if x[0] == "Z":
                key |= self.body.get(x[1], set())
        w = "%s::%s" % (self.fn.cls, self.fn.sname)
        for ok, what in ((("nonempty",) in key, "an empty list"),
                         (self.cover([x[1] for x in key if x[0] == "pos"], 0), "an element that is not positive"),
                         (self.cover([x[1] for x in key if x[0] == "dec"], 1), "an increasing list")):
            self.rep.ob("step-length lists", ok, "%s rejects %s" % (w, what))
            if not ok:
                self.rep.bad("%s: accepts %s" % (w, what), "%s accepts %s" % (self.fn.label, what))

    def visit(self, node, st, evs, flow):
        for e in evs:
            if e.k == "THROW":
                ok = any(x[0] in ("empty", "nonpos", "nondec") for x in st.key)
                self.rep.ob("step-length lists", ok, "rejection at %s" % e.where)
                if not ok:
                    self.rep.bad("%s::%s: rejects a valid list" % (self.fn.cls, self.fn.sname),
                                 "%s: a list can be rejected that is not empty, positive and strictly decreasing" % e.where)


def flow_pre(a):
    return a.sw.flow


def check(rep):
    p, mr = model.load()
    n = 0
    listed = set()
    for (c, name), dom in sorted(SETTERS.items()):
        fs = [f for f in p.fns.values() if f.cls == c and f.sname == name and f.body is not None and len(f.params) == 1]
        if not fs:
            raise AnalysisBroken("%s::%s has vanished" % (c, name))
        for f in fs:
            listed.add(f.label)
            r = one(rep, p, mr, f, ("p", 0, f.params[0]["n"]), dom, lambda t, st: t, "%s::%s" % (c, name), "%s::%s" % (c, name))
            n += 1
    # overrides of a listed setter share its domain
    for (c, name), dom in sorted(SETTERS.items()):
        for d in p.subclasses(c):
            if d == c or (d, name) in SETTERS:
                continue
            for f in p.fns.values():
                if f.cls == d and f.sname == name and f.body is not None and len(f.params) == 1:
                    one(rep, p, mr, f, ("p", 0, f.params[0]["n"]), dom, lambda t, st: t, "%s::%s" % (d, name), "%s::%s" % (d, name))
                    listed.add(f.label)
                    n += 1
    for (c, k), dom in sorted(CTORS.items()):
        fs = [f for f in p.fns.values() if f.cls == c and f.rec.get("ctor") and f.body is not None]
        m = 0
        for f in fs:
            ps = [i for i, q in enumerate(f.params) if scalar(q["t"])]
            if len(ps) <= k:
                continue
            P = ("p", ps[k], f.params[ps[k]]["n"])

            def subst(t, st, P=P):
                # a field initialised from the parameter and not changed since reads as the parameter already
                return t
            one(rep, p, mr, f, P, dom, subst, "%s(%s)" % (c, P[2]), "%s(%s)" % (c, P[2]), Rollout)
            m += 1
        if not m:
            raise AnalysisBroken("no constructor of %s takes its documented parameter" % c)
        n += m
    rep.need("parameter setters and constructors", n, 45)
    for c, name in ALPHAS:
        fs = [f for f in p.fns.values() if f.cls == c and f.sname == name and f.body is not None]
        if not fs:
            raise AnalysisBroken("%s::%s has vanished" % (c, name))
        for f in fs:
            pol = Policy(keep=set())
            pre = Flow(p, mr, f, f.cls, pol, None, None)
            a = Alphas(rep, f)
            a.sw = Sweep(pre, None)
            Flow(p, mr, f, f.cls, pol, a, None, pre).report()
    rest = sorted({"%s::%s" % (f.cls, f.sname) for f in p.fns.values() if f.cls and f.body is not None and f.sname.startswith("set_") and
                   len(f.params) == 1 and bare(f.params[0]["t"]) in ("double", "int") and f.label not in listed})
    rep.cover["scalar setters without a documented domain"] = rest
    # step lengths given to a rollout
    m = 0
    for c, name in sorted(ROLLOUTS):
        for f in p.fns.values():
            if f.cls == c and f.sname == name and f.body is not None:
                from sa.solvers import STEPS
                pol = Policy(keep=STEPS)
                P = ("p", 0, f.params[0]["n"])
                pre = Flow(p, mr, f, f.cls, pol, None, None)
                r = Rollout(rep, P, CLOSED, regions(literals(pre) | {0, 1}, False), "%s::%s" % (c, name), "%s::%s" % (c, name), lambda t, st: t)
                r.strict = False         # a full step is rolled out on a path of its own
                Flow(p, mr, f, f.cls, pol, r, None).report()
                m += 1
    rep.need("rollouts", m, 4)


class Rollout(Regions):
    """Exceptions that depend on other things than the parameter do not count."""
    strict = True

    def visit(self, node, st, evs, flow):
        for e in evs:
            if e.k == "THROW" and len(st.key) < len(self.pts):
                good = sorted(v for v in st.key if inside(self.dom, v))
                bad = sorted(v for v in st.key if not inside(self.dom, v))
                if bad or self.strict and len(good) < len([v for v in self.pts if inside(self.dom, v)]):
                    self.rep.ob("rejected values", not good, "%s at %s" % (self.what, e.where))
                    if good:
                        self.rep.bad(self.key0 + ": rejects values inside the domain",
                                     "%s: %s rejects %s although the parameter only has to be %s" % (e.where, self.what, good[0], self.dom[0]))
