"""C26: every completed iteration notifies all callbacks exactly once."""
from sa import model
from sa.flow import THIS, Client, cmp_term, fld, lit, neg, p_add, pretty
from sa.loops import Loop
from sa.solvers import cur, flow_of, loc, solver_classes, writes

RULE = ("Typestate over every solver's iteration loop, helpers inlined: between a direction that was computed and the next "
        "iteration or a successful return, a loop that covers every registered callback (full index range, step one, no early "
        "exit, one call per element with the solver as argument) is passed exactly once, or there is no callback; the loop is "
        "passed after the stopping measure of this iteration.")
TECHNIQUE = "typestate dataflow over the inlined graph of solve() with counted-loop range analysis"
NOTE = ("An iteration aborted because the regularization saturated or an exception escaped is not a completed iteration. "
        "The interior-point solver delegates its iterations to the optimizer and is not covered.")


def is_cb(ev):
    return ev.k == "C" and ev.name == "operator()" and ev.obj is not None and ev.obj[0] == "idx" and fld(ev.obj[1]) == "callbacks_"


class Find(Client):
    def __init__(self):
        self.sites = {}

    def visit(self, node, st, evs, flow):
        for ev in evs:
            if is_cb(ev):
                self.sites.setdefault(node.id, set()).add((ev.obj, ev.args, ev.where))


class Cl(Client):
    def __init__(self, rep, cls, tests, inside):
        self.rep, self.cls, self.tests, self.inside = rep, cls, tests, inside
        self.report = False
        self.n = 0

    def init(self, flow):
        return "idle"

    def bad(self, what, ev, msg):
        if self.report:
            self.rep.bad("%s: %s" % (self.cls, what), "%s: %s" % (ev.where, msg))

    def step(self, key, ev, st, flow):
        if ev.k == "C" and ev.obj == THIS:
            if ev.name == "computeDirection":
                return "busy"
            if ev.name == "stoppingCriteria":
                if key == "done" and self.report:
                    self.bad("notifies before the stopping measure", ev, "the callbacks run before this iteration's stopping measure is computed")
                return key
        if ev.k == "RET":
            v = ev.val
            if v is not None and v != lit(False) and key != "idle":
                self.need(key, ev, "a successful return")
        if ev.k == "W" and fld(ev.loc) == "iter_" and ev.val != lit(0) and ev.op != "init":
            self.need(key, ev, "the next iteration")
            return "idle"
        if is_cb(ev) and key == "done":
            self.bad("notifies twice", ev, "the callbacks are called a second time in one iteration")
        return key

    def raised(self, key, evs, st, flow):
        return key

    def need(self, key, ev, what):
        if not self.report:
            return
        self.n += 1
        self.rep.ob("iterations notified", key == "done", "%s: callbacks done before %s at %s" % (self.cls, what, ev.where))
        if key != "done":
            self.bad("iteration not notified", ev, "%s is reached on a path that notified no callback" % what)

    def edge(self, key, term, truth, st, flow, node):
        if node.id in self.tests:
            lp = self.tests[node.id]
            lab = [l for s, l in node.succ if s.id in lp.body]
            cont = bool(lab) and (lab[0][0] == "T") == truth
            if not cont:
                if key == "done" and self.report:
                    pass
                return "done"
            return key
        if key == "busy":
            t = term if truth else neg(term)
            n = ("call", "size", loc(flow, "callbacks_"), ())
            if t == cmp_term("==", n, lit(0)) or t == ("call", "empty", loc(flow, "callbacks_"), ()) or t == cmp_term("<=", n, lit(0)):
                return "done"
        return key

    def visit(self, node, st, evs, flow):
        self.report = True
        key = st.key
        for ev in evs:
            key = self.step(key, ev, st, flow)
        self.report = False


def check(rep):
    p, mr = model.load()
    n = 0
    for c in solver_classes(p):
        if "ipopt_status_" in p.fields_of(c):
            continue
        n += 1
        fd = Find()
        fl = flow_of(p, mr, c, "solve", fd)
        fl.report()
        tests = {}
        lps = {h: Loop(fl, h) for h in fl.loops}
        for nid, sites in fd.sites.items():
            inner = [l for l in lps.values() if nid in l.body]
            inner.sort(key=lambda l: len(l.body))
            obj, args, where = sorted(sites, key=repr)[0]
            size = ("call", "size", obj[1], ())
            l = inner[0] if inner else None
            why = None
            if l is None or l.phi is None:
                why = "is not in a counted loop (%s)" % (l.why if l else "no loop")
            elif l.early:
                why = "is in a loop that can stop early (%s)" % l.early[0][0].where
            elif l.lo != lit(0) or l.hi != p_add(size, lit(-1)):
                why = "covers %s..%s" % (pretty(l.lo), pretty(l.hi))
            elif any(o[2] != l.phi and o[2] != ("iter", obj[1], l.phi) for o, a, w in sites):
                why = "calls element %s" % pretty(obj[2])
            elif any(a != (THIS,) for o, a, w in sites):
                why = "is not given the solver"
            elif not every_iteration(fl, l, nid):
                why = "is skipped on some path of the loop"
            rep.ob("callback loops", why is None, "%s: %s covers every registered callback" % (c, where))
            if why:
                rep.bad("%s: incomplete notification" % c, "%s: the callback call %s" % (where, why))
            if l is not None and l.test is not None:
                tests[l.test.id] = l
        # the same graph with the typestate
        cl = Cl(rep, c, tests, set())
        fl2 = flow_of(p, mr, c, "solve", cl)
        fl2.report()
        rep.need("callback calls in " + c, len(fd.sites), 1)
        rep.need("notified exits of " + c, cl.n, 2)
        # two loops in sequence would notify twice: the loops' bodies are entered only when busy
    rep.need("iterating solvers", n, 5)


def every_iteration(fl, l, nid):
    """Every cycle of the loop passes node nid."""
    g = fl.g
    start = [s for s, lab in l.test.succ if s.id in l.body]
    seen, st = set(), list(start)
    while st:
        x = st.pop()
        if x.id in seen or x.id == nid or x.id not in l.body:
            continue
        if x.id == l.head:
            return False
        seen.add(x.id)
        st.extend(s for s, _ in x.succ)
    return True
