"""C20: profiling brackets are balanced."""
from sa import model
from sa.cfg import Policy
from sa.flow import Client, Flow
from sa.prog import walk
from sa.solvers import STEPS

RULE = ("In every function that starts or stops a profiled section: a section is started only while it is closed, stopped only while it "
        "is open, and closed when the function returns and when the function itself raises an exception that leaves it.")
TECHNIQUE = "typestate of section names along every path of the control-flow graph, with branch facts"
NOTE = "Exceptions raised by called models pass through without closing the section; only exceptions the function raises itself are judged."


def section(ev):
    if ev.k in ("C", "M", "X") and ev.name in ("start", "stop", "pause") and ev.args:
        n = lit_of(ev.args[0])
        return (ev.name, n) if n is not None else None
    return None


def lit_of(t):
    while isinstance(t, tuple) and t and t[0] == "ctor" and t[2]:
        t = t[2][0]
    return t[1] if isinstance(t, tuple) and t and t[0] in ("str", "lit") and isinstance(t[1], str) else None


class Brackets(Client):
    maxkeys = 64

    def __init__(self, rep, fn, names):
        self.rep, self.fn, self.names = rep, fn, names
        self.n = 0
        self.report = False

    def init(self, flow):
        return frozenset()

    def bad(self, what, name, where, msg):
        if self.report:
            self.rep.bad("%s::%s: %s %s" % (self.fn.cls, self.fn.sname, name, what), "%s: %s" % (where, msg))

    def step(self, key, ev, st, flow):
        s = section(ev)
        if s and s[1] in self.names:
            op, n = s
            if self.report:
                self.n += 1
                self.rep.ob("brackets", (op == "start") != (n in key), "%s %s at %s" % (op, n, ev.where))
            if op == "start":
                if n in key:
                    self.bad("started twice", n, ev.where, "section %s is started while it is already open" % n)
                return key | {n}
            if n not in key:
                self.bad("stopped while closed", n, ev.where, "section %s is stopped on a path that did not start it" % n)
            return key - {n}
        if ev.k == "THROW" and ev.node.frame is flow.g.root and key and not caught(ev.node, flow):
            for n in sorted(key):
                self.bad("left open by an exception", n, ev.where, "the exception raised here leaves section %s open" % n)
            return frozenset()
        return key

    def visit(self, node, st, evs, flow):
        self.report = True
        key = st.key
        for ev in evs:
            key = self.step(key, ev, st, flow)
        self.report = False

    def leave(self, kind, node, st, flow):
        if kind == "exit":
            self.rep.ob("exits", not st.key, "%s" % self.fn.label)
            for n in sorted(st.key):
                self.rep.bad("%s::%s: %s left open by a return" % (self.fn.cls, self.fn.sname, n),
                             "%s: some return leaves section %s open" % (self.fn.label, n))


def caught(node, flow):
    return node.handler is not None and node.handler is not flow.g.xexit


def profiled(f):
    return any(str(x.get("fn", "")).startswith("crocoddyl::Stopwatch::") for x in walk(f.body))


def check(rep):
    p, mr = model.load()
    nf = nb = 0
    for f in sorted(p.fns.values(), key=lambda f: (f.file, f.line)):
        if f.body is None or "Stopwatch" in str(f.cls) or not profiled(f):
            continue
        fnd = Find()
        fl = Flow(p, mr, f, f.cls, Policy(keep=STEPS - {f.sname}), fnd)
        fl.report()
        if not fnd.names:
            continue
        nf += 1
        b = Brackets(rep, f, fnd.names)
        fl = Flow(p, mr, f, f.cls, Policy(keep=STEPS - {f.sname}), b)
        fl.report()
        nb += b.n
    rep.need("profiled functions", nf, 15)
    rep.need("profiled brackets", nb, 60)


class Find(Client):
    def __init__(self):
        self.names = set()

    def visit(self, node, st, evs, flow):
        for ev in evs:
            s = section(ev)
            if s and node.frame is flow.g.root:
                self.names.add(s[1])
