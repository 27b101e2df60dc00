"""What every iteration of a loop over a whole container does."""
from .flow import Client, Flow, lit, pretty, subterms
from .loops import Loop


def whole(flow, loop, st=None):
    """The container a loop walks through from its first to its last element, or None."""
    if loop.phi is None or loop.lo != lit(0):
        return None
    hi = loop.hi
    for x in subterms(hi):
        if x[0] == "call" and x[1] == "size" and x[2] is not None:
            from .flow import p_add
            if p_add(hi, x, -1) == lit(-1):
                return x[2]
    return None


class Each(Client):
    """effects of each completed iteration of one loop, as recorded by effect(ev, phi, st, flow)."""
    split_bools = False
    maxkeys = 64

    def __init__(self, loop, effect, branch=None):
        self.loop, self.effect, self.branch = loop, effect, branch
        self.iterations = {}     # (effects) -> facts
        self.where = {}

    def init(self, flow):
        return (False, ())

    def step(self, key, e, st, flow):
        if not key[0]:
            return key
        x = self.effect(e, self.loop.phi, st, flow)
        if x is not None:
            self.where.setdefault(x, e.where)
            return (True, key[1] + (x,)) if len(key[1]) < 40 else key
        return key

    def edge(self, key, term, truth, st, flow, node):
        if node.id == self.loop.test.id:
            s, lab = self.loop.exit_succ[2], self.loop.exit_succ[1]
            if key[0]:
                self.iterations.setdefault(key[1], []).append(st.facts)
            return (truth != (lab[0] == "T"), ())
        if self.branch is not None and key[0]:
            x = self.branch(term, truth, self.loop.phi, st)
            if x is not None:
                return (True, key[1] + (x,))
        return key

    def finals(self, var):
        """{effects of an iteration: values a location has at its end}"""
        out = {}
        for (h, n, i, j), st in self.flow.rawback.items():
            if h == self.loop.head and st.key[0]:
                out.setdefault(st.key[1], set()).add(st.env.get(var, var if var[0] in ("fld", "idx", "view") else None))
        return out


def iterations(p, mr, f, dyn, pol, effect, seed=None, branch=None, span=whole):
    """[(loop, container, {effects of an iteration}, where)] for every loop of f over a whole container.

    span(flow, loop) names what a loop walks through, or None."""
    pre = Flow(p, mr, f, dyn, pol, None, seed)
    out = []
    for h in sorted(pre.loops):
        l = Loop(pre, h)
        c = span(pre, l)
        if c is None:
            out.append((l, None, {}, {}))
            continue
        cl = Each(l, effect, branch)
        l.each = cl
        cl.flow = Flow(p, mr, f, dyn, pol, cl, seed, pre)
        out.append((l, c, cl.iterations, cl.where))
    return out
