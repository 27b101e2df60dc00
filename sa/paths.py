"""Path-by-path results of small functions: the branch outcomes are the typestate."""
from .cfg import Policy
from .flow import Client, Flow, cmp_term, lit, neg


class Paths(Client):
    """One state per combination of branch outcomes (small functions; loops keep their last outcome)."""
    maxkeys = 400
    split_bools = False

    def __init__(self):
        self.exits = []      # (kind, state, return events)
        self.rets = []

    def init(self, flow):
        return ()

    def edge(self, key, term, truth, st, flow, node):
        d = dict(key)
        d[node.id] = truth
        return tuple(sorted(d.items()))

    def visit(self, node, st, evs, flow):
        for ev in evs:
            if ev.k == "RET":
                self.rets.append((node, st, ev))

    def leave(self, kind, node, st, flow):
        self.exits.append((kind, st))


def paths(p, mr, fn, dyn, policy=None):
    c = Paths()
    fl = Flow(p, mr, fn, dyn, policy or Policy(), c)
    fl.report()
    return fl, c


def le(facts, a, b):
    """a <= b follows from the facts (one step)."""
    if a == b:
        return True
    if a[0] == "lit" and b[0] == "lit":
        try:
            return a[1] <= b[1]
        except TypeError:
            return False
    for f in (("cmp", "<", a, b), ("cmp", "<=", a, b), cmp_term("==", a, b)):
        if f in facts:
            return True
    if a[0] == "call" and a[1] == "min" and any(le(facts, x, b) for x in a[3]):
        return True
    if a[0] == "call" and a[1] == "max" and all(le(facts, x, b) for x in a[3]):
        return True
    if b[0] == "call" and b[1] == "max" and any(le(facts, a, x) for x in b[3]):
        return True
    if b[0] == "call" and b[1] == "min" and all(le(facts, a, x) for x in b[3]):
        return True
    if a[0] == "ite":
        return le(facts | {a[1]}, a[2], b) and le(facts | {neg(a[1])}, a[3], b)
    if b[0] == "ite":
        return le(facts | {b[1]}, a, b[2]) and le(facts | {neg(b[1])}, a, b[3])
    if a[0] == "call" and a[1] in ("clamp",) and len(a[3]) == 3:
        return le(facts, a[3][2], b)
    if b[0] == "call" and b[1] in ("clamp",) and len(b[3]) == 3:
        return le(facts, a, b[3][1])
    return False
