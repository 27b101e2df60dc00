"""C13: box-constrained controls stay inside their limits."""
from sa import model
from sa.cfg import Policy
from sa.flow import (THIS, Client, Flow, base_chain, fld, is_num, lit, mentions, neg, p_add, pretty, subterms)
from sa.horizon import Lengths, Sweep, canon
from sa.solvers import STEPS, method, solver_classes

RULE = ("In the rollouts of the box solvers the control given to calc of a running model was, on every path, last assigned a value "
        "clamped by that node's own lower and upper limit, unless the path knows the node has no limits; in the box QP the returned "
        "solution was, on every path to a return, last assigned a vector clamped by the bounds of the call; the QP is given the node's "
        "limits minus the node's control.")
TECHNIQUE = "interval-flag dataflow (is at least the lower / at most the upper limit) over min/max terms along every path"
NOTE = "Assumes lower limits do not exceed upper limits; an undefined number (NaN) passing through min/max is C12."


class Boxed(Client):
    """key: ('f', loc, side, ctx) whole vector; ('e', base, index, side, ctx) element written in a loop."""
    split_bools = False
    maxkeys = 64

    def __init__(self, rep, fn):
        self.rep, self.fn = rep, fn
        self.report = False
        self.vac = {}

    def init(self, flow):
        return frozenset()

    # bound(term) -> (ctx, elem) or None
    def bound(self, t, st, flow):
        raise NotImplementedError

    def flags(self, t, key, st, flow):
        b = self.bound(t, st, flow)
        if b is not None:             # limits are ordered: each of them lies between both
            return {("lo", b), ("hi", b)}
        out = {(k[2], (k[3], None)) for k in key if k[0] == "f" and k[1] == t}
        if t[0] == "idx" and len(t) == 3:
            out |= {(k[2], (k[3], t[2])) for k in key if k[0] == "f" and k[1] == t[1]}
        if out:
            return out
        for f in st.facts:            # a comparison with the limit decides the side
            if f[0] == "cmp" and f[1] in ("<", "<=") and t in f[2:]:
                o = self.bound(f[3] if f[2] == t else f[2], st, flow)
                if o is not None:
                    out.add(("hi" if f[2] == t else "lo", o))
        if out:
            return out
        if t[0] == "ite" and len(t) == 4:
            return self.flags(t[2], key, st, flow) & self.flags(t[3], key, st, flow)
        if t[0] == "call" and t[1] in ("cwiseMax", "cwiseMin", "max", "min"):
            ops = ([t[2]] if t[2] is not None else []) + list(t[3])
            if len(ops) != 2:
                return set()
            a, b = (self.flags(x, key, st, flow) for x in ops)
            one, both = ("lo", "hi") if t[1] in ("cwiseMax", "max") else ("hi", "lo")
            return {f for f in a | b if f[0] == one} | {f for f in a & b if f[0] == both}
        if t[0] == "call" and t[1] in ("array", "matrix", "eval") and t[2] is not None:
            return self.flags(t[2], key, st, flow)
        return set()

    def step(self, key, ev, st, flow):
        if ev.k != "W":
            return key
        chain = base_chain(ev.loc)
        fl = self.flags(ev.val, key, st, flow) if ev.op in ("=", "init") and ev.val is not None else set()
        elem = ev.loc[0] == "idx" and len(ev.loc) == 3 and ev.loc[2] in self.sw.byphi
        kept = set()
        for k in key:
            if k[0] == "f" and (k[1] in chain or ev.loc in base_chain(k[1])):
                if not (elem and k[1] == ev.loc[1] and any(f[0] == k[2] and f[1] == (k[3], ev.loc[2]) for f in fl)):
                    continue
            if k[0] == "e" and (k[1] in chain or ev.loc in base_chain(k[1])):
                continue
            kept.add(k)
        for side, (ctx, el) in fl:
            if el is None:
                kept.add(("f", ev.loc, side, ctx))
            elif elem and el == ev.loc[2]:
                kept.add(("e", ev.loc[1], el, side, ctx))
                h = self.sw.byphi[el].head
                self.vac.setdefault(h, set()).add(("e", ev.loc[1], el, side, ctx))
        self.note(kept, ev, st, flow)
        return frozenset(kept)

    def note(self, kept, ev, st, flow):
        pass

    def edge(self, key, term, truth, st, flow, node):
        if term[0] == "cmp" and any(self.bound(x, st, flow) is not None for x in term[2:]):
            key = key | {("c", node.id, truth)}
        for l in self.sw.loops.values():
            if l.test is None or l.test.id != node.id or l.phi is None:
                continue
            lab = ("T",) if truth else ("F",)
            key = frozenset(k for k in key if not (k[0] == "c" and k[1] in flow.loops[l.head]))
            into = any(x == lab and s.id in flow.loops[l.head] for s, x in node.succ)
            if into:
                if ("Z", l.head) not in key:
                    key = key | {("Z", l.head)}
                continue
            els = {k for k in key if k[0] == "e" and k[2] == l.phi}
            if ("Z", l.head) not in key:
                els = self.vac.get(l.head, set()) if not l.early else els
            out = {k for k in key if not (k[0] == "e" and k[2] == l.phi) and k != ("Z", l.head)}
            for k in els:
                if not l.early and self.whole(l, k[1], st, flow):
                    out.add(("f", k[1], k[3], k[4]))
            key = frozenset(out)
        return key

    def whole(self, l, base, st, flow):
        return l.lo == lit(0) and p_add(l.hi, lit(1)) in self.sizes(base)

    def visit(self, node, st, evs, flow):
        self.report = True
        key = st.key
        for ev in evs:
            self.see(key, ev, st, flow)
            key = self.step(key, ev, st, flow)
        self.report = False

    def see(self, key, ev, st, flow):
        pass


class Rollout(Boxed):
    n = 0
    q = 0

    def node_of(self, m):
        if m is not None and m[0] == "idx" and fld(m[1]) == "running_models_":
            return m[2]
        return None

    def bound(self, t, st, flow):
        el = None
        if t[0] == "idx" and len(t) == 3 and t[1][0] == "fld" and t[1][2] in ("u_lb_", "u_ub_"):
            t, el = t[1], t[2]
        if t[0] == "fld" and t[2] in ("u_lb_", "u_ub_"):
            i = self.node_of(t[1])
            if i is not None:
                return (i, el)
        return None

    def sizes(self, base):
        return {("call", "size", base, ())} | ({("fld", ("idx", self.models, base[2]), "nu_", "ActionModelAbstract")} if base[0] == "idx" and self.models else set())

    models = None

    def note(self, kept, ev, st, flow):
        if ev.op in ("=", "init") and ev.val is not None:
            d = limits_minus(ev.val, self)
            for k in [k for k in kept if k[0] == "d" and (k[1] in base_chain(ev.loc))]:
                kept.discard(k)
            if d:
                kept.add(("d", ev.loc) + d)

    def see(self, key, ev, st, flow):
        if ev.k == "C" and ev.name == "calc" and ev.obj is not None:
            i = self.node_of(ev.obj)
            if i is None:
                return
            self.models = ev.obj[1]
            if len(ev.args) < 3:
                return
            fl = self.flags(ev.args[2], key, st, flow)
            free = any(mentions(f, lambda x: x[0] == "fld" and x[2] == "has_control_limits_" and self.node_of(x[1]) == i)
                       and (f[0] == "not" or f[0] == "cmp" and f[1] == "==" and lit(False) in f[2:]) for f in st.facts)
            ok = free or {("lo", (i, None)), ("hi", (i, None))} <= fl
            self.n += 1
            self.rep.ob("controls handed to the dynamics", ok, "%s at %s%s" % (self.label, ev.where, " (no limits)" if free else ""))
            if not ok:
                miss = [w for s, w in (("lo", "lower"), ("hi", "upper")) if (s, (i, None)) not in fl]
                self.rep.bad("%s: control not clamped" % self.label,
                             "%s: %s is handed to the dynamics of node %s without being clamped by the node's %s limit" %
                             (ev.where, pretty(ev.args[2]), pretty(i), " and ".join(miss)))
        if ev.k == "C" and ev.name == "solve" and len(ev.args or ()) >= 4 and self.qp(ev.obj, flow):
            self.q += 1
            for k, side in ((2, "u_lb_"), (3, "u_ub_")):
                a = ev.args[k]
                d = [x for x in key if x[0] == "d" and x[1] == a]
                v = limits_minus(a, self) or (d[0][2:] if d else None)
                g = ev.args[1]
                node = g[2] if g[0] == "idx" else None
                ok = v is not None and v[0] == side and v[1] == v[2] and (node is None or v[1] == node)
                self.rep.ob("bounds handed to the QP", ok, "%s: %s" % (ev.where, side))
                if not ok:
                    self.rep.bad("%s: wrong %s bound handed to the box QP" % (self.label, "lower" if k == 2 else "upper"),
                                 "%s: argument %s is not the node's %s minus the node's control" % (ev.where, pretty(a), side))

    def qp(self, o, flow):
        return o is not None and o[0] == "fld" and "BoxQP" in str(self.types.get(o[2]))


def limits_minus(v, cl):
    """models[i].u_xb - us_[j] -> (field, i, j)"""
    if v[0] != "op" or v[1] not in ("+", "-") or len(v) != 4:
        return None
    a, b = v[2], v[3]
    nb = b[2] if b[0] == "op" and b[1] == "neg" else b[1] if b[0] == "neg" else None
    if nb is None:
        na = a[2] if a[0] == "op" and a[1] == "neg" else a[1] if a[0] == "neg" else None
        if na is None:
            return None
        a, nb = b, na
    if a[0] == "fld" and a[2] in ("u_lb_", "u_ub_") and cl.node_of(a[1]) is not None and nb[0] == "idx" and fld(nb[1]) == "us_":
        return (a[2], cl.node_of(a[1]), nb[2])
    return None


class Quad(Boxed):
    n = 0

    def bound(self, t, st, flow):
        el = None
        if t[0] == "idx" and len(t) == 3:
            t, el = t[1], t[2]
        if t[0] == "p" and t[1] in (2, 3):
            return ("box", el)
        return None

    def sizes(self, base):
        return {("call", "size", base, ()), ("fld", THIS, "nx_", "BoxQP")} | {("call", "size", ("p", k, n), ()) for k, n in self.names}

    def leave(self, kind, node, st, flow):
        if kind != "exit":
            return
        x = [k for k in st.key if k[0] == "f" and k[1][0] == "fld" and k[1][2] == "x" and fld(k[1][1]) == "solution_"]
        sides = {k[2] for k in x}
        self.n += 1
        ok = sides == {"lo", "hi"}
        self.rep.ob("returned solutions", ok, self.fn.label)
        if not ok:
            self.rep.bad("BoxQP::solve: solution not clamped",
                         "%s: on some path the returned solution was not last assigned a vector clamped by the %s" %
                         (self.fn.label, "bounds" if not sides else "upper bounds" if "lo" in sides else "lower bounds"))


def run(p, mr, fn, cls, cl):
    pol = Policy(keep=STEPS - {fn.sname})
    pre = Flow(p, mr, fn, cls, pol, None, None)
    cl.sw = Sweep(pre, None)
    # the keys carry loop counters: share them between both passes
    for _ in range(2):            # the first pass learns what each loop does to every element
        fl = Flow(p, mr, fn, cls, pol, cl, None, pre)
        cl.sw.flow = fl
    fl.report()
    return fl


def check(rep):
    p, mr = model.load()
    n = q = 0
    for c in solver_classes(p):
        types = {f["n"]: f["t"] for k in p.cls if p.is_a(c, k) for f in p.cls[k].fields}
        if not any("BoxQP" in t for t in types.values()):
            continue
        for m in ("forwardPass", "computeGains"):
            f = method(p, c, m)
            cl = Rollout(rep, f)
            cl.label = "%s::%s" % (c, m)
            cl.types = types
            run(p, mr, f, c, cl)
            if m == "forwardPass":
                rep.need("dynamics calls in " + cl.label, cl.n, 1)
            n += cl.n
            q += cl.q
    rep.need("calls of the box QP", q, 2)
    rep.need("controls handed to the dynamics", n, 3)
    writers = 0
    for f in sorted(p.by_cls.get("BoxQP", []), key=lambda f: f.line):
        if f.body is None:
            continue
        if f.sname == "solve":
            cl = Quad(rep, f)
            cl.names = [(k, q_["n"]) for k, q_ in enumerate(f.params)]
            run(p, mr, f, "BoxQP", cl)
            rep.need("returns of the box QP", cl.n, 1)
            writers += 1
    rep.need("box QP entry points", writers, 1)
