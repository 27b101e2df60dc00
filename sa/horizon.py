"""The horizon: containers indexed by node, their lengths, node loops and index offsets."""
from .cfg import Policy
from .flow import (THIS, Client, Flow, base_chain, cmp_term, fld, is_num, lit, mentions, neg, p_add, p_mul, pretty,
                   root_c, subterms, to_poly, from_poly)
from .frontend import AnalysisBroken
from .loops import Loop
from .solvers import STEPS, cur

T = ("T",)
NODE_STEPS = {"computeActionValueFunction", "computeGains", "computeValueFunction"}


def family(p):
    """Functions that sweep over the horizon."""
    cl = set(p.subclasses("SolverAbstract")) | {"ShootingProblem"}
    if "IpoptInterface" in p.cls:
        cl.add("IpoptInterface")
    fs = [f for f in p.fns.values() if f.cls in cl and f.body is not None and (f.sname in STEPS or not p.helper(f))]
    return sorted(fs, key=lambda f: (f.file, f.line))


def is_T(t):
    return t[0] == "fld" and t[2] == "T_" and t[3] == "ShootingProblem"


class Lengths:
    """Field containers with one element per node (T or T + 1)."""

    def __init__(self, p, mr):
        self.p = p
        self.len = {("ShootingProblem", "running_models_"): T, ("ShootingProblem", "running_datas_"): T}
        self.bad = {}
        for f in family(p):
            if f.sname not in ("allocateData", "resizeData") and not f.rec.get("ctor"):
                continue
            self.scan(Flow(p, mr, f, f.cls, Policy(keep=STEPS - {f.sname, "allocateData"}), None), p)

    def scan(self, fl, p):
        me = self

        class C(Client):
            def visit(self, node, st, evs, flow):
                for e in evs:
                    if e.k == "M" and e.name in ("resize", "assign") and e.obj[0] == "fld" and e.args and \
                            "std::vector" in ftype(p, e.obj):
                        n = canon(flow, st, e.args[0], me)
                        if n is not None and mentions(n, lambda x: x == T):
                            k = (e.obj[3], e.obj[2])
                            if me.len.setdefault(k, n) != n:
                                me.bad[k] = (me.len[k], n, e.where)
        fl.client = C()
        fl.report()

    def of(self, c):
        return self.len.get((c[3], c[2])) if c[0] == "fld" else None


def ftype(p, l):
    c = p.cls.get(l[3])
    for f in (c.fields if c else []):
        if f["n"] == l[2]:
            return f["t"]
    return ""


def canon(flow, st, t, lens=None):
    """t with the horizon written as T and container sizes replaced by their lengths."""
    d = {}
    for m, c in to_poly(t).items():
        prod = {(): c}
        for x in m:
            r = atom(flow, st, x, lens)
            nd = {}
            for m1, c1 in prod.items():
                for m2, c2 in to_poly(r).items():
                    k = tuple(sorted(m1 + m2, key=repr))
                    nd[k] = nd.get(k, 0) + c1 * c2
            prod = nd
        for k, v in prod.items():
            d[k] = d.get(k, 0) + v
    return from_poly(d)


def atom(flow, st, x, lens):
    if is_T(x):
        return T
    if x[0] == "call" and x[1] == "size" and x[2] is not None:
        c = x[2]
        if c[0] == "fld" and lens is not None and lens.of(c):
            return lens.of(c)
        if flow.fn.cls == "ShootingProblem" and x == cur(flow, st, "T_"):
            return T
        for f in st.facts if st is not None else ():
            if f[0] == "cmp" and f[1] == "==" and x in f[2:]:
                o = f[3] if f[2] == x else f[2]
                if o[0] != "call":
                    return canon(flow, st, o, lens)
    return x


def length(flow, st, c, lens):
    """Number of elements of a container term, in T, or None when it is not per node."""
    n = lens.of(c)
    if n is not None:
        return n
    if c[0] in ("p", "loc", "fld"):
        n = canon(flow, st, ("call", "size", c, ()), lens)
        if mentions(n, lambda x: x == T):
            return n
    return None


class Sweep:
    """Loops of a flow, with ranges in terms of T."""

    def __init__(self, flow, lens):
        self.flow = flow
        self.lens = lens
        self.loops = {h: Loop(flow, h) for h in flow.loops}
        self.sib = {}
        self.byphi = {l.phi: l for l in self.loops.values() if l.phi is not None}

    def range(self, phi, st):
        l = self.byphi.get(phi)
        if l is None:
            return None
        hs = next(iter(self.flow.ins.get(l.head, {}).values()), st)
        return canon(self.flow, hs, l.lo, self.lens), canon(self.flow, hs, l.hi, self.lens)

    def split(self, t):
        """Index term as (symbol, offset): symbol is a phi, a parameter or None for T + const / const."""
        d = to_poly(t)
        syms = [m for m in d if m and m != (T,)]
        if not syms:
            return None, t
        if len(syms) == 1 and len(syms[0]) == 1 and d[syms[0]] == 1:
            s = self.main(syms[0][0])
            if s != syms[0][0]:
                return self.split(p_add(p_add(t, syms[0][0], -1), s))
            return s, p_add(t, s, -1)
        return False, t

    def main(self, s):
        """A second counter of a loop, written with the one its test uses."""
        if s[0] == "phi" and s not in self.byphi and s[1] in self.loops:
            if s not in self.sib:
                l = self.loops[s[1]]
                d = l.sibling(s)
                self.sib[s] = p_add(l.phi, d) if d is not None else s
            return self.sib[s]
        return s

    def same(self, a, b):
        """Equal index terms?"""
        return a == b or self.norm(a) == self.norm(b)

    def norm(self, t):
        """t with every second counter replaced by the tested one."""
        if not isinstance(t, tuple) or not mentions(t, lambda x: x[0] == "phi" and x not in self.byphi):
            return t
        return self._norm(t)

    def _norm(self, t):
        if t[0] == "phi" and len(t) == 3:
            return self.main(t)
        if t[0] == "poly":
            r = lit(0)
            for m, c in t[1]:
                x = lit(c)
                for y in m:
                    x = p_mul(x, self._norm(y))
                r = p_add(r, x)
            return r
        return tuple(self._norm(x) if isinstance(x, tuple) and x else x for x in t)

    def bounds(self, st, t, gs=()):
        """(lo, hi) of an index term, or None; gs: further conditions known to hold."""
        t = canon(self.flow, st, t, self.lens)
        s, off = self.split(t)
        if s is False:
            return None
        if s is None:
            return off, off
        r = None
        if s in self.byphi:
            r = self.range(s, st)
        elif s[0] == "p" and self.flow.fn.sname in NODE_STEPS:
            r = (lit(0), p_add(T, lit(-1)))
        lo, hi = r if r else (lit(0), None)
        if hi is None or True:
            b = fact_upper(self.flow, st, s, self.lens, gs, hi)
            if b is not None and (hi is None or less(b, hi)):
                hi = b
        if hi is None:
            return None
        return p_add(lo, off), p_add(hi, off)


def less(a, b):
    d = p_add(a, b, -1)
    return is_num(d) and d[1] < 0


def fact_upper(flow, st, s, lens, gs=(), hi=None):
    best = hi
    for f in list(st.facts) + list(gs):
        if f[0] == "cmp" and f[1] in ("<", "<=") and f[2] == s:
            b = canon(flow, st, f[3], lens)
            if f[1] == "<":
                b = p_add(b, lit(-1))
            if not mentions(b, lambda x: x == T):
                continue
            if best is None or less(b, best):
                best = b
    if best is None:
        return None
    for _ in range(2):
        for f in list(st.facts) + list(gs):
            if f[0] == "cmp" and f[1] == "!=" and len(f) == 4 and mentions(f, lambda x: x == s):
                # s + c != bound, bound the largest value: s excluded from the end
                d = p_add(canon(flow, st, f[2], lens), canon(flow, st, f[3], lens), -1)
                k = to_poly(d).get((s,))
                if k in (1, -1):
                    o = p_add(s, d, -1) if k == 1 else p_add(s, d)
                    if o == best:
                        best = p_add(best, lit(-1))
    return best


def inside(lo, hi, n):
    """0 <= lo and hi <= n - 1, as far as constants tell (one node at least is assumed)."""
    def ge0(t):
        d = dict(to_poly(t))
        c = d.pop((), 0)
        k = d.pop((T,), 0)
        if d:
            return False
        return k >= 0 and c + k >= 0       # T >= 1
    return ge0(lo) and ge0(p_add(p_add(n, lit(-1)), hi, -1))


def indices(term):
    """(container, index) pairs inside a term."""
    return [(x[1], x[2]) for x in subterms(term) if x[0] == "idx" and len(x) == 3]


def guarded(term, gs=()):
    """(container, index, conditions under which it is evaluated)."""
    if not isinstance(term, tuple) or not term:
        return
    if term[0] == "ite" and len(term) == 4:
        yield from guarded(term[1], gs)
        yield from guarded(term[2], gs + (term[1],))
        yield from guarded(term[3], gs + (neg(term[1]),))
        return
    if term[0] == "idx" and len(term) == 3:
        yield term[1], term[2], gs
    for x in term:
        if isinstance(x, tuple):
            yield from guarded(x, gs)
