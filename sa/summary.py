"""What a constructor or member function leaves in the members of *this, as terms over its arguments."""
from .cfg import Policy
from .flow import THIS, Client, Flow, canon, cmp_term, is_num, lit, mentions, neg, p_add, p_mul

CONV = {"cast", "scalar_cast", "cast_impl", "vector_cast", "doCast", "clone", "get"}
DEFAULT = ("default",)


class Summary(Client):
    """Final values of the members of *this, per path."""
    split_bools = False
    maxkeys = 64

    def __init__(self):
        self.exits = []
        self.num, self.tab = {}, []     # values are numbered: typestates stay small

    def code(self, d):
        for v in d.values():
            if v not in self.num:
                self.num[v] = len(self.tab)
                self.tab.append(v)
        return frozenset((k, self.num[v]) for k, v in d.items())

    def decode(self, key):
        return {k: self.tab[i] for k, i in key}

    def init(self, flow):
        return frozenset()

    def step(self, key, e, st, flow):
        if e.k == "C" and e.name == "operator=" and e.obj is not None and e.args:
            # copy assignment of a class: C06 checks that it copies every member
            import copy
            e = copy.copy(e)
            e.k, e.loc, e.val, e.op = "W", e.obj, e.args[0], "="
        if e.k in ("W",) and e.loc is not None:
            l, part = e.loc, False
            while l[0] in ("idx", "view", "deref"):
                l, part = l[1], True
            if l[0] == "loc" and e.val is not None and e.val[0] != "lambda":
                # a local vector or object built from the members
                d = self.decode(key)
                if part or e.op not in ("=", "init"):
                    if l in d:
                        d[l] = modified(d[l], (e.op, e.loc, e.val), l)
                else:
                    v = resolve(e.val, d)
                    d[l] = v if d.get(l, v) == v else MANY
                return self.code(d)
            if l[0] == "fld" and l[1] == THIS:
                f = (l[3], l[2])
                d = self.decode(key)
                old = d.get(f, fld_of(f))
                if part or e.op not in ("=", "init") or e.val is None:
                    d[f] = modified(old, (e.op, e.loc, e.val), l)
                else:
                    # a value computed from the member itself stays symbolic
                    v = resolve(e.val, {k: x for k, x in d.items() if k != f})
                    d[f] = v if not mentions(v, lambda x: x == l) or f not in d else modified(old, (e.op, e.loc, e.val), l)
                return self.code(d)
            if l[0] == "fld":
                # a member of a member object
                r = l
                while r[0] == "fld" and r[1] != THIS:
                    r = r[1]
                if r[0] == "fld":
                    f = (r[3], r[2])
                    d = self.decode(key)
                    d[f] = modified(d.get(f, fld_of(f)), (e.op, e.loc, e.val), fld_of(f))
                    d[("sub", l)] = resolve(e.val, {k: x for k, x in d.items() if k != f and k[0] != "sub"}) \
                        if e.val is not None and not part and e.op in ("=", "init") else MANY
                    return self.code(d)
        return key

    def leave(self, kind, node, st, flow):
        if kind == "exit":
            self.exits.append(({k: v for k, v in self.decode(st.key).items() if k[0] != "loc"}, st.facts))


def fld_of(f):
    return ("fld", THIS, f[1], f[0])


MANY = ("rewritten",)


def modified(old, part, loc):
    """A member after writes to parts of it: what it held, and the set of the writes."""
    part = subst(part, lambda x: ("self",) if x == loc else None)
    if old[0] == "mod":
        if old[2] == MANY or part in old[2]:
            return old
        return ("mod", old[1], MANY)
    return ("mod", old, (part,) if part[1] == ("self",) else MANY)


def resolve(v, d):
    """Vector members keep their name when read: replace them by what they hold."""
    return subst(v, lambda x: d.get((x[3], x[2])) if x[0] == "fld" and x[1] == THIS else d.get(x) if x[0] == "loc" else None)


def subst(t, fn):
    if not isinstance(t, tuple) or not t:
        return t
    if isinstance(t[0], str):
        r = fn(t)
        if r is not None:
            return r
        if t[0] == "poly":
            acc = lit(0)
            for m, c in t[1]:
                x = lit(c)
                for y in m:
                    x = p_mul(x, subst(y, fn))
                acc = p_add(acc, x)
            return acc
        if t[0] == "call" and t[1] in ("rows", "cols", "size") and not t[3] and t[2]:
            o = subst(t[2], fn)
            n = shape(o)
            if n:
                return {"rows": n[0], "cols": n[1], "size": p_mul(*n)}[t[1]]
            return ("call", t[1], o, ())
        if t[0] == "fld" and t[2] == "nx_":
            o = subst(t[1], fn)
            if o[0] == "new" and o[1] == "StateVector":
                return o[2][0]
            return t[:1] + (o,) + t[2:]
        if t[0] == "cmp":
            return cmp_term(t[1], subst(t[2], fn), subst(t[3], fn))
        if t[0] == "ite":
            c = subst(t[1], fn)
            v = truth(c)
            if v is not None:
                return subst(t[2] if v else t[3], fn)
            return ("ite", c, subst(t[2], fn), subst(t[3], fn))
    return known(tuple(subst(x, fn) if isinstance(x, tuple) else x for x in t))


def known(t):
    """Tests on vectors filled with an infinite constant, and their combinations."""
    if t and t[0] == "call" and t[1] in ("any", "all") and t[2] and t[2][0] == "call" and t[2][1] in ("isfinite", "isFinite", "array"):
        x = t[2]
        inner = x
        while inner and inner[0] == "call" and inner[1] in ("isfinite", "isFinite", "array"):
            inner = inner[2] if inner[2] else inner[3][0]
        if mentions(x, lambda y: y[0] == "call" and y[1] in ("isfinite", "isFinite")) and inner[0] == "call" and inner[1] == "Constant" and \
                mentions(inner[3][-1], lambda y: y[0] == "call" and y[1] == "infinity"):
            return lit(False)
    if t and t[0] in ("and", "or"):
        stop = t[0] == "or"
        xs = [x for x in t[1:] if truth(x) is not (not stop)]
        if any(truth(x) is stop for x in xs):
            return lit(stop)
        return lit(not stop) if not xs else xs[0] if len(xs) == 1 else (t[0],) + tuple(xs)
    return t


def shape(o):
    """Rows and columns of a matrix built on the spot."""
    if o[0] == "call" and o[1] in ("Zero", "Constant", "Identity", "Ones", "Random"):
        a = o[3]
        k = len(a) - (o[1] == "Constant")
        if k == 1:
            return a[0], lit(1)
        if k == 2:
            return a[0], a[1]
    return None


def strip(t):
    """Removes conversions between scalar types."""
    def fn(x):
        if x[0] == "call" and x[1] in CONV:
            if x[2] is not None and x[2] != () and not x[3]:
                return strip(x[2])
            if len(x[3]) >= 1:
                return strip(x[3][0])
        if x[0] == "res" and x[2] in CONV and x[3] is not None and not x[4]:
            return strip(x[3])
        if x[0] == "ctor" and len(x[2]) == 1 and "shared_ptr" in x[1]:
            return strip(x[2][0])
        return None
    return subst(t, fn)


CACHE = {}


def summary(p, mr, fn, dyn):
    if (fn.id, dyn) not in CACHE:
        CACHE[(fn.id, dyn)] = summary_(p, mr, fn, dyn)
    return CACHE[(fn.id, dyn)]


def summary_(p, mr, fn, dyn):
    return run(p, mr, fn, dyn, Summary())


def run(p, mr, fn, dyn, s):
    Flow(p, mr, fn, dyn, Policy(keep=set()), s, None).report()
    out = []
    for d, facts in s.exits:
        x = ({k: strip(v) for k, v in d.items()}, frozenset(strip(f) for f in facts))
        if x not in out:
            out.append(x)
    return out


def feasible(facts, more=()):
    """False when a fact (after substitution) is plainly false or contradicts another one."""
    allf = set(facts) | set(more)
    for f in facts:
        v = truth(f)
        if v is False or neg(f) in allf:
            return False
        for g in allf:
            if f[0] == "cmp" and g[0] == "cmp" and clash(f, g):
                return False
    return True


def clash(f, g):
    """a < b against b <= a and the like."""
    (o1, a, b), (o2, c, d) = f[1:4], g[1:4]
    if (a, b) == (d, c):
        return "<" in (o1, o2) and o1 in ("<", "<=") and o2 in ("<", "<=") or {o1, o2} == {"<", "=="}
    if (a, b) == (c, d):
        return {o1, o2} in ({"==", "!="}, {"<", "=="})
    return False


def truth(f):
    if f[0] == "lit":
        return bool(f[1])
    if f[0] == "cmp":
        a, b = f[2], f[3]
        if a == b and f[1] in ("==", "!=", "<", "<="):
            return f[1] in ("==", "<=")
        if is_num(a) and is_num(b):
            x, y = a[1], b[1]
            return {"==": x == y, "!=": x != y, "<": x < y, "<=": x <= y}[f[1]]
        if f[1] == "<" and a == lit(0) and b[0] == "fld" and b[2] == "nr_":
            return True         # a residual has at least one entry
        for x, y in ((a, b), (b, a)):
            if y in (lit(0), lit(None)) and (x[0] == "new" or x[0] in ("p", "fld") and pointerish(x)):
                return {"==": False, "!=": True}.get(f[1])
    return None


def pointerish(x):
    return False


def equal(a, b, facts):
    """Equality of two terms modulo the equalities among the facts."""
    rules = {}

    def find(x):
        while x in rules:
            x = rules[x]
        return x

    def norm(t):
        if not isinstance(t, tuple) or not t:
            return t
        if isinstance(t[0], str) and t in rules:
            return find(t)
        if isinstance(t[0], str):
            r = subst(t, lambda x: find(x) if x != t and x in rules else None)
            return find(r)
        return t
    for f in sorted((f for f in facts if f[0] == "cmp" and f[1] == "==" and len(f) == 4), key=canon):
        x, y = norm(f[2]), norm(f[3])
        if x == y:
            continue
        if (len(canon(x)), canon(x)) < (len(canon(y)), canon(y)):
            x, y = y, x
        if not mentions(y, lambda z: z == x):
            rules[x] = y
    for _ in range(3):
        a, b = norm(a), norm(b)
    return a == b
