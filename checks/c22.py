"""C22: numerical differentiation perturbs and restores one coordinate."""
import re
from sa import model
from sa.cfg import Policy
from sa.flow import Client, Flow, lit, mentions, p_add, p_mul, pretty, subterms, to_poly
from sa.frontend import AnalysisBroken
from sa.loops import Loop

RULE = ("Every difference quotient of every numerical-differentiation model, written as a combination of evaluations at perturbed points, has the "
        "Taylor expansion of the derivative it is stored as: no constant term, the differentiated coordinate with coefficient one and no other "
        "coordinate (for second derivatives: no first-order term and the one mixed term with coefficient one); the step divided by is the step "
        "applied and is computed in the same call; a perturbation is undone before the next coordinate is perturbed")
TECHNIQUE = "abstract interpretation with perturbation sets (coordinate, step) for points and truncated Taylor polynomials for difference quotients"
NOTE = "Decides which points are evaluated and how they are combined; the truncation error of the quotient is not a static matter."

EMPTY = frozenset()
SECOND = re.compile(r"^(Lxx|Lxu|Luu|Arr)_?$")


def lab(f):
    return "%s::%s" % (f.cls, f.sname)


def ent(d):
    return frozenset((k, v) for k, v in d.items() if v != lit(0))


def show(P):
    return "{%s}" % ", ".join(sorted("%s[%s]: %s" % (pretty(s) if isinstance(s, tuple) else s, idx(i), pretty(h)) for (s, i), h in P)) if P else "nominal"


def idx(i):
    return "previous " + idx(i[1]) if i[0] == "old" else "unevaluated " + idx(i[1]) if i[0] == "other" else pretty(i)


class Perturb(Client):
    """key: frozenset of (location, kind, value)"""
    split_bools = False
    maxkeys = 96

    def __init__(self, rep, fn, tests):
        self.rep, self.fn, self.tests = rep, fn, tests
        self.report = False
        self.n = self.quot = 0
        self.assumed = set()
        self.ever = EMPTY

    def init(self, flow):
        return EMPTY

    # ---------------------------------------------------------------- abstract store
    def get(self, key, l):
        for x in key:
            if x[0] == l and x[1] in ("tan", "pt", "cmb"):
                return x
        return None

    def put(self, key, l, kind, *v):
        k = frozenset(x for x in key if not (x[0] == l and (x[1] in ("tan", "pt", "cmb")) == (kind in ("tan", "pt", "cmb", None))
                                             and (kind in ("tan", "pt", "cmb", None) or x[1] == kind)))
        return k if kind is None else k | {(l, kind) + v}

    def tan(self, key, t):
        """Entries of a tangent vector term, or None."""
        x = self.get(key, t)
        if x and x[1] == "tan":
            return dict(x[2])
        if t[0] == "op" and t[1] == "neg":
            d = self.tan(key, t[2])
            return d and {i: p_mul(lit(-1), h) for i, h in d.items()} if d is not None else None
        if t[0] == "op" and t[1] == "+":
            a, b = self.tan(key, t[2]), self.tan(key, t[3])
            if a is not None and b is not None:
                for i, h in b.items():
                    a[i] = p_add(a.get(i, lit(0)), h)
                return a
        if t[0] == "op" and t[1] == "s*":
            for k, v in ((t[2], t[3]), (t[3], t[2])):
                d = self.tan(key, v)
                if d is not None:
                    return {i: p_mul(k, h) for i, h in d.items()}
        return None

    def point(self, key, t):
        """(base, perturbation) of a vector used as an argument."""
        x = self.get(key, t)
        if x and x[1] == "pt":
            return x[3], dict(x[4])
        d = self.tan(key, t)
        if d is not None:
            return t, {(t, i): h for i, h in d.items()}
        if t[0] == "op" and t[1] in ("+",):
            for a, b in ((t[2], t[3]), (t[3], t[2])):
                d = self.tan(key, b)
                if d is not None:
                    base, P = self.point(key, a)
                    for i, h in d.items():
                        P[(base, i)] = p_add(P.get((base, i), lit(0)), h)
                    return base, P
        return t, {}

    def data(self, key, t):
        """(quantity, perturbation) of a value read from evaluated data."""
        path = []
        u = t
        while True:
            if u[0] == "unk" and len(u) == 3:
                for x in key:
                    if x[1] == "nd" and x[0][0] == u[1] and mentions(u[2], lambda y: y == x[0][1]):
                        return self.quantity(u[2]), x[2]
                u = u[2]
                continue
            for x in key:
                if x[0] == u and x[1] == "dat":
                    return self.quantity(t), x[2]
            if u[0] == "idx" and u[1][0] == "fld" and "Data" in u[1][3] and any(
                    x[1] == "dat" and x[0][0] == "idx" and x[0][1] == u[1] for x in key | self.ever):
                return self.quantity(t), frozenset({((u[1], ("other", u[2])), lit(1))})
            if u[0] == "fld" or u[0] == "idx":
                u = u[1]
            elif u[0] == "view":
                u = u[2]
            else:
                return self.quantity(t), EMPTY

    def quantity(self, t):
        while t[0] in ("unk", "idx"):
            t = t[2] if t[0] == "unk" else t[1]
        return t[2] if t[0] == "fld" else t[3] if t[0] == "loc" else pretty(t)

    # ---------------------------------------------------------------- linear combinations of evaluations
    def lin(self, key, t):
        """({(quantity, P): coefficient}, divisor) or None."""
        if t[0] == "op" and t[1] in ("/", "s/"):
            a = self.lin(key, t[2])
            return a and (a[0], p_mul(a[1], t[3]))
        if t[0] == "op" and t[1] == "neg":
            a = self.lin(key, t[2])
            return a and ({k: p_mul(lit(-1), c) for k, c in a[0].items()}, a[1])
        if t[0] == "op" and t[1] in ("+", "-"):
            return self.plus(self.lin(key, t[2]), self.lin(key, t[3]), 1 if t[1] == "+" else -1)
        if t[0] == "op" and t[1] == "s*":
            for k, v in ((t[2], t[3]), (t[3], t[2])):
                a = self.lin(key, v)
                if a:
                    num, den = self.factor(k)
                    return {q: p_mul(c, num) for q, c in a[0].items()}, p_mul(a[1], den)
            return None
        if t[0] == "poly":
            tot = None
            for m, c in to_poly(t).items():
                ev = [x for x in m if self.evaluation(key, x)]
                if len(ev) != 1:
                    return None
                e = self.lin(key, ev[0])
                num, den = lit(c), lit(1)
                rest = list(m)
                rest.remove(ev[0])
                for x in rest:
                    n, d = self.factor(x)
                    num, den = p_mul(num, n), p_mul(den, d)
                part = ({q: p_mul(k, num) for q, k in e[0].items()}, p_mul(e[1], den))
                tot = part if tot is None else self.plus(tot, part, 1)
                if tot is None:
                    return None
            return tot
        x = self.get(key, t)
        if x and x[1] == "cmb":
            return dict(x[2]), x[3]
        if x and x[1] == "pt" and x[2]:
            return {(x[2], frozenset(x[4])): lit(1)}, lit(1)
        if t[0] in ("fld", "unk", "idx", "view") and self.evaluation(key, t):
            q, P = self.data(key, t)
            return {(q, P): lit(1)}, lit(1)
        return None

    def factor(self, x):
        if x[0] == "op" and x[1] == "/":
            return x[2], x[3]
        return x, lit(1)

    def plus(self, a, b, s):
        if a is None or b is None:
            return None
        if a[1] != b[1]:
            a, b = ({q: p_mul(c, b[1]) for q, c in a[0].items()}, p_mul(a[1], b[1])), \
                ({q: p_mul(c, a[1]) for q, c in b[0].items()}, p_mul(a[1], b[1]))
        d = dict(a[0])
        for q, c in b[0].items():
            d[q] = p_add(d.get(q, lit(0)), c, s)
        return d, a[1]

    def evaluation(self, key, t):
        x = self.get(key, t)
        if x:
            return x[1] == "cmb" or x[1] == "pt" and bool(x[2])
        if t[0] not in ("fld", "unk", "idx", "view"):
            return False
        # a quantity of the model's data, or of the data of an evaluation
        fs = [x for x in subterms(t) if x[0] == "fld"]
        return bool(fs) and any("Data" in x[3] for x in fs) and not self.step_name(t)

    def step_name(self, t):
        while t[0] in ("unk", "idx"):
            t = t[2] if t[0] == "unk" else t[1]
        return t[0] == "fld" and bool(re.search(r"(_jac|_hess|_norm|_pow2)_?$", t[2]))

    # ---------------------------------------------------------------- events
    def step(self, key, ev, st, flow):
        if ev.k == "C" and ev.args:
            a = ev.args
            if ev.name == "calc" and ev.obj is not None and len(a) >= 2:
                P = {}
                for x in a[1:]:
                    if isinstance(x, tuple):
                        P.update(self.point(key, x)[1])
                P = ent(P)
                key = frozenset(x for x in key if not (x[1] == "nd" and x[0][0] == ev.node.id))
                key = self.put(key, a[0], "dat", P)
                if a[0][0] == "idx":
                    self.ever = self.ever | {(a[0], "dat")}
                key |= {((ev.node.id, a[0]), "nd", P)}
            elif ev.name == "integrate" and len(a) >= 3:
                base, P = self.point(key, a[0])
                d = self.tan(key, a[1])
                if d is not None:
                    for i, h in d.items():
                        P[(base, i)] = p_add(P.get((base, i), lit(0)), h)
                else:
                    P.update(self.point(key, a[1])[1])
                key = self.put(key, a[2], "pt", "integrate", base, ent(P))
            elif ev.name == "diff" and len(a) >= 3:
                va, vb = self.lin(key, a[0]), self.lin(key, a[1])
                one = va and vb and len(va[0]) == len(vb[0]) == 1 and [q for q, _ in va[0]] == [q for q, _ in vb[0]]
                if one:
                    v = self.plus(vb, va, -1)
                    key = self.store(key, a[2], v, ev)
                else:
                    P = self.point(key, a[0])[1]
                    P.update(self.point(key, a[1])[1])
                    key = self.store(key, a[2], ({("diff", ent(P)): lit(1)}, lit(1)), ev)
            return key
        if ev.k != "W":
            return key
        l, op = ev.loc, ev.op or "="
        if op.startswith("out:"):
            return key
        if op in (".setZero",) or op in ("=", "init") and ev.val[0] in ("call", "unk") and ev.val[1] == "Zero":
            return self.put(key, l, "tan", EMPTY) if l[0] in ("fld", "loc") else key
        if op in ("/=", "*=") and l[0] in ("fld", "loc", "p"):
            return self.divide(key, l, ev, op)
        if op in ("/=", "*=") and l[0] in ("view", "idx"):
            c, i = self.container(l)
            return self.divide(key, c, ev, op, i)
        if l[0] == "idx" and l[1][0] in ("fld", "loc", "p") and not (isinstance(l[2], tuple) and l[2][0] == "pair"):
            v = self.lin(key, ev.val)
            x = self.get(key, l[1])
            if v is not None and not (x and x[1] == "pt" and v and not any(P for _, P in v[0]) and op == "="):
                return self.store(key, l, v, ev)
            return self.perturb(key, l[1], l[2], op, ev, st)
        if l[0] == "view" and l[1] == "col" or l[0] == "idx":
            v = self.lin(key, ev.val)
            if v is not None:
                return self.store(key, l, v, ev)
            if self.report and mentions(ev.val, lambda t: any(x[1] == "dat" and x[0] == t for x in key)):
                raise AnalysisBroken("C22: cannot read the quotient stored at %s" % ev.where)
            return key
        if l[0] == "p" and isinstance(ev.val, tuple):
            v = ev.val[2] if ev.val[0] == "op" and ev.val[1] == "neg" else ev.val
            drv = [x for x in key if x[0] == v and x[1] == "drv"]
            sp = self.spaces(l)
            if drv and sp[0] is not None and drv[0][2][0] == "p" and self.report:
                ok = drv[0][2][1] == sp[0]
                self.rep.ob("derivative stored", ok, "%s: %s at %s" % (lab(self.fn), self.name(l), ev.where))
                if not ok:
                    self.wrong(l, ev.where, "it is the derivative with respect to %s" % pretty(drv[0][2]))
            return key
        if l[0] in ("fld", "loc") and op in ("=", "init") and isinstance(ev.val, tuple):
            d = self.tan(key, ev.val)
            if d is not None and not (ev.val[0] in ("fld", "loc") and self.get(key, ev.val) is None):
                return self.put(key, l, "tan", ent(d))
            base, P = self.point(key, ev.val)
            if base[0] == "p" or P:
                return self.put(key, l, "pt", None, base, ent(P))
            return self.put(key, l, None)
        return key

    def perturb(self, key, v, i, op, ev, st):
        x = self.get(key, v)
        val = ev.val
        if x and x[1] == "pt":
            base, P = x[3], dict(x[4])
            k = (base, i)
            if op == "+=":
                P[k] = p_add(P.get(k, lit(0)), val)
            elif op == "-=":
                P[k] = p_add(P.get(k, lit(0)), val, -1)
            elif op == "=":
                P[k] = p_add(val, ("idx", base, i), -1)
            return self.put(key, v, "pt", x[2], base, ent(P))
        if v[0] == "p":
            return key
        if x is None or x[1] != "tan":
            if not mentions(i, lambda t: t[0] == "phi"):
                return key
            self.assumed.add(v)
        d = dict(x[2]) if x and x[1] == "tan" else {}
        if op == "+=":
            d[i] = p_add(d.get(i, lit(0)), val)
        elif op == "-=":
            d[i] = p_add(d.get(i, lit(0)), val, -1)
        else:
            d[i] = val
        if self.report:
            self.n += 1
        return self.put(key, v, "tan", ent(d))

    # ---------------------------------------------------------------- targets
    def container(self, l):
        t = l[2] if l[0] == "view" else l[1]
        return t, (l[3][0] if l[0] == "view" else l[2])

    def store(self, key, l, v, ev):
        if l[0] not in ("view", "idx"):
            if len(v[0]) == 1 and v[1] == lit(1):
                (q, P), c = list(v[0].items())[0]
                if c == lit(1):
                    return self.put(key, l, "pt", q, l, P)
            return self.put(key, l, "cmb", ent(v[0]), v[1])
        c, i = self.container(l)
        op = ev.op if ev.k == "W" else "="
        old = [x for x in key if x[0] == (c, i) and x[1] == "pend"]
        if op in ("+=", "-="):
            if not old:
                return key
            v = self.plus((dict(old[0][2]), old[0][3]), v, 1 if op == "+=" else -1)
        key = frozenset(x for x in key if x not in old)
        if not any(P for _, P in v[0]) and (v[1] == lit(1) and not mentions(i, lambda t: t[0] == "phi") or not v[0]):
            return key       # not a difference of perturbed evaluations
        if self.complete(c, i, v) is None:
            self.judge(c, i, v, ev)
            return key
        return key | {((c, i), "pend", ent(v[0]), v[1])}

    def divide(self, key, l, ev, op, at=None):
        out = key
        for x in key:
            if x[1] == "pend" and x[0][0] == l and (at is None or x[0][1] == at):
                n, d = self.factor(ev.val)
                if op == "*=":
                    n, d = d, n
                v = ({q: p_mul(c, d) for q, c in dict(x[2]).items()}, p_mul(x[3], n))
                self.judge(l, x[0][1], v, ev)
                out = out - {x}
                sp = {k[0] for _, P in v[0] for k, _ in P}
                if l[0] == "loc" and len(sp) == 1:
                    out = frozenset(y for y in out if not (y[0] == l and y[1] == "drv")) | {(l, "drv", sp.pop())}
        return out

    def name(self, c):
        return c[2] if c[0] in ("fld", "p") else c[3] if c[0] == "loc" else pretty(c)

    def spaces(self, c):
        """Which argument each index of the target belongs to."""
        n = self.name(c).rstrip("_")
        ps = [p["n"] for p in self.fn.params]
        ref = [j for j, p in enumerate(self.fn.params) if "Eigen::Ref<const" in p["t"]]
        if n in ("Jfirst", "Jsecond"):
            return [ref[0 if n == "Jfirst" else 1]] if len(ref) > 1 else [None]
        at = {"r": ref[0], "x": ref[0], "u": ref[-1]} if ref else {}
        suffix = re.sub(r"^d\w+?_d", "", n) if re.match(r"^d\w+?_d\w$", n) else n[1:]
        if SECOND.match(n):
            return [at.get(s) for s in n[1:3]]
        if len(suffix) == 1 and suffix in at and self.fn.sname == "calcDiff":
            return [at[suffix]]
        return [None]

    def coords(self, c, i):
        if isinstance(i, tuple) and i[0] == "pair":
            return list(i[1:3]) if SECOND.match(self.name(c)) else [i[2]]
        return [i]

    def expand(self, v):
        """Truncated Taylor expansion of a combination: {(): c0, (k,): c1, (k, l): c2 * 2}."""
        out = {}

        def add(m, c):
            out[m] = p_add(out.get(m, lit(0)), c)
        for (q, P), c in v[0].items():
            add((), c)
            for k, h in P:
                add((k,), p_mul(c, h))
                for k2, h2 in P:
                    add(tuple(sorted((k, k2), key=repr)), p_mul(c, p_mul(h, h2)))
        return {m: c for m, c in out.items() if c != lit(0)}

    def complete(self, c, i, v):
        """None when the quotient is a derivative; otherwise what is wrong."""
        if len({q for q, _ in v[0]}) != 1:
            return "values of different quantities are combined (%s)" % ", ".join(sorted({str(q) for q, _ in v[0]}))
        x = self.expand(v)
        S = v[1]
        co = self.coords(c, i)
        sp = self.spaces(c)
        if () in x:
            return "the nominal value is not subtracted"
        first = {m: h for m, h in x.items() if len(m) == 1}
        if len(co) == 1:
            if len(first) > 1:
                return "more than one coordinate is perturbed: %s" % ", ".join(sorted("%s[%s]" % (pretty(m[0][0]), idx(m[0][1])) for m in first))
            if not first:
                return "no coordinate is perturbed"
            (((s, k),), h), = first.items()
            if k != co[0]:
                return "coordinate %s is perturbed" % idx(k)
            if sp[0] is not None and s[0] == "p" and s[1] != sp[0]:
                return "a coordinate of %s is perturbed" % pretty(s)
            if h != S:
                return "the step applied is %s but the difference is divided by %s" % (pretty(h), pretty(S))
            return self.fresh(h)
        if first:
            return "first-order terms remain: %s" % ", ".join(sorted("%s[%s]" % (pretty(m[0][0]), idx(m[0][1])) for m in first))
        sec = {m: h for m, h in x.items() if len(m) == 2}
        if len(sec) != 1:
            return "the combination mixes %d second derivatives" % len(sec)
        ((a, b), h), = sec.items()
        want = sorted(zip(sp, co), key=repr)
        have = sorted([(s[1] if s[0] == "p" else None, k) for s, k in (a, b)], key=repr)
        # expand() counts every ordered pair, and the expansion halves them
        S2 = p_mul(lit(2), S)
        if [k for _, k in want] != [k for _, k in have] or any(w[0] is not None and h_[0] is not None and w[0] != h_[0] for w, h_ in zip(want, have)):
            return "it is the derivative with respect to %s" % ", ".join(idx(k) for _, k in have)
        if h != S2:
            return "the steps applied give %s/2 but the difference is divided by %s" % (pretty(h), pretty(S))
        return self.fresh(h)

    def fresh(self, h):
        for m in to_poly(h):
            for x in m:
                if self.step_name(x) and not (x[0] == "fld" and x[1] == ("this",)):
                    return "the step is %s as an earlier call left it" % pretty(x)
        return None

    def judge(self, c, i, v, ev):
        if not self.report:
            return
        self.quot += 1
        why = self.complete(c, i, v)
        self.rep.ob("difference quotient", why is None, "%s: %s at %s" % (lab(self.fn), self.name(c), ev.where))
        if why:
            self.wrong(c, ev.where, why)

    def wrong(self, c, where, why):
        self.rep.bad("%s/%d/%s" % (lab(self.fn), len(self.fn.params), self.name(c)), "%s (%s): the difference quotient stored in %s: %s" % (
            where, lab(self.fn), self.name(c), why))

    # ---------------------------------------------------------------- loops and exits
    def edge(self, key, term, truth, st, flow, node):
        h = self.tests.get(node.id)
        if h is None:
            return key
        hid, cont = h
        if truth != cont:
            # values local to the loop are dead: keep only what a later perturbation could meet
            return frozenset(x for x in key if not (
                x[1] in ("dat", "nd", "pt") and mentions(x, lambda t: t[0] == "phi" and t[1] == hid)))

        def old(i):
            return ("old", i) if isinstance(i, tuple) and i[0] != "old" and mentions(i, lambda t: t[0] == "phi" and t[1] == hid) else i

        def ren(P):
            d = {}
            for k, s in P:
                if isinstance(k, tuple) and len(k) == 2 and isinstance(k[0], tuple) and isinstance(k[1], tuple):
                    k = (k[0], old(k[1]))
                else:
                    k = old(k)
                d[k] = s
            return frozenset(d.items())
        out = set()
        for x in key:
            if x[1] == "tan":
                x = (x[0], "tan", frozenset((old(i), s) for i, s in x[2]))
            elif x[1] == "pt":
                x = x[:4] + (frozenset(((b, old(i)), s) for (b, i), s in x[4]),)
            elif x[1] in ("dat", "nd"):
                if x[1] == "dat" and mentions(x[0], lambda t: t[0] == "phi" and t[1] == hid):
                    continue
                P = frozenset(((b, old(i)), s) for (b, i), s in x[2])
                if x[1] == "nd" and P != x[2]:
                    continue
                x = x[:2] + (P,)
            out.add(x)
        return frozenset(out)

    def leave(self, kind, node, st, flow):
        if kind != "exit":
            return
        for x in st.key or ():
            if x[1] == "pend":
                c, i = x[0]
                if not any(k[1] for k, _ in x[2]) and x[3] == lit(1):
                    continue        # no perturbed evaluation and no division: not a quotient
                why = self.complete(c, i, (dict(x[2]), x[3])) or "?"
                self.rep.ob("difference quotient", False)
                self.wrong(c, "%s:%d" % (self.fn.file, self.fn.line), why)
            if x[1] == "tan" and x[0] in self.assumed:
                self.rep.ob("perturbation undone", not x[2], "%s: %s" % (lab(self.fn), pretty(x[0])))
                if x[2]:
                    self.rep.bad("%s/%d/left/%s" % (lab(self.fn), len(self.fn.params), pretty(x[0])),
                                 "%s:%d (%s): %s keeps a perturbation at %s that the next call takes for zero" % (
                                     self.fn.file, self.fn.line, lab(self.fn), pretty(x[0]), ", ".join(idx(i) for i, _ in x[2])))


def check(rep):
    p, mr = model.load()
    n = q = e = 0
    for cls in sorted(p.cls):
        if "NumDiff" not in cls or "Data" in cls:
            continue
        for f in model.own_methods(p, cls, "calcDiff") + model.own_methods(p, cls, "Jdiff") + model.own_methods(p, cls, "Jintegrate"):
            if f.body is None:
                continue
            pre = Flow(p, mr, f, cls, Policy(), None)
            tests = {}
            for h in pre.loops:
                lp = Loop(pre, h)
                if lp.test is not None:
                    cont = [lb for s, lb in lp.test.succ if s.id in lp.body]
                    tests[lp.test.id] = (h, cont[0][0] == "T")
            cl = Perturb(rep, f, tests)
            fl = Flow(p, mr, f, cls, Policy(), cl, pre=pre)
            cl.report = True
            fl.report()
            n += 1
            q += cl.quot
            if cl.quot:
                e += 1
            rep.ob("differentiating function", True, "%s: %d quotients" % (lab(f), cl.quot))
    rep.need("differentiating functions", n, 14)
    rep.need("functions with difference quotients", e, 12)
    rep.need("difference quotients", q, 40)
