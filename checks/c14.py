"""C14: a problem keeps every node's model and data paired."""
from sa import model
from sa.cfg import Policy
from sa.flow import (THIS, Client, Flow, base_chain, cmp_term, fld, is_num, lit, mentions, p_add, pretty, subterms)
from sa.horizon import NODE_STEPS, T, Lengths, Sweep, canon, family, ftype, indices, length
from sa.solvers import STEPS, cur

RULE = ("Every function of the shooting problem that stores a model into a slot stores, before it returns, a data object in the same slot "
        "that this very model created or recognised (checkData), after comparing the model's state dimensions with the problem's, keeps "
        "T_ equal to the number of models and raises the updated flag. Every evaluation in a sweep takes model, data, state and control "
        "of one node; quantities of different nodes meet only where the recursion says so (value function and predicted state of the next node).")
TECHNIQUE = "slot typestate over the registration functions and index-offset agreement of all per-node operands of one operation"
NOTE = "Decides pairing for every horizon length; that a model's createData builds the right kind of object is C19."

EVALS = {"calc", "calcDiff", "quasiStatic"}
NEXT = {"Vx_", "Vxx_"}          # value function: read one node ahead by the action-value function
EITHER = {"lambdas_", "ixu_"}   # quantities on the boundaries between nodes


def nm(c):
    return c[2] if c[0] in ("fld", "p") else c[3] if c[0] == "loc" else pretty(c)


def lab(f):
    return "%s::%s" % (f.cls, f.sname)


# ------------------------------------------------------------------ operands of one operation
class Operands(Client):
    split_bools = False

    def __init__(self, rep, p, lens):
        self.rep, self.p, self.lens = rep, p, lens
        self.n = self.e = 0

    def per_node(self, flow, st, c):
        n = length(flow, st, c, self.lens)
        return n if n is not None and not is_num(n) else None

    def place(self, flow, st, i):
        return self.sw.split(canon(flow, st, i, self.lens))

    def visit(self, node, st, evs, flow):
        for e in evs:
            if e.k == "C" and e.name in EVALS:
                self.evaluation(e, st, flow)
            elif e.k == "C" and e.name in NODE_STEPS and e.obj == THIS:
                self.evaluation(e, st, flow)
            self.operands(e, st, flow)

    def operands(self, e, st, flow):
        seen = []
        nxt = []
        for t in [e.loc, e.val, e.obj] + list(e.args or ()):
            if not isinstance(t, tuple):
                continue
            same = {x[1][1] for x in subterms(t) if x[0] == "fld" and x[2] in ("nx_", "ndx_") and fld(x[1]) == "state_"}
            for c, i in indices(t):
                n = self.per_node(flow, st, c)
                if n is not None and not (("idx", c, i) in same and is_num(self.place(flow, st, i)[1]) and self.place(flow, st, i)[0] is None):
                    seen.append((c, i, n, t is e.loc))
            for x in subterms(t):
                if x[0] == "fld" and x[2] == "xnext" and x[1][0] == "idx" and fld(x[1][1]) == "running_datas_":
                    nxt.append(x[1][2])
        base = [x for x in seen if x[3]] or seen[:1]
        for b in base[:1]:
            sb, ob = self.place(flow, st, b[1])
            for c, i, n, _ in seen:
                if c == b[0] and i == b[1] or c == b[0] and self.shift(e):
                    continue
                s, o = self.place(flow, st, i)
                self.n += 1
                if s != sb or s is False:
                    ok = s is False or sb is False or (s is not None and sb is not None) or self.ends(flow, st, b, (c, i, n)) \
                        or self.equal(flow, st, b[1], i)
                    d = None
                else:
                    d = p_add(o, ob, -1)
                    ok = self.allowed(b, (c, i, n), d, nxt) or s is None and self.ends(flow, st, b, (c, i, n))
                self.rep.ob("operands of one node", ok, "%s: %s with %s at %s" % (lab(flow.fn), nm(b[0]), nm(c), e.where))
                if not ok:
                    self.rep.bad("%s: %s meets %s of another node" % (lab(flow.fn), nm(b[0]), nm(c)),
                                 "%s: %s[%s] is combined with %s[%s]" % (e.where, nm(b[0]), pretty(b[1]), nm(c), pretty(i)))
        for j in nxt:
            sj, oj = self.place(flow, st, j)
            for c, i, n, _ in seen:
                if n == p_add(T, lit(1)) and self.vec(c, flow) and nm(c) not in EITHER:
                    s, o = self.place(flow, st, i)
                    if s != sj or s is False:
                        continue
                    ok = p_add(o, oj, -1) == lit(1)
                    self.rep.ob("predicted states", ok, "%s at %s" % (lab(flow.fn), e.where))
                    if not ok:
                        self.rep.bad("%s: predicted state meets %s of another node" % (lab(flow.fn), nm(c)),
                                     "%s: the state predicted by node %s belongs to node %s + 1, not to %s[%s]" %
                                     (e.where, pretty(j), pretty(j), nm(c), pretty(i)))

    def vec(self, c, flow):
        t = ftype(self.p, c) if c[0] == "fld" else flow.fn.params[c[1]]["t"] if c[0] == "p" else "Eigen"
        return "shared_ptr" not in t and "*" not in t

    def shift(self, e):
        return e.k == "W" and e.loc[0] == "idx" and e.val is not None and e.val[0] == "idx" and e.val[1] == e.loc[1]

    def equal(self, flow, st, a, b):
        a, b = self.cx(flow, st, a), self.cx(flow, st, b)
        return any(f[0] == "cmp" and f[1] == "==" and set(f[2:]) == {a, b} for f in st.facts)

    def cx(self, flow, st, t):
        return canon(flow, st, t, self.lens)

    def ends(self, flow, st, a, b):
        """Both are the last element of their container, or the first."""
        la, lb = canon(flow, st, a[1], self.lens), canon(flow, st, b[1], self.lens)
        last = lambda i, n: p_add(n, lit(-1)) == i
        return last(la, a[2]) and last(lb, b[2])

    def allowed(self, a, b, d, nxt):
        na, nb = nm(a[0]), nm(b[0])
        T1 = p_add(T, lit(1))
        if "running_models_" in (na, nb) and {a[2], b[2]} == {T, T1} and not ({na, nb} & (NEXT | EITHER | {"datas_"})):
            return d in ((lit(0), lit(1)) if na == "running_models_" else (lit(0), lit(-1)))
        if nxt and ({na, nb} & {"running_datas_", "running_models_"}):
            return is_num(d) and d[1] in (0, 1, -1)     # judged with the predicted state
        if nb in NEXT and na not in NEXT:
            if a[2] == T and self.action_value:
                return d == lit(1) or na in ("running_models_", "running_datas_") and d == lit(0)
            return is_num(d) and d[1] in ((0, 1) if a[2] == T else (0,))
        if na in EITHER or nb in EITHER:
            return is_num(d) and d[1] in (-1, 0, 1)
        if "datas_" in (na, nb) and na != nb and "running_models_" in (na, nb):
            return is_num(d) and abs(d[1]) <= 1          # Ipopt: the next node's variables
        return d == lit(0)

    def evaluation(self, e, st, flow):
        m, args = e.obj, list(e.args or ())
        node = None
        if e.name in NODE_STEPS:
            node = args[0] if args else None
            pairs = args[1:]
        elif m is not None and m[0] == "idx" and fld(m[1]) == "running_models_":
            node = m[2]
            pairs = args
        elif m is not None and fld(m) == "terminal_model_":
            node = T
            pairs = args
        if node is None:
            return
        self.e += 1
        want = self.place(flow, st, node)
        for k, a in enumerate(pairs):
            if not isinstance(a, tuple):
                continue
            r = a
            while r[0] in ("fld", "call", "deref", "elem", "view") and r[0] != "idx" and fld(r) not in ("terminal_data_", "terminal_model_") \
                    and len(r) > 1 and isinstance(r[1], tuple):
                r = r[1]
            bad = None
            if fld(r) in ("terminal_data_", "terminal_model_"):
                bad = None if node == T else "the terminal node's object"
            elif r[0] == "idx":
                c = r[1]
                if fld(c) in ("running_datas_", "running_models_") and node == T:
                    bad = "a running node's object"
                elif self.per_node(flow, st, c) is not None or c[0] in ("p", "fld"):
                    got = self.place(flow, st, r[2])
                    if got[0] is not False and want[0] is not False and got != want:
                        bad = "%s[%s]" % (nm(c), pretty(r[2]))
            first = k == 0 and e.name in EVALS
            if first and bad is None and not (r[0] == "idx" and fld(r[1]) == "running_datas_" or fld(r) == "terminal_data_"):
                bad = pretty(a)
            self.rep.ob("evaluations of one node", bad is None, "%s: %s at %s" % (lab(flow.fn), e.name, e.where))
            if bad:
                self.rep.bad("%s: %s of a node uses %s" % (lab(flow.fn), e.name, bad),
                             "%s: %s for node %s is given %s" % (e.where, e.name, pretty(node), bad))


# ------------------------------------------------------------------ registration
class Slots(Client):
    split_bools = False
    maxkeys = 64

    def __init__(self, rep, p, lens, fn):
        self.rep, self.p, self.lens, self.fn = rep, p, lens, fn
        self.n = 0
        self.body = {}            # loop head -> items its body adds

    def init(self, flow):
        return frozenset()

    def cx(self, flow, st, t):
        return canon(flow, st, t, self.lens)

    def slot(self, loc, flow, st):
        for f, k in (("running_models_", "M"), ("running_datas_", "D")):
            if loc == ("fld", THIS, f, "ShootingProblem"):
                return k, ("all",)
            if loc[0] == "idx" and loc[1] == ("fld", THIS, f, "ShootingProblem"):
                return k, ("at", self.cx(flow, st, loc[2]))
        if loc == ("fld", THIS, "terminal_model_", "ShootingProblem"):
            return "M", ("T",)
        if loc == ("fld", THIS, "terminal_data_", "ShootingProblem"):
            return "D", ("T",)
        return None, None

    def norm(self, t, flow, st):
        """Indices written with T."""
        if t[0] == "idx" and len(t) == 3:
            return ("idx", t[1], self.cx(flow, st, t[2]))
        if t[0] == "res":
            return ("res", t[2], self.norm(t[3], flow, st) if isinstance(t[3], tuple) else t[3])
        return t

    def step(self, key, ev, st, flow):
        new = self.step1(key, ev, st, flow)
        if new != key:
            self.seen(new - key)
        return new

    def seen(self, items):
        for x in items:
            for y in subterms(x):
                if y[0] == "phi" and y in self.sw.byphi:
                    self.body.setdefault(self.sw.byphi[y].head, set()).add(x)

    def step1(self, key, ev, st, flow):
        if ev.k == "W" and ev.loc is not None:
            k, s = self.slot(ev.loc, flow, st)
            if k and ev.val is not None:
                v = self.norm(ev.val, flow, st)
                if v[0] == "ctor" and not v[2]:
                    return key            # empty
                if ev.op not in ("=", "init"):
                    if v[0] == "args" or ev.op in (".resize", ".reserve", ".clear"):
                        if ev.op == ".push_back":
                            return key | {(k, ("pushed",), self.norm(ev.val[1], flow, st))}
                        return key
                    return key | {(k, s, ("?", ev.op))}
                key = frozenset(x for x in key if x[:2] != (k, s))
                if k == "D" and v[0] == "res" and v[1] == "createData":
                    for x in key:
                        if x[0] == "M" and x[1] == s and v[2] == self.own(s):
                            v = ("res", "createData", x[2])
                return key | {(k, s, v)}
            if ev.loc[0] == "loc" and ev.op == ".push_back" and ev.val is not None:
                return key | {("P", ev.loc, self.norm(ev.val[1], flow, st))}
            if ev.loc[0] == "idx" and ev.loc[1][0] == "loc" and ev.op == "=" and ev.val is not None:
                return key | {("P", ev.loc[1], self.norm(ev.val, flow, st))}
            if ev.loc == ("fld", THIS, "is_updated_", "ShootingProblem"):
                key = frozenset(x for x in key if x[0] != "U")
                return key | {("U", ev.val)}
        return key

    def own(self, s):
        m = ("fld", THIS, "running_models_", "ShootingProblem")
        return ("fld", THIS, "terminal_model_", "ShootingProblem") if s == ("T",) else ("idx", m, s[1]) if s[0] == "at" else None

    def edge(self, key, term, truth, st, flow, node):
        for l in self.sw.loops.values():
            if l.test is not None and l.test.id == node.id:
                inside = self.into(l, node, truth)
                if inside:
                    key = key | {("B", l.head)}
                elif ("B", l.head) not in key:
                    key = key | {("Z", l.head)}
        old = key
        for f, v in ((term, truth),):
            t = f
            tv = v
            while t[0] == "not":
                t, tv = t[1], not tv
            if t[0] == "res" and t[2] == "checkData":
                if tv:
                    key = key | {("V", self.norm(t[3], flow, st), self.norm(t[4][0], flow, st))}
            elif t[0] == "cmp" and (t[1] == "==" and tv or t[1] == "!=" and not tv):
                for a, b in ((t[2], t[3]), (t[3], t[2])):
                    if a[0] == "fld" and a[2] in ("nx_", "ndx_") and fld(a[1]) == "state_":
                        key = key | {("E", self.norm(a[1][1], flow, st), a[2], b)}
        self.seen(key - old)
        return key

    def into(self, l, node, truth):
        lab = ("T",) if truth else ("F",)
        return any(lbl == lab and s.id in self.sw.flow.loops[l.head] for s, lbl in node.succ)

    def loopof(self, i):
        s, off = self.sw.split(i)
        return (self.sw.byphi[s], off) if s and s in self.sw.byphi else (None, None)

    def covers(self, i, flow, src, first=0):
        l, off = self.loopof(i)
        if l is None:
            return False
        hs = next(iter(flow.ins.get(l.head, {}).values()))
        lo, hi = self.cx(flow, hs, l.lo), self.cx(flow, hs, l.hi)
        size = self.cx(flow, hs, ("call", "size", src, ()))
        m = ("fld", THIS, "running_models_", "ShootingProblem")
        tops = {p_add(x, lit(-1)) for x in (size, self.cx(flow, hs, cur(flow, hs, "T_")), T if src == m else size)}
        lo, hi = p_add(lo, off), p_add(hi, off)
        return is_num(lo) and lo[1] <= first and hi in tops

    def leave(self, kind, node, st, flow):
        if kind != "exit":
            return
        key = st.key
        for x in st.key:
            if x[0] == "Z":           # no node: what the loop does for every node holds vacuously
                key = key | self.body.get(x[1], set())
        M = [x for x in key if x[0] == "M"]
        D = [x for x in key if x[0] == "D"]
        V = [x for x in key if x[0] == "V"]
        E = [x for x in key if x[0] == "E"]
        P = [x for x in key if x[0] == "P"]
        f = lab(self.fn)
        RM, RD = ("fld", THIS, "running_models_", "ShootingProblem"), ("fld", THIS, "running_datas_", "ShootingProblem")
        used = set()

        def say(ok, what, key_, msg):
            self.n += 1
            self.rep.ob(what, ok, "%s: %s" % (f, key_))
            if not ok:
                self.rep.bad("%s: %s" % (f, key_), "%s: %s" % (self.fn.label, msg))

        def made(v, m):
            """v was created by m"""
            return v[0] == "res" and v[1] == "createData" and v[2] == m

        def elems(v, src):
            """idx(src, phi) or idx(running_models_, phi) created the element, for every node"""
            return v[0] == "res" and v[1] == "createData" and v[2][0] == "idx" and v[2][1] in (src, RM) and self.covers(v[2][2], flow, src)

        for _, s, src in M:
            good = False
            dims = True
            if s == ("all",):
                copied = src[0] == "fld" and src[2] == "running_models_" and src[1] != THIS
                for d in D:
                    v = d[2]
                    if d[1] == ("all",):
                        if copied and v == ("fld", src[1], "running_datas_", src[3]):
                            good = True
                        if v[0] == "loc" and any(x[1] == v and elems(x[2], src) for x in P):
                            good = True
                        if any(x[1][0] == "idx" and x[2][0] == "idx" and x[1][1] in (src, RM) and x[2][1] in (v, RD)
                               and x[1][2] == x[2][2] and self.covers(x[1][2], flow, src) for x in V):
                            good = True
                    elif d[1][0] in ("at", "pushed") and elems(v, src):
                        good = d[1][0] == "pushed" or v[2][2] == d[1][1]
                    if good:
                        used.add(d)
                        break
                if not copied:
                    for n in ("nx_", "ndx_"):
                        first = 1 if self.isfirst(flow, st, n, src, RM) else 0
                        dims = dims and any(x[2] == n and x[1][0] == "idx" and x[1][1] in (src, RM) and self.covers(x[1][2], flow, src, first) for x in E)
                tt = self.cx(flow, st, cur(flow, st, "T_"))
                sizes = [self.cx(flow, st, ("call", "size", src, ())), ("call", "size", src, ())]
                if copied:
                    sizes.append(("fld", src[1], "T_", "ShootingProblem"))
                rawT = cur(flow, st, "T_")
                say(rawT in sizes or tt in sizes and tt != T, "horizon lengths", "T_ differs from the number of models",
                    "T_ is left as %s while the models are %s" % (pretty(rawT), pretty(src)))
            elif s == ("T",) and src[0] == "fld" and src[2] == "terminal_model_":
                good = any(d[1] == s and d[2] == ("fld", src[1], "terminal_data_", src[3]) for d in D)
                used |= {d for d in D if d[1] == s}
            else:
                for d in D:
                    if d[1] != s:
                        continue
                    v = d[2]
                    if src[0] == "idx" and src[1] == RM and v == ("idx", RD, src[2]):
                        good = True
                        dims = None
                    elif made(v, src) or any(x[1] == src and x[2] == v for x in V):
                        good = True
                    if good:
                        used.add(d)
                if dims:
                    dims = all(any(x[1] == src and x[2] == n for x in E) for n in ("nx_", "ndx_"))
            w = "all nodes" if s == ("all",) else "terminal node" if s == ("T",) else "a node"
            say(good, "stored models", "model of %s without its own data" % w,
                "on some path the model of %s becomes %s but the data stored with it is neither created nor recognised by this model (%s)" %
                (w, pretty(src), ", ".join(pretty(d[2]) for d in D if d[1] == s or s == ("all",)) or "nothing stored"))
            if dims is not None:
                say(dims, "dimension checks", "state dimensions of the model of %s not compared" % w,
                    "%s becomes the model of %s without comparing its nx and ndx with the problem's" % (pretty(src), w))
        for d in D:
            # a data object moved from one node to another leaves its old node: something else is stored there
            if d[1][0] != "at" or d[2][0] != "idx" or d[2][1] != RD or d[2][2] == d[1][1]:
                continue
            good = any(x[1][0] == "at" and self.loopof(x[1][1])[0] is None and not (x[2][0] == "idx" and x[2][1] == RD) for x in D)
            say(good, "stored data", "one data object at two nodes",
                "on some path the data of node %s becomes that of node %s and nothing else is stored where it came from last: two nodes share one data object" %
                (pretty(d[2][2]), pretty(d[1][1])))
        if self.fn.sname == "allocateData":
            for d in D:
                used.add(d)
                m = self.own(d[1])
                good = m is not None and made(d[2], m) and (d[1] == ("T",) or self.covers(d[1][1], flow, RM)) \
                    or d[1] == ("pushed",) and elems(d[2], RM)
                say(good, "stored data", "data not created by its model", "%s is stored" % pretty(d[2]))
        for d in D:
            if d in used:
                continue
            m = self.own(d[1])
            good = m is not None and (made(d[2], m) or any(x[1] == m and x[2] == d[2] for x in V))
            say(good, "stored data", "data without its model", "data %s is stored without the model that goes with it" % pretty(d[2]))
        if (M or D) and not self.fn.rec.get("ctor") and self.fn.sname != "allocateData":
            u = [x for x in key if x[0] == "U"]
            say(bool(u) and all(x[1] == lit(True) or x[1] == ("lit", True) for x in u), "updated flags", "updated flag not raised",
                "a node is replaced but is_updated_ stays %s" % (pretty(u[0][1]) if u else "as it was"))

    def isfirst(self, flow, st, n, src, RM):
        v = cur(flow, st, n)
        return v[0] == "fld" and v[2] == n and fld(v[1]) == "state_" and v[1][1][0] == "idx" and v[1][1][1] in (src, RM) and v[1][1][2] == lit(0)


def check(rep):
    p, mr = model.load()
    lens = Lengths(p, mr)
    ops = Operands(rep, p, lens)
    for f in family(p):
        fl = Flow(p, mr, f, f.cls, Policy(keep=STEPS - {f.sname} | NODE_STEPS - {f.sname}), None, None)
        ops.sw = Sweep(fl, lens)
        ops.action_value = f.sname == "computeActionValueFunction"
        fl.client = ops
        fl.report()
    rep.need("operand pairs", ops.n, 150)
    rep.need("evaluations", ops.e, 40)
    sp = [f for f in family(p) if f.cls == "ShootingProblem"]
    nm_ = 0
    for f in sp:
        if not touches(f, p, mr):
            continue
        pol = Policy(keep=STEPS - {f.sname, "allocateData"})
        pre = Flow(p, mr, f, f.cls, pol, None, None)
        s = Slots(rep, p, lens, f)
        s.sw = Sweep(pre, lens)
        fl = Flow(p, mr, f, f.cls, pol, s, None, pre)
        s.sw.flow = fl
        fl.report()
        nm_ += s.n
    rep.need("registration obligations", nm_, 25)


def touches(f, p, mr):
    return True
