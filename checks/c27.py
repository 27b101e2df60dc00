"""C27: warm starts are validated and stored completely."""
from sa import model
from sa.cfg import Policy
from sa.flow import THIS, Client, Flow, fld, is_num, lit, p_add, pretty, subterms
from sa.horizon import T, Lengths, Sweep, canon
from sa.solvers import STEPS, cur, solver_classes

RULE = ("On every normal path of the warm-start functions of the solver, each given trajectory is either empty and every node gets the neutral "
        "state of its own model / a zero control of its own model's size, or has exactly one element per node, every one of which was compared "
        "with its node's dimension, and is stored whole; the feasibility flag becomes the given one. Nothing is stored before the last "
        "comparison that can reject. Every solve() hands its own warm-start arguments, unchanged, to this function before the first step.")
TECHNIQUE = "typestate over validation facts and stores, with loop coverage of the horizon, on every path of the warm-start functions"
NOTE = "Decides every warm start and horizon length; the content of the neutral state is the state manifold's business."

T1 = p_add(T, lit(1))
SPEC = {"setCandidate": [("xs_", 0, T1, "nx_"), ("us_", 1, T, "nu_")], "set_xs": [("xs_", 0, T1, "nx_")], "set_us": [("us_", 0, T, "nu_")]}


class Warm(Client):
    split_bools = False
    maxkeys = 96

    def __init__(self, rep, p, lens, fn, spec, flag):
        self.rep, self.p, self.lens, self.fn, self.spec, self.flag = rep, p, lens, fn, spec, flag
        self.body = {}
        self.n = 0

    def init(self, flow):
        return frozenset()

    def cx(self, flow, st, t):
        return self.sw.norm(canon(flow, st, t, self.lens))

    def dest(self, loc):
        for d, i, n, dim in self.spec:
            l = loc
            while l[0] in ("idx", "view"):
                l = l[1] if l[0] == "idx" else l[2]
            if l[0] == "fld" and l[1] == THIS and l[2] == d:
                return d
        return None

    def step(self, key, ev, st, flow):
        new = key
        if ev.k == "W" and ev.loc is not None:
            d = self.dest(ev.loc)
            if d and ev.op not in (".reserve",):
                new = new | {("stored",)}
                if ev.loc[0] == "fld":
                    new = frozenset(x for x in new if x[:2] != ("S", d)) | {("S", d, ("all",), ev.val, ev.op)}
                elif ev.loc[0] == "idx" and ev.loc[1][0] == "fld" and ev.op == "=":
                    new = new | {("S", d, self.cx(flow, st, ev.loc[2]), self.norm(ev.val, flow, st), "=")}
                elif ev.loc[0] == "idx" and ev.loc[1][0] == "fld" and ev.op == ".setZero" and len(ev.val) == 2:
                    new = new | {("S", d, self.cx(flow, st, ev.loc[2]), ("res", "Zero", None, (self.norm(ev.val[1], flow, st),)), "=")}
                else:
                    new = new | {("S", d, ("part",), ev.val, ev.op)}
            elif ev.loc[0] == "fld" and ev.loc[1] == THIS and ev.loc[2] == "is_feasible_":
                new = frozenset(x for x in new if x[0] != "flag") | {("flag", ev.val), ("stored",)}
        if ev.k == "THROW":
            ok = ("stored",) not in key
            self.n += 1
            self.rep.ob("rejections", ok, "%s at %s" % (flow.fn.label, ev.where))
            if not ok:
                self.rep.bad("%s: rejected after it stored something" % flow.fn.sname,
                             "%s rejects the warm start after part of it was stored (exception at %s)" % (flow.fn.label, ev.where))
        self.learn(new - key)
        return new

    def learn(self, items):
        for x in items:
            for y in subterms(x):
                if y[0] == "phi" and y in self.sw.byphi:
                    self.body.setdefault(self.sw.byphi[y].head, set()).add(x)

    def norm(self, t, flow, st):
        if t is None:
            return t
        if t[0] == "idx" and len(t) == 3:
            return ("idx", t[1], self.cx(flow, st, t[2]))
        if t[0] == "fld":
            return ("fld", self.norm(t[1], flow, st)) + t[2:]
        if t[0] in ("res", "call"):
            k = 2 if t[0] == "res" else 1
            return ("res", t[k], self.norm(t[k + 1], flow, st) if isinstance(t[k + 1], tuple) else t[k + 1],
                    tuple(self.norm(a, flow, st) for a in t[k + 2]))
        return t

    def edge(self, key, term, truth, st, flow, node):
        for l in self.sw.loops.values():
            if l.test is not None and l.test.id == node.id:
                lab = ("T",) if truth else ("F",)
                if any(lb == lab and s.id in self.sw.flow.loops[l.head] for s, lb in node.succ):
                    key = key | {("B", l.head)}
                elif ("B", l.head) not in key:
                    key = key | {("Z", l.head)}
        t, v = term, truth
        while t[0] == "not":
            t, v = t[1], not v
        if t[0] == "cmp" and (t[1] == "==" and v or t[1] == "!=" and not v):
            for a, b in ((t[2], t[3]), (t[3], t[2])):
                if a[0] == "call" and a[1] == "size" and a[2][0] == "idx" and a[2][1][0] == "p":
                    new = ("E", a[2][1][1], self.cx(flow, st, a[2][2]), self.norm(b, flow, st))
                    self.learn([new])
                    key = key | {new}
        return key

    # ---- coverage
    def cover(self, items, n, flow):
        """Do the index terms cover 0..n-1?"""
        need = lit(0)
        pts = set()
        rng = []
        for i in items:
            s, off = self.sw.split(i)
            if s is None:
                pts.add(off)
            elif s and s in self.sw.byphi:
                l = self.sw.byphi[s]
                if l.early:
                    continue
                hs = next(iter(flow.ins.get(l.head, {}).values()), None)
                if hs is None:
                    continue
                lo, hi = p_add(self.cx(flow, hs, l.lo), off), p_add(self.cx(flow, hs, l.hi), off)
                rng.append((lo, p_add(hi, lit(1))))
        for _ in range(8):
            if need == n:
                return True
            if need in pts:
                need = p_add(need, lit(1))
                continue
            for lo, hi in rng:
                d = p_add(need, lo, -1)
                if is_num(d) and d[1] >= 0 and hi != need:
                    e = p_add(hi, need, -1)
                    if not (is_num(e) and e[1] < 0):
                        need = hi
                        break
            else:
                return False
        return need == n

    def leave(self, kind, node, st, flow):
        if kind != "exit":
            return
        key = set(st.key)
        for x in st.key:
            if x[0] == "Z":
                key |= self.body.get(x[1], set())
        for d, pi, n, dim in self.spec:
            P = ("p", pi, self.fn.params[pi]["n"])
            sz = self.cx(flow, st, ("call", "size", P, ()))
            S = [x for x in key if x[0] == "S" and x[1] == d]
            E = [x for x in key if x[0] == "E" and x[1] == pi]
            empty = sz == lit(0)
            self.n += 1
            w = "%s %s" % (self.fn.sname, d)
            if not empty and sz != n:
                self.say(False, "lengths", w + ": length not compared",
                         "%s is accepted without having been compared with the number of nodes" % P[2])
                continue
            self.say(True, "lengths", "", "")
            whole = [x for x in S if x[2] == ("all",)]
            if not empty:
                good = [x[2] for x in E if self.dimok(x[2], x[3], dim)]
                self.say(self.cover(good, n, flow), "element sizes", w + ": element sizes not compared",
                         "an element of %s is accepted without being compared with the %s of its node" % (P[2], dim.strip("_")))
                ok = any(x[3] == P for x in whole) or \
                    self.cover([x[2] for x in S if x[3] == ("idx", P, x[2])], n, flow)
                ok = ok and all(x[3] == P for x in whole) and \
                    all(x[2] == ("all",) or x[3] == ("idx", P, x[2]) for x in S)
                self.say(ok, "stored trajectories", w + ": not stored whole",
                         "%s is accepted but %s becomes %s" % (P[2], d, "; ".join(pretty(x[3]) for x in S) or "nothing new"))
            else:
                good = [x[2] for x in S if x[2][0] not in ("all", "part") and self.neutral(x[2], x[3], dim)]
                ok = self.cover(good, n, flow) and len(good) == len(S)
                self.say(ok, "neutral trajectories", w + ": not neutral",
                         "%s is empty but %s becomes %s" % (P[2], d, "; ".join(pretty(x[3]) for x in S) or "nothing new"))
        if self.flag is not None:
            f = [x for x in key if x[0] == "flag"]
            P = ("p", self.flag, self.fn.params[self.flag]["n"])
            self.say([x[1] for x in f] == [P], "feasibility flags", "%s: feasibility flag" % self.fn.sname,
                     "the feasibility flag is %s, not the given one" % (pretty(f[0][1]) if f else "left as it was"))

    def say(self, ok, kind, key, msg):
        self.rep.ob(kind, ok, self.fn.label)
        if not ok:
            self.rep.bad(key, "%s: %s" % (self.fn.label, msg))

    def model_at(self, m, i):
        if m[0] == "idx" and fld(m[1]) == "running_models_":
            return m[2] == i
        return fld(m) == "terminal_model_" and i == T

    def dimok(self, i, b, dim):
        if b[0] != "fld" or b[2] != dim:
            return False
        if dim == "nu_":
            return self.model_at(b[1], i)
        if b[3] == "ShootingProblem":
            return True
        if fld(b[1]) != "state_":
            return False
        m = b[1][1]
        # the problem's own dimension is that of every node
        return self.model_at(m, i) or m[0] == "idx" and fld(m[1]) == "running_models_" and m[2] == lit(0)

    def neutral(self, i, v, dim):
        if v[0] != "res":
            return False
        if dim == "nu_":
            return v[1] == "Zero" and len(v[3]) == 1 and self.dimok(i, v[3][0], dim)
        return v[1] == "zero" and v[2] is not None and fld(v[2]) == "state_" and self.model_at(v[2][1], i)


class Hand(Client):
    """solve(): the warm start is handed over before the first step."""
    split_bools = False

    def __init__(self, rep, lens):
        self.rep, self.lens = rep, lens
        self.n = 0
        self.ok = True

    def init(self, flow):
        return "none"

    def step(self, key, ev, st, flow):
        if ev.k == "C" and ev.name == "setCandidate" and key == "none":
            P = [("p", i, flow.fn.params[i]["n"]) for i in (0, 1, 3)] if len(flow.fn.params) >= 4 else []
            good = list(ev.args) == P
            self.n += 1
            self.rep.ob("handed over", good, "%s at %s" % (flow.fn.label, ev.where))
            if not good:
                self.rep.bad("%s: warm start changed on the way" % flow.fn.cls,
                             "%s: the warm start is set from (%s) instead of the arguments of solve" % (ev.where, ", ".join(map(pretty, ev.args))))
            return "set"
        if key == "set" and ev.k == "W" and ev.loc is not None:
            l = ev.loc
            while l[0] in ("idx", "view"):
                l = l[1] if l[0] == "idx" else l[2]
            if l[0] == "fld" and l[1] == THIS and l[2] in ("xs_", "us_", "is_feasible_"):
                self.rep.ob("handed over", False)
                self.rep.bad("%s: warm start overwritten" % flow.fn.cls, "%s: %s is overwritten before the first step" % (ev.where, l[2]))
        if ev.k == "C" and ev.name in FIRST:
            ok = key != "none"
            self.rep.ob("handed over", ok)
            if not ok:
                self.rep.bad("%s: step before the warm start" % flow.fn.cls, "%s: %s runs before the warm start is set" % (ev.where, ev.name))
            return "run"
        if ev.k in ("X", "M") and ev.name in ("OptimizeTNLP", "ReOptimizeTNLP"):
            ok = key in ("set", "run", "ipopt")
            need = key == "ipopt"
            self.rep.ob("handed over", need)
            if not need:
                self.rep.bad("%s: optimizer without the warm start" % flow.fn.cls,
                             "%s: the optimizer starts before both trajectories of the candidate were handed to it" % ev.where)
            return "run"
        if ev.k == "C" and ev.name in ("set_xs", "set_us") and ev.obj is not None and fld(ev.obj) == "ipopt_iface_":
            want = cur(flow, st, ev.name[4:] + "_")
            good = key in ("set", "half_set_xs", "half_set_us") and len(ev.args) == 1 and fld(ev.args[0]) == ev.name[4:] + "_"
            self.n += 1
            self.rep.ob("handed over", good)
            if not good:
                self.rep.bad("%s: wrong %s for the optimizer" % (flow.fn.cls, ev.name[4:]), "%s: %s gets %s" % (ev.where, ev.name, pretty(ev.args[0])))
            if key == "set":
                return "half_" + ev.name
            if key.startswith("half") and key != "half_" + ev.name:
                return "ipopt"
        return key

    def leave(self, kind, node, st, flow):
        if kind == "exit":
            ok = st.key != "none"
            self.rep.ob("handed over", ok)
            if not ok:
                self.rep.bad("%s: solve without the warm start" % flow.fn.cls, "%s: a path returns without setting the warm start" % flow.fn.label)


FIRST = STEPS - {"setCandidate", "resizeData", "allocateData"}


def check(rep):
    p, mr = model.load()
    lens = Lengths(p, mr)
    n = 0
    for name, spec in SPEC.items():
        for c in ["SolverAbstract"] + [c for c in p.subclasses("SolverAbstract") if c != "SolverAbstract"]:
            fs = [f for f in p.fns.values() if f.cls == c and f.sname == name and f.body is not None]
            for f in fs:
                pol = Policy(keep=STEPS - {f.sname})
                pre = Flow(p, mr, f, f.cls, pol, None, None)
                s = Warm(rep, p, lens, f, spec, 2 if name == "setCandidate" else None)
                s.sw = Sweep(pre, lens)
                fl = Flow(p, mr, f, f.cls, pol, s, None, pre)
                s.sw.flow = fl
                fl.report()
                n += s.n
    rep.need("warm-start obligations", n, 12)
    m = 0
    for c in solver_classes(p):
        fs = p.lookup(c, "solve")
        if not fs or fs[0].body is None:
            continue
        h = Hand(rep, lens)
        fl = Flow(p, mr, fs[0], c, Policy(keep=STEPS - {"solve"}), h)
        fl.report()
        m += h.n
    rep.need("solve functions handing the warm start over", m, 8)
