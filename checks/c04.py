"""C04: wrong-sized arguments are rejected before anything is computed."""
import re
from sa import model
from sa.cfg import Policy
from sa.flow import THIS, Client, Flow, lit, mentions, p_add, p_mul, pretty
from sa.frontend import AnalysisBroken
from sa.summary import subst

RULE = ("Every entry point of the action, differential-action, activation, control-parametrization, actuation, squashing and state classes, "
        "and of the cost and constraint collections: on every path, each vector or matrix argument is compared with the size its role "
        "calls for, and a mismatch raises, before the argument is used; no output or data is written before the inputs are checked; "
        "and no argument is rejected for differing from any other size")
TECHNIQUE = "path-sensitive must-facts about the sizes of arguments, per entry point and class, with delegation through checked calls"
NOTE = ("Sizes come from the role of the argument (family, function, position), so a comparison with the wrong dimension is a violation. "
        "An argument the function never looks at (an unnamed one) needs no check. Assertions do not count: release builds drop them.")

NX, NDX, NU, NW, NR, NS, J = ("nx",), ("ndx",), ("nu",), ("nw",), ("nr",), ("ns",), ("ndx", "ndx")
XU = {"calc": {3: (None, NX, NU), 2: (None, NX)}, "calcDiff": {3: (None, NX, NU), 2: (None, NX)}}
FAMILIES = {
    "StateAbstract": {
        "diff": {3: (NX, NX, NDX)}, "integrate": {3: (NX, NDX, NX)}, "diff_dx": {2: (NX, NX)}, "integrate_x": {2: (NX, NDX)},
        "Jdiff": {5: (NX, NX, J, J)}, "Jintegrate": {6: (NX, NDX, J, J)}, "JintegrateTransport": {4: (NX, NDX, ("ndx",))},
        "Jdiff_Js": {3: (NX, NX)}, "Jintegrate_Js": {3: (NX, NDX)}, "set_lb": {1: (NX,)}, "set_ub": {1: (NX,)}},
    "ActionModelAbstract": dict(XU, quasiStatic={5: (None, NU, NX)}, quasiStatic_x={4: (None, NX)}, set_u_lb={1: (NU,)}, set_u_ub={1: (NU,)},
                                set_LQR={12: (("nx", "nx"), ("nx", "nu"), ("nx", "nx"), ("nu", "nu"), ("nx", "nu"), ("ng", "nx+nu"), ("nh", "nx+nu"),
                                              NX, NX, NU, ("ng",), ("nh",))}),
    "DifferentialActionModelAbstract": dict(XU, quasiStatic={5: (None, NU, NX)}, quasiStatic_x={4: (None, NX)}, set_u_lb={1: (NU,)}, set_u_ub={1: (NU,)},
                                            set_LQR={13: (("nq", "nq"), ("nq", "nq"), ("nq", "nu"), ("2*nq", "2*nq"), ("nu", "nu"), ("2*nq", "nu"),
                                                          ("ng", "2*nq+nu"), ("nh", "2*nq+nu"), ("nq",), ("2*nq",), NU, ("ng",), ("nh",))}),
    "ActivationModelAbstract": {"calc": {2: (None, NR)}, "calcDiff": {2: (None, NR)}},
    "ControlParametrizationModelAbstract": {
        "calc": {3: (None, None, NU)}, "calcDiff": {3: (None, None, NU)}, "params": {3: (None, None, NW)},
        "multiplyByJacobian": {4: (None, (None, "nw"), ("1.rows", "nu"))}, "multiplyJacobianTransposeBy": {4: (None, ("nw", None), ("nu", "1.cols"))},
        "convertBounds": {4: (NW, NW, NU, NU)}},
    "ActuationModelAbstract": dict(XU, commands={3: (None, NX, ("nv",))}, torqueTransform={3: (None, NX, NU)}),
    "SquashingModelAbstract": {"calc": {2: (None, NS)}, "calcDiff": {2: (None, NS)}},
    "ShootingProblem": {
        "calc": {2: (("T+1",), ("T",))}, "calcDiff": {2: (("T+1",), ("T",))}, "rollout": {2: (("T",), ("T+1",))}, "quasiStatic": {2: (("T",), ("T",))}, "set_x0": {1: (NX,)}},
    "CostModelSum": XU, "ConstraintModelManager": XU,
}
NAMES = ("nx", "ndx", "nu", "nw", "nr", "ns", "nq", "nv", "ng", "nh", "T")
DIM = {}
for d in NAMES:
    DIM[d + "_"] = DIM["get_" + d] = d


def sym(text):
    """The canonical term of a required dimension."""
    if re.match(r"\d+\.", text):
        i, q = text.split(".")
        return ("q", int(i), q)
    out = lit(0)
    for part in text.split("+"):
        k, _, n = part.rpartition("*")
        t = lit(int(n)) if n.isdigit() else ("p", 100, n)
        out = p_add(out, p_mul(lit(int(k)), t) if k else t)
    return out


def dim(t):
    """A term in canonical dimensions."""
    def fn(x):
        if x[0] == "unk" and len(x) == 3 and isinstance(x[2], tuple):
            x = x[2]
        q = size_of(x)
        if q:
            return ("q",) + q
        if x[0] == "fld":
            n, o = x[2], x[1]
        elif x[0] == "call" and not x[3]:
            if x[1] == "size" and x[2] is not None and x[2][0] == "fld" and x[2][2] == "x0_":
                return ("p", 100, "nx")         # the problem's own initial state; its constructor rejects any other size
            n, o = x[1], x[2]
        else:
            return None
        d = DIM.get(n)
        if d in ("nu", "nw", "nr", "ns", "ng", "nh") and o != THIS and not (o is not None and o[0] == "fld" and o[1] == THIS and o[2] == "model_"):
            return None
        return ("p", 100, d) if d else None
    return subst(t, fn)


def want(p, f, cls):
    """Required sizes of the parameters of an entry point."""
    for root, fns in FAMILIES.items():
        if root in p.cls and p.is_a(cls, root):
            w = fns.get(f.sname, {}).get(len(f.params))
            if w:
                return root, w + (None,) * (len(f.params) - len(w))
    return None


def size_of(x):
    """(parameter, which dimension) of a size query."""
    if x[0] == "unk" and len(x) == 3:
        x = x[2]
    if x[0] == "call" and x[1] in ("size", "rows", "cols") and x[2] is not None and x[2][0] == "p" and not x[3]:
        return x[2][1], "cols" if x[1] == "cols" else "rows"
    return None


def used(t, i):
    """Does the term look at the contents of parameter i?"""
    def fn(x):
        return ("lit", 0) if size_of(x) else None
    return mentions(subst(t, fn), lambda y: y[0] == "p" and y[1] == i)


class Checked(Client):
    maxkeys = 400

    def __init__(self, p, f, cls, req):
        self.p, self.f, self.cls = p, f, cls
        self.req = {i: r for i, r in enumerate(req) if r and f.params[i]["n"]}
        self.bad = {}

    def init(self, flow):
        return frozenset()

    def have(self, key, i):
        return ("all", i) in key or all(self.knows(key, i, q, r) for q, r in zip(("rows", "cols"), self.req[i]) if r)

    def knows(self, key, i, q, r):
        s = sym(r)
        return (i, q, s) in key or s[0] == "q" and (s[1], s[2], ("q", i, q)) in key

    def outp(self, i):
        return "const" not in self.f.params[i]["t"].split("Eigen::Ref")[-1].split("<", 1)[1][:8] and not self.f.params[i]["t"].startswith("const")

    def step(self, key, e, st, flow):
        if e.k in ("THROW", "RET"):
            return key
        args = [a for a in (e.args or ()) if isinstance(a, tuple)]
        if e.k == "C":
            for fid in e.impls or (e.id,):
                g = self.p.fns.get(fid)
                w = g and g.cls and want(self.p, g, g.cls)
                own = e.obj == THIS or e.obj is not None and e.obj[0] == "fld" and e.obj[1] == THIS and e.obj[2] in ("state_", "model_", "control_")
                if not w:
                    continue
                for j, a in enumerate(args):
                    if a[0] == "p" and a[1] in self.req and j < len(w[1]) and w[1][j] == self.req[a[1]] and \
                            (own or set(self.req[a[1]]) <= {"nx", "ndx"}):
                        key = key | {("all", a[1])}
        terms = [t for t in (e.loc, e.val, e.obj) if t is not None] + args
        for i in self.req:
            if self.have(key, i):
                continue
            if any(used(t, i) for t in terms):
                self.bad.setdefault(("used", i), e.where)
        if e.k == "W" and e.loc is not None and not e.op.startswith("arg:"):
            b = e.loc
            while b[0] in ("idx", "fld", "blk") and isinstance(b[1], tuple):
                b = b[1]
            if b[0] in ("p", "this") and e.op != "init":
                for i in self.req:
                    if not self.have(key, i) and not self.outp(i):
                        self.bad.setdefault(("late", i), e.where)
        return key

    def edge(self, key, term, truth, st, flow, node):
        t, v = term, truth
        while t[0] == "not":
            t, v = t[1], not v
        if t[0] == "cmp":
            for a, b in ((t[2], t[3]), (t[3], t[2])):
                s = size_of(a)
                if s and s[0] in self.req:
                    d = dim(b)
                    r = self.req[s[0]]
                    need = r[0] if s[1] == "rows" or len(r) == 1 else r[1]
                    if t[1] not in ("==", "!="):
                        # two bounds can pin the size down as well
                        rel = {"<": "<", "<=": "<=", ">": ">", ">=": ">="}.get(t[1], "<=>")
                        rel = rel if a is t[2] else rel.translate(str.maketrans("<>", "><"))
                        left = frozenset(c for c in "<=>" if (c in rel) == v)
                        left = left.intersection(*[x[4] for x in key if x[:4] == ("rel", s[0], s[1], d)])
                        key = key | {("rel", s[0], s[1], d, left)}
                        if left == {"="}:
                            key = key | {(s[0], s[1], d)}
                        continue
                    if v == (t[1] == "=="):
                        key = key | {(s[0], s[1], d)}
                    if d[0] != "q" and (not need or d != sym(need)):
                        key = key | {("odd", s[0], pretty(b)[:60])}
        for i in self.req:
            if not self.have(key, i) and used(term, i):
                self.bad.setdefault(("used", i), "%s:%s" % (node.frame.fn.file, getattr(node, "line", 0)))
        return key

    def leave(self, kind, node, st, flow):
        if kind == "exit":
            for i in self.req:
                if not self.have(st.key, i) and not self.outp(i):
                    self.bad.setdefault(("never", i), "%s:%s" % (self.f.file, self.f.line))
        else:
            for x in st.key:
                if x[0] == "odd" and not self.have(st.key, x[1]):
                    self.bad.setdefault(("odd", x[1], x[2]), "%s:%s" % (self.f.file, self.f.line))


def check(rep):
    p, mr = model.load()
    seen = set()
    n = 0
    for root, fns in FAMILIES.items():
        if root not in p.cls:
            raise AnalysisBroken("class %s has vanished" % root)
        for c in sorted(set(p.subclasses(root, False)) | {root}):
            for m in fns:
                for f in p.lookup(c, m):
                    if f.body is None or (f.id, c if f.cls == c else f.cls) in seen:
                        continue
                    w = want(p, f, c)
                    if not w or w[0] != root:
                        continue
                    seen.add((f.id, f.cls))
                    n += 1
                    cl = Checked(p, f, f.cls, w[1])
                    if not cl.req:
                        continue
                    Flow(p, mr, f, f.cls, Policy(keep=set(fns) | {"safe_diff"}), cl, None).report()
                    what = "%s::%s/%d" % (f.cls, m, len(f.params))
                    for i in cl.req:
                        b = sorted((k, x) for k, x in cl.bad.items() if k[1] == i)
                        name = f.params[i]["n"]
                        rep.ob("argument checked first", not b, "%s: %s is %s" % (what, name, " x ".join(x or "any" for x in cl.req[i])))
                        for k, x in b[:1]:
                            msg = {"used": "is used before its size is compared with %s", "late": "is checked only after something was written (it should be %s)",
                                   "never": "is not compared with %s on every path", "odd": "should be %s; it is compared with "}[k[0]] % " x ".join(x or "any" for x in cl.req[i])
                            rep.bad("%s: %s" % (what, name), "%s: argument %s of %s %s%s" % (x, name, what, msg, k[2] if len(k) > 2 else ""))
    rep.need("entry points", n, 60)
    rep.assume("size(), rows() and cols() are the sizes of the argument")
