"""C03: results never depend on what the data held before."""
import re
from sa import model
from sa.cfg import Policy
from sa.flow import THIS, Client, Flow, lit, mentions, pretty, subterms
from sa.frontend import AnalysisBroken
from sa.solvers import solver_classes
from sa.summary import subst

RULE = ("In every calc, calcDiff and similar evaluation of every model class, of the shooting problem and of the solvers' sweeps: each update in "
        "place of a quantity of the data (or of the solver) follows, on every path, a write in the same call that does not look at its old "
        "value; and every quantity of the data written on one normal path is written on all normal paths on which the model's "
        "configuration is the same")
TECHNIQUE = "must-overwrite dataflow per evaluation function, grouping exits by the decisions that depend on configuration only"
NOTE = ("Quantities one function leaves for another (calcDiff reading what calc wrote) are intended; staleness of those is C01's and C02's subject only "
        "insofar as a function accumulates into them. Constant entries set once by constructors are not results.")

EVAL = {"calc", "calcDiff", "commands", "torqueTransform", "params", "createData"}
MODELS = ("ActionModelAbstract", "DifferentialActionModelAbstract", "ActivationModelAbstract", "ActuationModelAbstract", "SquashingModelAbstract",
          "CostModelAbstract", "CostModelSum", "ConstraintModelAbstract", "ConstraintModelManager", "ResidualModelAbstract",
          "ControlParametrizationModelAbstract")
SWEEPS = ("calcDiff", "expectedImprovement", "stoppingCriteria", "computeDynamicFeasibility", "computeEqualityFeasibility",
          "computeInequalityFeasibility", "forwardPass", "backwardPass", "tryStep", "updateExpectedImprovement", "calcDir")
MODE_AT = {"Jintegrate": ({2: "first", 3: "second"}, 5), "multiplyByJacobian": ({2: None}, 3), "multiplyJacobianTransposeBy": ({2: None}, 3)}
INPLACE = {"JintegrateTransport": 2}
KEEP = {"integrate", "diff", "calc", "calcDiff", "multiplyByJacobian", "multiplyJacobianTransposeBy", "Jintegrate", "Jdiff",
        "JintegrateTransport", "params", "commands", "torqueTransform", "convertBounds", "solve", "safe_diff"}


def root_of(l):
    """(root, path) of a location; views close the path."""
    path = []
    while True:
        if l[0] == "view":
            path.append(("view", l[1], l[3]))
            l = l[2]
        elif l[0] == "idx":
            path.append(("idx", l[2]))
            l = l[1]
        elif l[0] == "fld":
            path.append(("fld", l[2]))
            l = l[1]
        elif l[0] == "unk" and len(l) == 3 and isinstance(l[2], tuple):
            l = l[2]
        elif l[0] in ("call", "res") and len(l) > 3 and isinstance(l[2], tuple):
            l = l[2]
        else:
            break
        if not isinstance(l, tuple):
            return None
    return l, tuple(reversed(path))


def of_loop(path, h):
    """Does the path name an element by the counter of loop h?"""
    return any(x[0] == "idx" and mentions(x[1], lambda t: t[0] == "phi" and t[1] == h) or x[0] == "view" and any(
        isinstance(a, tuple) and mentions(a, lambda t: t[0] == "phi" and t[1] == h) for a in x[2]) for x in path)


def counts(t, h):
    """Is the term about the counter of loop h itself?"""
    if t[0] == "phi":
        return t[1] == h
    if t[0] in ("idx", "fld", "call", "res", "view", "unk"):
        return False
    return any(counts(x, h) for x in t[1:] if isinstance(x, tuple) and x and isinstance(x[0], str)) or t[0] not in (
        "cmp", "not", "and", "or") and mentions(t, lambda x: x[0] == "phi" and x[1] == h)


def has_phi(path):
    return any(x[0] == "idx" and mentions(x[1], lambda t: t[0] == "phi") or x[0] == "view" and any(
        isinstance(a, tuple) and mentions(a, lambda t: t[0] == "phi") for a in x[2]) for x in path)


SIDES = [({"topRows", "bottomRows"}, "middleRows"), ({"leftCols", "rightCols"}, "middleCols"), ({"head", "tail"}, "segment")]


def covered(path, done):
    """Was this part overwritten?"""
    for k in range(len(path) + 1):
        if path[:k] in done:
            return True
        if k < len(path) and path[k][0] == "view" or k == len(path):
            # by its parts
            subs = [d[k] for d in done if len(d) == k + 1 and d[:k] == path[:k] and d[k][0] == "view"]
            names = {s[1] for s in subs}
            for ends, mid in SIDES:
                if ends <= names:
                    return True
            if k < len(path) and path[k][1] in ("topRows", "bottomRows"):
                # the left corner of a matrix with as many columns as controls
                c = path[k][1].replace("Rows", "LeftCorner")
                if any(s[1] == c and s[2][0] == path[k][2][0] and "nu" in pretty(s[2][1]) for s in subs):
                    return True
            if {"topLeftCorner", "topRightCorner", "bottomLeftCorner", "bottomRightCorner"} <= names:
                return True
    return False


class Stale(Client):
    maxkeys = 600

    def __init__(self, roots, members, mine):
        self.roots, self.members, self.mine = roots, members, mine
        self.bad, self.exits, self.acc = {}, [], set()
        self.pending, self.filled = [], {}
        self.watch = None

    def init(self, flow):
        return (frozenset(), frozenset(), frozenset())

    def path(self, l):
        r = root_of(l)
        if r is None:
            return None
        root, path = r
        if root[0] == "p" and root[1] in self.roots and path:
            return (("p", root[1]),) + path
        if self.members and root == THIS and path:
            return path
        return None

    def over(self, key, pa, zero=False):
        if self.watch is not None and pa[0] not in self.watch:
            return key
        done, dec, zs = key
        gone = frozenset(d for d in done if d[:len(pa)] == pa)
        return ((done - gone) | {pa}, dec, (zs - gone) | ({pa} if zero else set()))

    def need(self, key, pa, e, how):
        name = ".".join(x[1] if x[0] == "fld" else "[]" for x in pa if x[0] in ("fld", "idx"))
        self.acc.add((name, e.where))
        if not covered(pa, key[0]):
            idle = frozenset(t[1] for t, v in key[1] if t[0] == "ran" and not v)
            self.pending.append((name, e.where, how, pa, idle))

    def settle(self):
        """Updates not preceded by an overwrite; filling nothing when there is nothing to fill is fine."""
        for name, w, how, pa, idle in self.pending:
            if not any(covered(pa, self.filled.get(h, ())) for h in idle):
                self.bad.setdefault(name, (w, how))

    def step(self, key, e, st, flow):
        if key is None:
            return None
        if e.k == "C":
            modes = MODE_AT.get(e.name)
            if modes and e.args and len(e.args) > modes[1]:
                m = e.args[modes[1]]
                for i, comp in modes[0].items():
                    pa = self.path(e.args[i]) if isinstance(e.args[i], tuple) else None
                    if pa is None:
                        continue
                    jc = e.args[4] if e.name == "Jintegrate" else None
                    if comp == "first" and jc == lit(2) or comp == "second" and jc == lit(1):
                        continue
                    if m in (lit(1), lit(2)):
                        self.need(key, pa, e, "adds to it through %s" % e.name)
                    else:
                        key = self.over(key, pa)
                return key
            if e.name in INPLACE and e.args:
                pa = self.path(e.args[INPLACE[e.name]])
                if pa is not None:
                    self.need(key, pa, e, "transforms it in place through %s" % e.name)
                return key
            if e.name in EVAL and e.args:
                for a in e.args[:1]:
                    pa = self.path(a) if isinstance(a, tuple) else None
                    if pa is not None:
                        key = self.over(key, pa)
            return key
        if e.k != "W" or e.loc is None or e.op.startswith("arg:"):
            return key
        pa = self.path(e.loc)
        if pa is None:
            return key
        if e.op.startswith("out:"):
            n = e.op[4:]
            if n in MODE_AT or n in INPLACE:
                return key
            return self.over(key, pa)
        own = e.val is not None and mentions(e.val, lambda x: x == e.loc) and e.val != e.loc
        if e.op in ("+=", "-=", "*=", "/=") or e.op in ("++", "--") or e.op == "=" and own:
            self.need(key, pa, e, "updates it in place")
            return self.over(key, pa) if e.op == "=" else key
        if e.op in ("=", "init", ".setZero", ".setOnes", ".setConstant", ".setIdentity", ".fill", ".assign"):
            return self.over(key, pa, e.op == ".setZero" or e.val == lit(0))
        return key

    def edge(self, key, term, truth, st, flow, node):
        if key is None:
            return None
        done, dec, zero = key
        t, v = term, truth
        while t[0] == "not":
            t, v = t[1], not v
        for h, body in flow.loops.items():
            if node.id not in body:
                continue
            ins = [(s.id in body, lab[0] == "T") for s, lab in node.succ if lab]
            if len(ins) != 2 or ins[0][0] == ins[1][0] or node.kind != "rtest" and not counts(t, h):
                continue
            stay = [i for i, l in ins if l == truth] == [True]
            mine = frozenset(d for d in done if of_loop(d, h))
            dec = frozenset((x, y) for x, y in dec if not mentions(x, lambda z: z[0] == "phi" and z[1] == h))
            ran = ("ran", subst(t, lambda x: lit(0) if x[0] == "phi" and x[1] == h else None))
            inside = (("in", h), True)
            if stay:
                if (ran, False) in dec:
                    return None
                return (done - mine, dec | {(ran, True), inside}, zero - mine)
            # every element has been written
            full = frozenset(d[:k] for d in mine for k in range(1, len(d)) if of_loop((d[k],), h) and not of_loop(d[:k], h)
                             and k == len(d) - 1)
            self.filled.setdefault(ran[1], set()).update(full)
            if inside not in dec:
                if (ran, True) in dec:
                    return None
                dec = dec | {(ran, False)}
            return ((done - mine) | full, dec - {inside}, (zero - mine) | full)
        if t[0] == "cmp" and t[1] == "<" and t[2] == lit(0) or t[0] == "cmp" and t[1] == "!=":
            # dimensions are not negative
            t, v = ("cmp", "==", *((t[3], lit(0)) if t[1] == "<" else t[2:])), not v
        if self.members and not (t[0] == "cmp" and t[1] == "==" and lit(0) in t[2:]):
            return key
        if mentions(t, lambda x: x[0] in ("res", "loc", "unk", "p")) or self.members != mentions(t, lambda x: x[0] == "phi"):
            return key
        if (t, not v) in dec:
            return None
        return (done, dec | {(t, v)}, zero)

    def leave(self, kind, node, st, flow):
        if kind == "exit" and st.key is not None:
            self.exits.append(st.key)


class Updated(Client):
    """Members updated in place anywhere in a function."""
    def __init__(self, cl):
        self.cl, self.names = cl, set()

    def visit(self, node, st, evs, flow):
        for e in evs:
            ls = []
            if e.k == "W" and e.loc is not None and (e.op in ("+=", "-=", "*=", "/=", "++", "--") or e.op == "=" and e.val is not None and mentions(
                    e.val, lambda x: x == e.loc)):
                ls = [e.loc]
            elif e.k == "C" and (e.name in MODE_AT or e.name in INPLACE):
                ls = [a for a in e.args or () if isinstance(a, tuple)]
            for l in ls:
                pa = self.cl.path(l)
                if pa is not None:
                    self.names.add(pa[0])


def apart(c1, c2):
    """Can the two sets of decisions not be taken by one configuration?"""
    vals = {}
    for t, v in c1 | c2:
        if (t, not v) in c1 or (t, not v) in c2:
            return True
        if v and t[0] == "cmp" and t[1] == "==" and t[3][0] == "lit":
            if vals.setdefault(t[2], t[3]) != t[3]:
                return True
    return False


def stale(exits):
    """Paths written at one exit and not at another one of the same configuration."""
    out = set()
    for d1, c1, z1 in exits:
        for d2, c2, z2 in exits:
            todo = [pa for pa in d1 - z1 if not has_phi(pa) and pa not in out and not covered(pa, d2)]
            if todo and not apart(c1, c2):
                out |= set(todo)
    return sorted(out, key=repr)


def check(rep):
    p, mr = model.load()
    n = 0
    fs = []
    for root in MODELS:
        if root not in p.cls:
            raise AnalysisBroken("class %s has vanished" % root)
        for c in p.subclasses(root, False):
            for m in ("calc", "calcDiff", "commands", "torqueTransform", "params"):
                for f in p.lookup(c, m):
                    if f.body is not None and f.params and "Data" in f.params[0]["t"]:
                        fs.append((f, f.cls, {0}, False))
    for f in p.lookup("ShootingProblem", "calc") + p.lookup("ShootingProblem", "calcDiff"):
        fs.append((f, f.cls, set(), True))
    for c in solver_classes(p):
        for m in SWEEPS:
            for f in p.lookup(c, m):
                if f.body is not None:
                    fs.append((f, c, set(), True))
    seen = set()
    for f, c, roots, members in fs:
        if (f.id, f.cls if not members else c) in seen:
            continue
        seen.add((f.id, f.cls if not members else c))
        n += 1
        what = "%s::%s/%d" % (c, f.sname, len(f.params))
        cl = Stale(roots, members, c)
        pol = Policy(keep=KEEP - ({f.sname} if members else set()))
        pre = Flow(p, mr, f, c, pol)
        if members:
            w = Updated(cl)
            pre.client = w
            pre.report()
            pre.client = None
            if not w.names:
                continue
            cl.watch = w.names
        Flow(p, mr, f, c, pol, cl, None, pre).report()
        cl.settle()
        for name, (w, how) in sorted(cl.bad.items()):
            rep.bad("%s: %s" % (what, name), "%s: %s %s (%s) without having overwritten it first in the same call: the result depends on the previous one" % (w, what, how, name))
        if not members:
            for pa in stale(cl.exits):
                name = ".".join(x[1] if x[0] == "fld" else "[]" for x in pa if x[0] in ("fld", "idx"))
                rep.bad("%s: %s stale" % (what, name), "%s:%s: %s writes %s on some normal paths only; on the others the value of the previous call remains" % (f.file, f.line, what, name))
        for name, w in sorted(cl.acc):
            rep.ob("accumulation starts afresh", name not in cl.bad, "%s: %s at %s" % (what, name, w))
        rep.ob("written on every path", True, what)
    rep.need("evaluation functions", n, 80)
