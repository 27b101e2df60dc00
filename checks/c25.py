"""C25: solver buffers follow a problem whose dimensions change."""
import re
from sa import model
from sa.cfg import Policy
from sa.each import iterations
from sa.flow import THIS, Client, Flow, lit, mentions, p_add, pretty, subterms
from sa.horizon import is_T
from sa.solvers import STEPS, method, solver_classes
from sa.summary import shape, subst
from sa.frontend import AnalysisBroken

RULE = ("For every solver class (and the interior-point interface): each buffer whose size, as set by the constructor, depends on the "
        "control or constraint dimensions of the problem's models gets, in the class's resizeData, the size its constructor would give it, "
        "for every node and on every path; sums of dimensions start afresh there; a member that carries its own size is told the node's "
        "dimension before each use; and solve() asks whether the problem was updated, and resizes if so, before doing anything else")
TECHNIQUE = "symbolic buffer shapes from the constructors compared with the must-effects of every iteration of the resizing loops"
NOTE = ("State dimensions cannot change: node updates with other state dimensions are rejected (C14). Matrix decompositions take their "
        "size from the matrix they factorize. The update flag is consumed by the first solver that asks.")

DECOMP = re.compile(r"Eigen::(LLT|LDLT|FullPivLU|PartialPivLU|ColPivHouseholderQR|HouseholderQR|FullPivHouseholderQR|CompleteOrthogonal)")
SIZES = ("nu_", "nh_", "ng_", "ng_T_", "nh_T_", "nr_", "get_nu", "get_ng", "get_nh", "get_ng_T", "get_nh_T", "get_nr")


class Index:
    """The values that count the iterations of node loops."""
    def __init__(self, loops):
        self.loops = loops

    def __contains__(self, x):
        return x[0] == "phi" and any(x == l.phi or l.sibling(x) == lit(0) for l in self.loops)


def tidy(t, loops):
    """A term in the vocabulary shared by constructors and resizing functions."""
    def fn(x):
        if x[0] == "p" and x[2] == "problem" or x[0] == "fld" and x[2] == "problem_":
            return ("p", 0, "problem")
        if x[0] == "phi":
            if x in loops:
                return ("p", 1, "t")
            v = x[2]
            return ("p", 2, "sum " + (v[2] if v[0] == "fld" else "of dimensions"))
        if x[0] == "unk":
            return ("p", 3, "?")
        return None
    return subst(t, fn)


def varies(t):
    """A dimension of a model that may differ from node to node."""
    return any(x[0] == "p" and x[1] == 2 or (x[0] == "fld" and x[2] in SIZES or x[0] == "call" and x[1] in SIZES)
               and not mentions(x, lambda y: y[0] == "fld" and y[2] == "state_") and mentions(x, node_model) for x in subterms(t))


def node_model(x):
    return x[0] == "fld" and x[2] in ("running_models_", "terminal_model_")


def nodes(flow, loop):
    """T when the loop runs over all running nodes."""
    if loop.phi is not None and loop.lo == lit(0) and loop.hi is not None:
        h = p_add(loop.hi, lit(1))
        if is_T(h) or h[0] == "call" and h[1] == "size" and h[2] is not None and h[2][0] == "fld" and h[2][2] in ("running_models_", "running_datas_"):
            return ("T",)
    return None


def place(l, loops):
    """(member, which element) of a location of the object."""
    i = None
    if l[0] == "idx":
        l, i = l[1], l[2]
    if l[0] != "fld" or l[1] != THIS:
        return None
    if i is None:
        return (l[2], "")
    if i in loops:
        return (l[2], "each")
    if i[0] != "lit" and mentions(i, lambda x: is_T(x) or x[0] == "call" and x[1] == "size"):
        return (l[2], "last")
    return (l[2], pretty(i)[:30])


def sizing(e, loops):
    """(place, dimensions) an event gives a buffer."""
    if e.k == "W" and e.loc is not None and e.val is not None:
        pl = place(e.loc, loops)
        if not pl:
            return None
        if e.op in (".resize", ".conservativeResize", ".setZero"):
            a = tuple(e.val[1:]) if e.val[0] == "args" else ()
            return (pl, tuple(tidy(x, loops) for x in a)) if a else None
        if e.op in ("=", "init"):
            d = shape(e.val)
            if d is None and e.val[0] == "ctor" and e.val[2] and e.val[1].startswith("Eigen::"):
                d = e.val[2]
            if d is None and e.val[0] == "res" and len(e.val) > 4 and e.val[2] == "createData":
                d = e.val[4]
            if d is None:
                return None
            if len(d) == 2 and d[1] == lit(1):
                d = d[:1]
            return pl, tuple(tidy(x, loops) for x in d)
    if e.k in ("C", "M") and e.name in ("resize", "conservativeResize") and e.obj is not None and e.args:
        pl = place(e.obj, loops)
        return (pl, tuple(tidy(x, loops) for x in e.args)) if pl else None
    return None


class Outside(Client):
    """What happens on every path, loops aside; and everything that happens at all."""
    maxkeys = 64

    def __init__(self, loops):
        self.loops = loops
        self.all = {}
        self.must = None

    def init(self, flow):
        return frozenset()

    def step(self, key, e, st, flow):
        s = sizing(e, self.loops)
        if s:
            self.all.setdefault(s[0], []).append((s[1], e.where))
            if s[0][1] != "each":
                return frozenset(x for x in key if x[0] != s[0]) | {s}
        return key

    def leave(self, kind, node, st, flow):
        if kind == "exit":
            self.must = st.key if self.must is None else self.must & st.key


class Sums(Client):
    """Integer members that add up dimensions: their first write."""
    maxkeys = 64

    def __init__(self):
        self.sums, self.stale = {}, {}

    def init(self, flow):
        return frozenset()

    def step(self, key, e, st, flow):
        if e.k == "W" and e.loc is not None and e.loc[0] == "fld" and e.loc[1] == THIS and e.val is not None:
            f = e.loc[2]
            old = mentions(e.val, lambda x: x == e.loc) or e.op in ("+=", "-=")
            if mentions(e.val, node_model) and (e.op == "+=" or old):
                self.sums.setdefault(f, e.where)
            if old and f not in key:
                self.stale.setdefault(f, e.where)
            return key | {f} if not old else key
        return key


class Ask(Client):
    """solve(): has the problem been asked, and the answer followed?"""
    maxkeys = 64

    def __init__(self, final):
        self.final = final
        self.bad = {}
        self.asked = False

    def init(self, flow):
        return "unasked"

    def step(self, key, e, st, flow):
        if e.k == "C" and e.name == "is_updated":
            self.asked = True
            return "asked"
        if e.k == "C" and e.name == "resizeData" and e.obj == THIS:
            return "done" if e.virt or tuple(e.impls or ()) == (self.final,) else key
        if e.k == "C" and e.name in STEPS and e.obj in (THIS, None) and key != "done":
            self.bad.setdefault(key, (e.name, e.where))
        return key

    def edge(self, key, term, truth, st, flow, node):
        t, v = term, truth
        while t[0] == "not":
            t, v = t[1], not v
        if t[0] in ("res", "call") and "is_updated" in t[1:3]:
            return "updated" if v else "done"
        return key


def loops_of(p, mr, f, dyn, pol, branch=None):
    its = iterations(p, mr, f, dyn, pol, lambda e, phi, st, flow: sizing(e, Index([flow.client.loop])), None, branch, nodes)
    return its


def pol():
    return Policy(keep=STEPS - {"allocateData", "resizeData"} | {"createData", "zero", "resize"})


def sizes(p, mr, f, dyn):
    """({(member, element): dims}, must-set, places) of one function."""
    its = loops_of(p, mr, f, dyn, pol())
    phis = Index([l for l, c, i, w in its if c is not None])
    each, where = {}, {}
    for l, c, its_, w in its:
        if c is None:
            continue
        must = None
        for effs in its_:
            last = {}
            for pl, d in effs:
                last[pl] = d
            s = {(pl, d) for pl, d in last.items() if pl[1] == "each"}
            must = s if must is None else must & s
        for pl, d in must or ():
            each[pl] = d
        for (pl, d), x in w.items():
            where.setdefault(pl, x)
    o = Outside(phis)
    Flow(p, mr, f, dyn, pol(), o, None, Flow(p, mr, f, dyn, pol())).report()
    for pl, d in o.must or ():
        each[pl] = d
    for pl, xs in o.all.items():
        where.setdefault(pl, xs[0][1])
    return each, o.all, where


def merge(p, mr, fs, dyn):
    a, b, c = {}, {}, {}
    for f in fs:
        x, y, z = sizes(p, mr, f, dyn)
        a.update(x), b.update(y), c.update(z)
    return a, b, c


class Own(Client):
    """Members with a size of their own: told the dimension before they are used."""
    maxkeys = 64

    def __init__(self, names):
        self.names = names
        self.uses = []

    def init(self, flow):
        return frozenset()

    def step(self, key, e, st, flow):
        if e.k == "C" and e.obj is not None and e.obj[0] == "fld" and e.obj[1] == THIS and e.obj[2] in self.names:
            if e.name == self.names[e.obj[2]] and e.args:
                return frozenset(x for x in key if x[0] != e.obj[2]) | {(e.obj[2], tidy(e.args[0], ()))}
            if e.name == "solve":
                self.uses.append((e.obj[2], e.where, tuple(d for n, d in key if n == e.obj[2]), e.args))
        return key

    def edge(self, key, term, truth, st, flow, node):
        # a size found equal to the dimension needs no telling
        t, v = term, truth
        while t[0] == "not":
            t, v = t[1], not v
        if t[0] == "cmp" and t[1] in ("==", "!=") and v == (t[1] == "=="):
            for a, b in ((t[2], t[3]), (t[3], t[2])):
                if a[0] in ("fld", "unk", "call"):
                    x = a[2] if a[0] == "unk" else a
                    o = x[1] if x[0] == "fld" else x[2]
                    if o is not None and o[0] == "fld" and o[1] == THIS and o[2] in self.names and "nx" in (x[2] if x[0] == "fld" else x[1]):
                        return frozenset(y for y in key if y[0] != o[2]) | {(o[2], tidy(b, ()))}
        return key


def check(rep):
    p, mr = model.load()
    nbuf = nsolve = nown = 0
    for c in solver_classes(p) + ["IpoptInterface"]:
        if c not in p.cls:
            raise AnalysisBroken("class %s has vanished" % c)
        ctors = [k for k in p.ctors(c) if k.params and k.body is not None and k.params[0]["n"] == "problem" or k.params and "ShootingProblem" in k.params[0]["t"]]
        res = p.lookup(c, "resizeData")
        if not ctors or not res:
            raise AnalysisBroken("%s has no constructor from a problem, or no resizeData" % c)
        want, allc, wherec = merge(p, mr, ctors, c)
        have, allr, wherer = merge(p, mr, res[:1], c)
        fields = p.fields_of(c)
        for pl, d in sorted(want.items(), key=repr):
            if not any(varies(x) for x in d):
                continue
            if DECOMP.search(fields[pl[0]][0].get("t", "")) if pl[0] in fields else False:
                continue
            if fields.get(pl[0]) and not re.search(r"Eigen::|shared_ptr|SmartPtr", fields[pl[0]][0].get("t", "")):
                continue
            nbuf += 1
            ok = have.get(pl) == d
            rep.ob("buffer follows the dimensions", ok, "%s: %s of %s" % (c, pl[0], " x ".join(pretty(x)[-30:] for x in d)))
            if not ok:
                el = {"each": " of every node", "last": " of the last node"}.get(pl[1], "")
                got = allr.get(pl)
                rep.bad("%s: %s%s" % (c, pl[0], el), "%s: %s%s of %s is sized %s by the constructor; resizeData %s" % (
                    wherer.get(pl) or "%s:%s" % (res[0].file, res[0].line), pl[0], el, c, " x ".join(pretty(x) for x in d),
                    "leaves it as it was" if not got else "gives it %s, or not on every path" % " x ".join(pretty(x)[:60] for x in got[-1][0])))
        # sums of dimensions
        s0 = Sums()
        for f in ctors:
            Flow(p, mr, f, c, pol(), s0, None, Flow(p, mr, f, c, pol())).report()
        s1 = Sums()
        Flow(p, mr, res[0], c, pol(), s1, None, Flow(p, mr, res[0], c, pol())).report()
        for f, w in sorted(s0.sums.items()):
            ok = f in s1.sums and f not in s1.stale
            rep.ob("sum of dimensions starts afresh", ok, "%s: %s" % (c, f))
            if not ok:
                rep.bad("%s: sum %s" % (c, f), "%s: %s of %s adds up dimensions of the nodes; resizeData %s" % (
                    s1.stale.get(f, w), f, c, "adds to the sum of the previous problem" if f in s1.stale else "keeps the sum of the previous problem"))
        if c == "IpoptInterface":
            continue
        # members with a size of their own
        names = {}
        for n, (r, o) in fields.items():
            k = re.sub(r"^crocoddyl::", "", r.get("t", ""))
            if k in p.cls and p.lookup(k, "set_nx") and p.lookup(k, "solve"):
                names[n] = "set_nx"
        for f in {g.id: g for m in ("computeGains", "backwardPass", "computeDirection") for g in p.lookup(c, m)}.values() if names else ():
            o = Own(names)
            Flow(p, mr, f, c, Policy(keep=STEPS | {"solve", "set_nx"}), o, None).report()
            for n, w, told, args in o.uses:
                nown += 1
                node = [x for a in args for x in subterms(a) if x[0] == "idx" and x[1][0] == "fld" and x[1][1] == THIS]
                ok = bool(told) and all(varies(d) and any(mentions(d, lambda y: y == ("p", 1, "t") or y == tidy(x[2], ())) for x in node) for d in told)
                rep.ob("sized member told the dimension", ok, "%s: %s at %s" % (c, n, w))
                if not ok:
                    rep.bad("%s: %s" % (c, n), "%s: %s of %s is used for a node without having been given that node's dimension (it keeps the one of the constructor)" % (w, n, c))
        # the update is asked for first
        f = p.lookup(c, "solve")[0]
        a = Ask(res[0].id)
        Flow(p, mr, f, c, Policy(keep=STEPS | {"is_updated"}), a, None).report()
        nsolve += 1
        ok = a.asked and not a.bad
        rep.ob("solve resizes an updated problem first", ok, "%s::solve" % c)
        if not ok:
            why = "never asks whether the problem was updated" if not a.asked else "calls %s on a path where an updated problem has not been resized for" % sorted(a.bad.values())[0][0]
            rep.bad("%s::solve update" % c, "%s: %s::solve %s" % (sorted(a.bad.values())[0][1] if a.bad else "%s:%s" % (f.file, f.line), c, why))
    # buffers of the helpers that are told a dimension
    for c, setter in (("BoxQP", "set_nx"), ("IpoptInterfaceData", "resize")):
        fs = p.lookup(c, setter)
        ks = [k for k in p.ctors(c) if k.body is not None and k.params and "unsigned long" in k.params[0]["t"]]
        if not fs or not ks:
            raise AnalysisBroken("%s::%s or the constructor of %s has vanished" % (c, setter, c))
        want, _, _ = merge(p, mr, ks, c)
        have, allr, wherer = merge(p, mr, fs[:1], c)
        pos = lambda d: tuple(subst(x, lambda y: ("p", y[1], "") if y[0] == "p" else ("p", 0, "") if c == "BoxQP" and y[0] == "fld" and y[2] == "nx_" else None)
                              for x in d)
        for pl, d in sorted(want.items(), key=repr):
            if not any(x[0] == "p" or mentions(x, lambda y: y[0] == "p" or y[0] == "fld" and y[2] == "nx_") for x in d):
                continue
            nbuf += 1
            ok = pl in have and pos(have[pl]) == pos(d)
            rep.ob("buffer follows the dimensions", ok, "%s: %s" % (c, pl[0]))
            if not ok:
                rep.bad("%s: %s" % (c, pl[0]), "%s: %s of %s is sized %s by the constructor; %s %s" % (
                    wherer.get(pl) or "%s:%s" % (fs[0].file, fs[0].line), pl[0], c, " x ".join(pretty(x) for x in d), setter,
                    "leaves it as it was" if pl not in allr else "gives it another size, or not on every path"))
    rep.need("buffers", nbuf, 60)
    rep.need("solve functions", nsolve, 6)
    rep.need("uses of sized members", nown, 2)
