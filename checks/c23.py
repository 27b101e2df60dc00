"""C23: setters and getters agree."""
import re
from sa import model
from sa.cfg import Policy
from sa.flow import THIS, Client, Flow, canon, fld, lit, mentions, pretty, subterms
from sa.prog import walk
from sa.summary import Summary, equal, feasible, fld_of, run, strip, subst
from sa.summary import summary as plain
from sa.frontend import AnalysisBroken

RULE = ("After a setter, the getter of the same name returns what was given, on every path that does not throw; a setter "
        "changes no member another setter sets; whatever a constructor or setter computes from a member is recomputed by every setter "
        "of that member; an argument named after a member is what that member gets; a getter does not return another member of the "
        "same type than the one it is named after; and a stored setting is read by something other than its own accessors")
TECHNIQUE = "symbolic end-of-call summaries of every setter, getter and constructor, compared with each other; dead-setting query over the call and member-access graph"
NOTE = ("Values are compared as terms, so the guarantee is about what is stored and returned, not about what an algorithm then does "
        "with it. Setters with one argument; classes of the core library (multibody and bindings are not built here).")


class Ret(Client):
    split_bools = False
    maxkeys = 64

    def __init__(self):
        self.vals = []

    def init(self, flow):
        return None

    def step(self, key, e, st, flow):
        if e.k == "RET" and e.val is not None:
            return strip(e.val)
        return key

    def leave(self, kind, node, st, flow):
        if kind == "exit" and st.key is not None and (st.key, st.facts) not in self.vals:
            self.vals.append((st.key, frozenset(map(strip, st.facts))))


class Through(Summary):
    """Also follows a setter into the setter of a member object it hands its argument on to."""

    def __init__(self, p, mr):
        Summary.__init__(self)
        self.p, self.mr = p, mr

    def step(self, key, e, st, flow):
        if e.k == "C" and e.name and e.name.startswith("set_") and e.obj is not None and e.obj[0] == "fld" and len(e.args) == 1:
            f = self.p.fns.get(e.id)
            if f is not None and f.body is not None and f.cls:
                ex = [E for E, facts in plain(self.p, self.mr, f, f.cls)]
                d = self.decode(key)
                for m in {k for E in ex for k, v in E.items() if k[0] != "sub" and v == P0(f)}:
                    if all(E.get(m) == P0(f) for E in ex):
                        d[("sub", ("fld", e.obj, m[1], m[0]))] = e.args[0]
                return self.code(d)
        return Summary.step(self, key, e, st, flow)


CACHE = {}


def summary(p, mr, fn, dyn):
    if (fn.id, dyn) not in CACHE:
        CACHE[(fn.id, dyn)] = run(p, mr, fn, dyn, Through(p, mr))
    return CACHE[(fn.id, dyn)]


def returned(p, mr, g, dyn):
    r = Ret()
    Flow(p, mr, g, dyn, Policy(keep=set()), r, None).report()
    return r.vals


def final(p, cls, name, n):
    for c in p.linear_bases(cls):
        fs = [f for f in p.fns.values() if f.cls == c and f.sname == name and f.body is not None and len(f.params) == n]
        if fs:
            return fs[0]
    return None


def simple(t):
    return t[0] in ("p", "lit") or t[0] == "fld" and simple(t[1]) or t == THIS


def classes(p):
    return sorted(c for c in p.cls if "<" not in c and not c.endswith("Base") and p.cls[c].fields is not None)


def at(t, E):
    return subst(t, lambda x: E.get(("sub", x)) if ("sub", x) in E else E.get((x[3], x[2])) if x[0] == "fld" and x[1] == THIS else None)


def check(rep):
    p, mr = model.load()
    done = set()
    n = 0
    for cls in classes(p):
        lin = p.linear_bases(cls)
        names = sorted({f.sname for f in p.fns.values() if f.cls in lin and f.sname.startswith("set_") and len(f.params) == 1 and f.body is not None})
        setters = [x for x in (final(p, cls, s, 1) for s in names) if x is not None]
        for S in setters:
            G = final(p, cls, "get_" + S.sname[4:], 0)
            if (S.id, G and G.id) in done:
                continue
            done.add((S.id, G and G.id))
            n += 1
            if G is not None and (cls, S.sname) not in FIXED:
                readback(rep, p, mr, cls, S, G)
            alone(rep, p, mr, cls, S, [T for T in setters if T is not S])
            caches(rep, p, mr, cls, S)
    rep.need("setters", n, 100)
    named(rep, p, mr)
    getters(rep, p, mr)
    used(rep, p, mr)


def P0(S):
    return ("p", 0, S.params[0]["n"])


def readback(rep, p, mr, cls, S, G):
    what = "%s::%s" % (cls, S.sname)
    res = []
    for E, mf in summary(p, mr, S, cls):
        for v, gf in returned(p, mr, G, cls):
            gf2 = frozenset(at(x, E) for x in gf)
            if feasible(gf2, mf):
                got = at(v, E)
                res.append((equal(got, P0(S), mf | gf2), got))
    bad = [g for ok, g in res if not ok]
    rep.ob("read back", bool(res) and not bad, what)
    if bad or not res:
        rep.bad("%s: read back" % what, "%s:%s: after %s(%s) the matching %s returns %s" %
                (S.file, S.line, what, S.params[0]["n"], G.sname, ", ".join(sorted({pretty(x)[:120] for x in bad})) or "nothing"))


def stores(p, mr, cls, S):
    """Members a setter writes, as {member: values}."""
    out = {}
    for E, mf in summary(p, mr, S, cls):
        for k, v in E.items():
            if k[0] != "sub" and v != fld_of(k):
                out.setdefault(k, set()).add(v)
    return out


def alone(rep, p, mr, cls, S, others):
    what = "%s::%s" % (cls, S.sname)
    mine = stores(p, mr, cls, S)
    own = {k for k, vs in mine.items() if P0(S) in vs}
    G = final(p, cls, "get_" + S.sname[4:], 0)
    if G is not None:
        shown = {(v[3], v[2]) for v, facts in returned(p, mr, G, cls) if v[0] == "fld" and v[1] == THIS}
        own = own & shown or own
    for T in others:
        if (S.cls, S.sname) in REPLACES | COMBINED:
            continue
        theirs = {k for k, vs in stores(p, mr, cls, T).items() if P0(T) in vs}
        if theirs & own:
            continue            # two names of one setting
        for k in sorted(theirs & set(mine)):
            rep.bad("%s: alters %s" % (what, k[1]), "%s:%s: %s also changes %s, which %s sets (to %s)" %
                    (S.file, S.line, what, k[1], T.sname, ", ".join(sorted(pretty(v)[:100] for v in mine[k]))))


# replacing the differential model replaces the limits taken over from it
REPLACES = {("IntegratedActionModelAbstract", "set_differential")}
# one name for two settings
COMBINED = {("SolverDDP", "set_regfactor")}

DIMS = {"rows", "cols", "size"}


def by_value(v, src):
    """Whether the entries of a source, not only its sizes, enter the value."""
    def gone(x):
        if x[0] == "call" and x[1] in DIMS:
            return ("dim",)
        if x[0] in ("call", "res") and re.match(r"get_n\w*$", str(x[1] if x[0] == "call" else x[2])):
            return ("dim",)
        if x[0] == "fld" and re.match(r"n\w*_(T_)?$", x[2]) and x not in src:
            return ("dim",)
        return None
    return mentions(subst(v, gone), lambda x: x in src)


def caches(rep, p, mr, cls, S):
    """What is computed from a setting is recomputed when the setting changes."""
    what = "%s::%s" % (cls, S.sname)
    mine = stores(p, mr, cls, S)
    own = {k for k, vs in mine.items() if P0(S) in vs}
    if not own:
        return
    dep = {}
    types = p.fields_of(cls)
    for M in [f for f in p.ctors(cls) if f.body is not None and not f.rec.get("copy")] + \
            sorted((f for f in p.fns.values() if f.cls in p.linear_bases(cls) and f.sname.startswith("set_") and f.body is not None and f.params),
                   key=lambda f: (f.file, f.line)):
        for E, mf in summary(p, mr, M, cls):
            for F in own:
                src = {fld_of(F)} | ({E[F]} if F in E and (E[F][0] == "p" or E[F][0] in ("call", "res") and types[F[1]][0].get("t") in ("double", "float")) else set())
                for D, v in E.items():
                    if D[0] != "sub" and D != F and not simple(v) and by_value(v, src):
                        dep.setdefault((F, D), M)
    for (F, D), M in sorted(dep.items()):
        for E, mf in summary(p, mr, S, cls):
            if E.get(F, fld_of(F)) == fld_of(F):
                continue
            ok = D in E
            rep.ob("recomputed", ok, "%s: %s" % (what, D[1]))
            if not ok:
                rep.bad("%s: stale %s" % (what, D[1]), "%s:%s: %s changes %s but has a path that leaves %s, which %s computes from it, as it was" %
                        (S.file, S.line, what, F[1], D[1], "the constructor" if M.rec.get("ctor") else M.sname))


# the thread count is fixed when the library is built without multithreading
FIXED = {("ShootingProblem", "set_nthreads")}


def named(rep, p, mr):
    """Arguments named after a member end up in that member."""
    n = 0
    for f in sorted((f for f in p.fns.values() if f.cls and f.body is not None and f.params and (f.rec.get("ctor") or f.sname.startswith("set_"))),
                    key=lambda f: (f.file, f.line, f.id)):
        if "<" in f.cls or f.rec.get("copy") or (f.cls, f.sname) in FIXED or f.cls == "Exception":
            continue
        fs = p.fields_of(f.cls)
        ps = {q["n"]: i for i, q in enumerate(f.params) if q["n"]}
        kept = {}
        what = "%s::%s" % (f.cls, f.cls if f.rec.get("ctor") else f.sname)
        es = summary(p, mr, f, f.cls)
        for E, mf in es:
            for k, v in E.items():
                if k[0] == "sub":
                    continue
                b = k[1].rstrip("_")
                if v[0] == "p" and b in ps and v[2] != b:
                    rep.bad("%s: %s" % (what, k[1]), "%s:%s: %s stores its argument %s in %s although it has an argument %s" %
                            (f.file, f.line, what, v[2], k[1], b))
            for q in ps:
                m = q + "_" if q + "_" in fs else q if q in fs else None
                if m:
                    n += 1
                    kept.setdefault((q, m), []).append(any(mentions(v, lambda x: x[0] == "p" and x[2] == q) for k, v in E.items() if k[1] == m or k[0] == "sub" and k[1][0] == "fld" and k[1][2] == m))
        for (q, m), oks in sorted(kept.items()):
            rep.ob("argument stored", any(oks), "%s: %s" % (what, q))
            if not any(oks):
                rep.bad("%s: %s dropped" % (what, q), "%s:%s: %s never stores its argument %s in %s" % (f.file, f.line, what, q, m))
    rep.need("named arguments", n, 100)


def getters(rep, p, mr):
    """A getter returns the member it is named after, not a neighbour of the same type."""
    n = 0
    for f in sorted((f for f in p.fns.values() if f.cls and f.body is not None and f.sname.startswith("get_") and not f.params),
                    key=lambda f: (f.file, f.line, f.id)):
        if "<" in f.cls:
            continue
        fs = p.fields_of(f.cls)
        m = f.sname[4:] + "_" if f.sname[4:] + "_" in fs else f.sname[4:]
        if m not in fs or final(p, f.cls, "set_" + f.sname[4:], 1) is not None:
            continue            # a getter with a setter is read back instead
        vals = returned(p, mr, f, f.cls)
        n += 1
        wrong = sorted({v[2] for v, facts in vals if v[0] == "fld" and v[1] == THIS and v[2] != m and v[2] in fs and fs[v[2]][0].get("t") == fs[m][0].get("t")})
        what = "%s::%s" % (f.cls, f.sname)
        rep.ob("getter", not wrong, what)
        if wrong:
            rep.bad("%s: returns %s" % (what, wrong[0]), "%s:%s: %s returns %s although the class has %s" % (f.file, f.line, what, wrong[0], m))
    rep.need("getters named after a member", n, 100)


# settings nothing in the library reads, on purpose
INERT = {("SolverAbstract", "set_th_gaptol"): "threshold kept for user-defined stopping rules",
         ("SquashingModelAbstract", "set_s_lb"): "informational limits", ("SquashingModelAbstract", "set_s_ub"): "informational limits"}


ACCESS = ("get_", "set_")


def accessor(f):
    return f.sname.startswith(ACCESS) or f.sname in ("print", "cast", "<ctor>", "operator=", "operator<<") or bool(f.rec.get("ctor")) or bool(f.rec.get("dtor"))


def used(rep, p, mr):
    """A setting is read by something other than its own accessors."""
    read, calls = set(), set()
    for f in p.fns.values():
        if f.body is None or accessor(f):
            continue
        for x in walk(f.body):
            if x.get("k") == "mem":
                read.add((short(x.get("c")), x.get("n")))
            if x.get("k") in ("call", "opcall"):
                calls.add(str(x.get("fn", "")).split("::")[-1])
    done = set()
    for cls in classes(p):
        for s in sorted({f.sname for f in p.fns.values() if f.cls == cls and f.sname.startswith("set_") and len(f.params) == 1 and f.body is not None}):
            S = final(p, cls, s, 1)
            own = {k for k, vs in stores(p, mr, cls, S).items() if P0(S) in vs}
            if not own or S.id in done:
                continue
            done.add(S.id)
            what = "%s::%s" % (cls, s)
            put = {k for k, vs in stores(p, mr, cls, S).items() if any(mentions(v, lambda x: x == P0(S) or x in map(fld_of, own)) for v in vs)}
            ok = any(k in read for k in put) or "get_" + s[4:] in calls or (cls, s) in INERT
            rep.ob("setting used", ok, what)
            if not ok:
                rep.bad("%s: unused" % what, "%s:%s: nothing but its own accessors reads %s, which %s stores" %
                        (S.file, S.line, ", ".join(sorted(k[1] for k in own)), what))


def short(c):
    return re.sub(r"^crocoddyl::|Tpl<double>$", "", c or "")
