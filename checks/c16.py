"""C16: registries of costs and constraints keep exact dimension counts."""
from sa import model
from sa.cfg import Policy
from sa.flow import THIS, Client, Flow, fld, lit, p_add, p_mul, pretty, subterms
from sa.frontend import AnalysisBroken
from sa.summary import strip, subst, summary, truth

RULE = ("Every path of every operation of the registries is replayed over the abstract state of the named item (unknown, active, "
        "inactive; terminal or not) for each value of the new activation flag: the changes the path makes to the counters must be "
        "exactly the dimension of that item times the change of its membership in the set the counter sums over, the name must end "
        "up in the active set exactly if the item is registered and active and in the inactive set exactly if it is registered and "
        "inactive, and an operation that throws or names no suitable item changes nothing")
TECHNIQUE = "path-sensitive typestate with symbolic counter deltas over every operation of the registries, by induction over histories"
NOTE = ("By induction over operations, starting from the empty registry; the dimensions of a registered item are taken to stay what "
        "they were when it was registered. Contact and impulse registries need pinocchio and are not built here.")

# registry: container, member of an item leading to its model, its terminal flag,
#   counters {member: (path from the item to its dimension, which items it sums over)}, vectors sized by a counter
REG = {
    "CostModelSum": ("costs_", "CostItem", None,
                     {"nr_": (("cost", "activation_", "nr_"), "active"), "nr_total_": (("cost", "activation_", "nr_"), "all")}, {}),
    "ConstraintModelManager": ("constraints_", "ConstraintItem", ("constraint", "T_constraint_"),
                               {"ng_": (("constraint", "ng_"), "active"), "nh_": (("constraint", "nh_"), "active"),
                                "ng_T_": (("constraint", "ng_"), "terminal"), "nh_T_": (("constraint", "nh_"), "terminal")},
                               {"lb_": "ng_", "ub_": "ng_"}),
}
SETS = {"active_set_": "A", "inactive_set_": "I"}
OLD, NEW = ("old",), ("new",)


class Ops(Client):
    """The whole path is the typestate: what it changes and decides, in order."""
    maxkeys = 600
    split_bools = False

    def __init__(self):
        self.out = set()

    def init(self, flow):
        return ()

    def step(self, key, e, st, flow):
        if e.k == "W" and e.loc is not None and e.loc[0] != "loc" and not e.op.startswith(("arg:", ".")) and e.op != "init":
            return key + (("W", e.loc, e.op, e.val, e.line),)
        if e.k == "M":
            return key + (("M", e.obj, e.name, tuple(e.args), e.line),)
        return key

    def edge(self, key, term, truth, st, flow, node):
        return key + (("?", term, truth, 0),)

    def leave(self, kind, node, st, flow):
        self.out.add((kind, st.key))


def item_args(p, mr, cls, args):
    """{member: argument} of an item built on the spot."""
    for c in p.ctors(cls):
        if c.body is not None or c.rec.get("inits"):
            if len(c.params) >= len(args) and not c.rec.get("copy"):
                E, _ = summary(p, mr, c, cls)[0]
                return {k[1]: args[v[1]] for k, v in E.items() if v[0] == "p" and v[1] < len(args)}
    return {}


class Norm:
    """Rewrites a term so that items are the old or the new one and keys are the key."""

    def __init__(self, p, mr, cont, item):
        self.p, self.mr, self.cont, self.item = p, mr, cont, item
        self.new = {}            # term of the new item -> NEW
        self.keys = set()

    def pair(self, t):
        """The pair handed to insert()."""
        t = strip(t)
        if t[0] in ("call",) and t[1] in ("make_pair",) and len(t[3]) == 2:
            return t[3]
        if t[0] == "ctor" and t[1].startswith(("std::pair", "pair")) and len(t[2]) == 2:
            return t[2]
        return None

    def add(self, key, item):
        self.keys.add(key)
        if item[0] == "new" or item[0] == "ctor":
            for m, a in item_args(self.p, self.mr, self.item, item[2]).items():
                if m != "name" and a[0] != "lit":
                    self.new[a] = ("fld", NEW, m, self.item)
        self.new[item] = NEW

    def __call__(self, t):
        def fn(x):
            if x in self.new:
                return self.new[x]
            if x[0] == "fld" and x[2] in ("second", "first"):
                b = x[1]
                if b[0] == "idx" and fld(b[1]) == self.cont:
                    if b[2][0] == "find":
                        self.keys.add(b[2][1])
                    if b[2][0] in ("find",) or b[2][0] == "res":
                        return OLD if x[2] == "second" else ("key",)
            return None
        return subst(strip(t), fn)


def path_of(t):
    out = []
    while t[0] == "fld":
        out.append(t[2])
        t = t[1]
    return (t,) + tuple(reversed(out))


def check(rep):
    p, mr = model.load()
    ops = 0
    for cls, (cont, item, term, counters, sized) in sorted(REG.items()):
        fs = p.fields_of(cls)
        for m in [cont] + list(counters) + list(SETS) + list(sized):
            if m not in fs:
                raise AnalysisBroken("%s has no member %s" % (cls, m))
        watched = set(counters) | set(SETS) | {cont}
        names = []
        for f in sorted((f for f in p.fns.values() if f.cls == cls and f.body is not None), key=lambda f: (f.file, f.line)):
            if f.rec.get("dtor") or f.rec.get("copy") or f.sname == "operator=" or p.helper(f):
                continue
            if f.rec.get("ctor"):
                empty(rep, p, mr, cls, f, cont, counters, sized)
                continue
            if not {m for k, m in mr.fields.get(f.id, ())} & (watched | {"active"}):
                continue
            c = Ops()
            Flow(p, mr, f, cls, Policy(keep=set()), c, None).report()
            if not any(touches(a, watched, cont) for kind, key in c.out for a in key):
                continue
            names.append(f.sname)
            ops += 1
            operation(rep, p, mr, cls, f, c.out)
        rep.need("operations of %s" % cls, len(set(names)), 3)
        status(rep, p, mr, cls, cont, item)
        # nobody else changes the flag of a registered item
        for f in sorted((f for f in p.fns.values() if f.body is not None and f.cls not in (cls, item)), key=lambda f: (f.file, f.line)):
            for line, r, op, e in mr.sites.get(f.id, ()):
                if r[0] == "fld" and tuple(r[1:3]) == (item, "active"):
                    rep.bad("%s: flag changed in %s" % (cls, f.label.split(" ")[0]), "%s:%s: %s changes the activation flag of an item of %s" %
                            (f.file, line, f.label.split(" ")[0], cls))
    rep.need("registry operations", ops, 7)


def touches(a, watched, cont):
    if a[0] == "?":
        return False
    return any(x[0] == "fld" and x[1] == THIS and x[2] in watched for x in subterms(a[1]))


def empty(rep, p, mr, cls, f, cont, counters, sized):
    for E, facts in summary(p, mr, f, cls):
        for c in counters:
            v = E.get((cls, c))
            ok = v == lit(0)
            rep.ob("starts at zero", ok, "%s::%s: %s" % (cls, cls, c))
            if not ok:
                rep.bad("%s: %s at construction" % (cls, c), "%s:%s: the constructor starts %s at %s" % (f.file, f.line, c, pretty(v)[:100] if v else "no value"))


def operation(rep, p, mr, cls, f, out):
    cont, item, term, counters, sized = REG[cls]
    what = "%s::%s" % (cls, f.sname)
    where = "%s:%s" % (f.file, f.line)

    def bad(kind, line, msg):
        rep.bad("%s: %s" % (what, kind), "%s:%s: %s %s" % (f.file, line or f.line, what, msg))
    for kind, key in sorted(out, key=repr):
        n = Norm(p, mr, cont, item)
        for a in key:
            if a[0] == "M" and fld(a[1]) == cont and a[2] in ("insert", "emplace", "insert_or_assign", "try_emplace"):
                pr = a[3] if len(a[3]) == 2 else n.pair(a[3][0]) if len(a[3]) == 1 else None
                if pr is None:
                    bad("insertion", a[4], "inserts something other than a name and an item")
                    continue
                n.add(strip(pr[0]), strip(pr[1]))
        path = [(a[0],) + tuple(n(x) if isinstance(x, tuple) and x and isinstance(x[0], str) else
                                tuple(n(y) for y in x) if isinstance(x, tuple) else x for x in a[1:]) for a in key]
        scen = [(b, flag, t) for b in ("absent", "A", "I") for flag in (True, False) for t in ((True, False) if term else (False,))]
        for s in scen:
            if all(decide(a[1], s, cont, item, term) in (None, a[2]) for a in path if a[0] == "?"):
                replay(rep, bad, cls, f, what, kind, path, s, n)


def env(s, cont, item, term):
    """Values of flags in a scenario."""
    before, flag, t = s

    def fn(x):
        if x[0] == "fld" and x[2] == "active" and x[1] == NEW or x[0] == "p" and x[2] == "active":
            return lit(flag)
        if x == ("fld", OLD, "active", item):
            return lit(before == "A")
        if term and x[0] == "fld" and path_of(x)[1:] == term and path_of(x)[0] in (OLD, NEW):
            return lit(t)
        if x[0] == "cmp" and x[1] in ("==", "!=") and any(y[0] == "find" for y in x[2:]) and \
                any(y[0] == "call" and y[1] == "size" and fld(y[2]) == cont for y in x[2:]):
            return lit((before != "absent") == (x[1] == "!="))
        if x[0] == "fld" and x[2] == "second" and x[1][0] == "res" and x[1][2] in ("insert", "emplace", "try_emplace") and fld(x[1][3]) == cont:
            return lit(before == "absent")
        if x[0] in ("call", "res") and x[1 if x[0] == "call" else 2] in ("count", "contains"):
            o = x[2] if x[0] == "call" else x[3]
            m = o[2] if o and o[0] == "fld" and o[1] == THIS else None
            if m == cont:
                return lit(int(before != "absent"))
            if m in SETS:
                return lit(int(before == SETS[m]))
        return None
    return fn


def decide(t, s, cont, item, term):
    return truth(subst(t, env(s, cont, item, term)))


def replay(rep, bad, cls, f, what, kind, path, s, n):
    cont, item, term, counters, sized = REG[cls]
    before, flag, t = s
    e = env(s, cont, item, term)
    state = before
    gone = False
    member = {m: (before == v) for m, v in SETS.items()}
    delta = {c: lit(0) for c in counters}
    size = {}
    story = "on a name that is %s" % {"absent": "not registered", "A": "active", "I": "inactive"}[before]
    inserted = False
    changes = 0
    for a in path:
        if a[0] == "?":
            continue
        loc = a[1]
        root = path_of(loc)[0] if loc[0] == "fld" else loc
        m = loc[2] if loc[0] == "fld" and loc[1] == THIS else None
        line = a[-1]
        if a[0] == "M":
            if m in SETS:
                changes += 1
                if not key_ok(a[3], n, cont):
                    return bad("name", line, "files %s in %s instead of the item's name" % (", ".join(pretty(x)[:60] for x in a[3]), m))
                if a[2] in ("insert", "emplace"):
                    member[m] = True
                elif a[2] == "erase":
                    member[m] = False
                else:
                    return bad("set", line, "calls %s on %s" % (a[2], m))
            elif m == cont:
                changes += 1
                if a[2] in ("insert", "emplace", "try_emplace"):
                    if state == "absent":
                        state, inserted = "A" if flag else "I", True
                    else:
                        changes -= 1
                elif a[2] == "erase":
                    if state != "absent":
                        state, gone = "absent", True
                else:
                    return bad("container", line, "calls %s on %s" % (a[2], cont))
            elif m in sized and a[2] in ("resize", "conservativeResize"):
                size[m] = a[3][0]
                changes += 1
            continue
        if m in counters:
            changes += 1
            old = ("fld", THIS, m, cls)
            if a[2] == "+=":
                d = a[3]
            elif a[2] == "-=":
                d = p_mul(lit(-1), a[3])
            elif a[2] == "=" and a[3] is not None:
                d = p_add(a[3], old, -1)
            else:
                return bad("counter", line, "changes %s by %s" % (m, a[2]))
            delta[m] = p_add(delta[m], subst(d, e))
        elif loc == ("fld", OLD, "active", item) or loc == ("fld", NEW, "active", item):
            changes += 1
            v = truth(subst(a[3], e)) if a[3] is not None else None
            if v is None:
                return bad("flag", line, "sets the activation flag to %s" % pretty(a[3] or ("?",))[:80])
            if state != "absent" and (loc[1] == OLD or inserted or before == "absent"):
                state = "A" if v else "I"
        elif root in (OLD, NEW) or m == cont:
            return bad("item", line, "rewrites %s of a registered item" % pretty(loc)[:80])
    tag = "%s, %s: %s" % (what, kind, story)
    if kind != "exit":
        ok = changes == 0
        rep.ob("rejected calls change nothing", ok, tag)
        if not ok:
            bad("changes before a rejection", None, "changes the registry and then throws (%s)" % story)
        return
    it = NEW if inserted else OLD
    ins = {"active": lambda st: st == "A", "all": lambda st: st != "absent", "terminal": lambda st: st == "A" and t}
    for c, (path_, which) in sorted(counters.items()):
        k = int(ins[which](state)) - int(ins[which](before))
        got = delta[c]
        dim = it
        okd = False
        if k == 0:
            okd = got == lit(0)
        else:
            for root in (it, OLD if before == "absent" else it):
                ts = [x for x in subterms(got) if x[0] == "fld" and path_of(x)[0] == root and path_of(x)[1:] == path_]
                if any(p_add(got, p_mul(lit(k), x), -1) == lit(0) for x in ts):
                    okd = True
        rep.ob("counter follows the items", okd, "%s: %s" % (tag, c))
        if not okd:
            bad("%s (%s)" % (c, before), None, "%s with the flag %s%s changes %s by %s; the items it counts change by %+d" %
                (story, str(flag).lower(), ", terminal" if t else "", c, pretty(got)[:100], k))
    for m, st in SETS.items():
        ok = member[m] == (state == st)
        rep.ob("listed once", ok, "%s: %s" % (tag, m))
        if not ok:
            bad("%s (%s)" % (m, before), None, "%s with the flag %s leaves the name %s %s although the item is %s" %
                (story, str(flag).lower(), "in" if member[m] else "out of", m, {"absent": "not registered", "A": "active", "I": "inactive"}[state]))
    if state == before and changes and not gone:
        extra = [a for a in path if a[0] == "W"]
        ok = not extra or all(delta[c] == lit(0) for c in counters)
        rep.ob("no effect without a change", ok, tag)
    for v, c in sorted(sized.items()):
        if delta[c] == lit(0):
            ok = v not in size or p_add(subst(size[v], e), p_add(("fld", THIS, c, cls), delta[c]), -1) == lit(0)
        else:
            ok = v in size and p_add(subst(size[v], e), p_add(("fld", THIS, c, cls), delta[c]), -1) == lit(0)
        rep.ob("sized by its counter", ok, "%s: %s" % (tag, v))
        if not ok:
            bad("size of %s (%s)" % (v, before), None, "%s leaves %s with a size other than %s" % (story, v, c))


def key_ok(args, n, cont):
    return len(args) == 1 and (args[0] in n.keys or args[0] == ("key",) or args[0] == ("fld", NEW, "name", REG_ITEM[cont]) or
                               args[0] == ("fld", OLD, "name", REG_ITEM[cont]) or strip(args[0]) in {n(k) for k in n.keys})


REG_ITEM = {r[0]: r[1] for r in REG.values()}


class Ret(Client):
    split_bools = False

    def __init__(self):
        self.vals = []

    def init(self, flow):
        return ()

    def edge(self, key, term, truth, st, flow, node):
        return key + ((term, truth),)

    def visit(self, node, st, evs, flow):
        for e in evs:
            if e.k == "RET" and e.val is not None:
                self.vals.append((st.key, e.val))


def status(rep, p, mr, cls, cont, item):
    """The status query answers the flag of a registered item and false for an unknown name."""
    term = REG[cls][2]
    for f in sorted((f for f in p.fns.values() if f.cls == cls and f.body is not None and f.sname.endswith("Status") and f.sname.startswith("get")),
                    key=lambda f: f.line):
        r = Ret()
        Flow(p, mr, f, cls, Policy(keep=set()), r, None).report()
        n = Norm(p, mr, cont, item)
        for before in ("absent", "A", "I"):
            s = (before, True, False)
            vals = {decide(n(v), s, cont, item, term) for ds, v in r.vals if all(decide(n(t), s, cont, item, term) in (None, b) for t, b in ds)}
            ok = vals == {before == "A"}
            rep.ob("status query", ok, "%s::%s" % (cls, f.sname))
            if not ok:
                rep.bad("%s::%s: %s" % (cls, f.sname, before), "%s:%s: %s::%s answers %s for an item that is %s" %
                        (f.file, f.line, cls, f.sname, sorted(map(str, vals)), before))
