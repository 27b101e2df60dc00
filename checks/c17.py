"""C17: stacked constraints and costs occupy their own slots."""
from sa import model
from sa.cfg import Policy
from sa.each import iterations
from sa.flow import THIS, Client, Flow, fld, lit, p_add, p_mul, pretty, subterms
from sa.frontend import AnalysisBroken
from sa.summary import strip, subst, truth

RULE = ("Every evaluation of a registry walks all registered items in container order together with the data item at the same place; "
        "an active item (for the terminal overload of the constraints: active and terminal) has its own evaluation called exactly "
        "once, with the same state and control, before its results are read; each result is then copied to rows of the stacked "
        "result that start at the running offset of its kind and are as many as the item's dimension, and the offset advances by "
        "exactly that dimension (constraints), or is added to the zeroed total exactly once with the item's weight (costs); an "
        "inactive item has no effect and moves no offset.  The maps the results live in are bound to storage of the same dimensions")
TECHNIQUE = "symbolic effects of each iteration of the evaluation loops, with induction-variable analysis of the row offsets"
NOTE = "That the row counts add up to the reported dimensions is C16's invariant. Dimensions of an item do not change between calls."

# registry: container of models, container of data, member leading to the model, terminal flag,
#   {function: {result: (kind of slot, result of the item)}}
SPEC = {
    "CostModelSum": dict(models="costs_", datas="costs", item="cost", terminal=None, weight="weight",
                         calc=["cost"], calcDiff=["Lx", "Lu", "Lxx", "Lxu", "Luu"], stateonly=["cost", "Lx", "Lxx"]),
    "ConstraintModelManager": dict(models="constraints_", datas="constraints", item="constraint", terminal="T_constraint_", weight=None,
                                   calc=["g", "h", "lb_", "ub_"], calcDiff=["Gx", "Gu", "Hx", "Hu"], stateonly=["g", "h", "lb_", "ub_", "Gx", "Hx"]),
}
DIM = {"g": "ng_", "lb_": "ng_", "ub_": "ng_", "Gx": "ng_", "Gu": "ng_", "h": "nh_", "Hx": "nh_", "Hu": "nh_"}
COLS = {"Gx": "ndx_", "Hx": "ndx_", "Gu": "nu_", "Hu": "nu_"}


def now(t):
    """Values a call may have changed, named by where they are read."""
    return subst(strip(t), lambda x: now(x[2]) if x[0] == "unk" and len(x) == 3 and isinstance(x[2], tuple) and x[2] and x[2][0] in ("fld", "idx", "view") else None)


def effect(e, phi, st, flow):
    if e.k == "W" and e.loc is not None and e.loc[0] != "loc" and e.op != "init" and not e.op.startswith("arg:"):
        return ("W", now(e.loc), e.op, now(e.val) if e.val is not None else None)
    if e.k == "C":
        return ("C", e.name, now(e.obj) if e.obj is not None else None, tuple(now(a) for a in e.args))
    return None


def branch(term, truth, phi, st):
    return ("?", now(term), truth)


def check(rep):
    p, mr = model.load()
    n = 0
    for cls, sp in sorted(SPEC.items()):
        for name in ("calc", "calcDiff"):
            fs = sorted((f for f in p.fns.values() if f.cls == cls and f.sname == name and f.body is not None), key=lambda f: f.line)
            if {len(f.params) for f in fs} != {2, 3}:
                raise AnalysisBroken("%s::%s does not have its two overloads" % (cls, name))
            for f in fs:
                n += 1
                evaluation(rep, p, mr, cls, sp, f)
    rep.need("evaluations", n, 8)
    maps(rep, p, mr)
    created(rep, p, mr)


def evaluation(rep, p, mr, cls, sp, f):
    tag = "%s::%s(%s)" % (cls, f.sname, ", ".join(q["n"] for q in f.params[1:]))

    def bad(kind, where, msg):
        rep.bad("%s: %s" % (tag, kind), "%s: %s %s" % (where, tag, msg))
    here = "%s:%s" % (f.file, f.line)
    stateonly = len(f.params) == 2
    fields = [x for x in sp[f.sname] if not stateonly or x in sp["stateonly"]]
    pol = Policy(keep={"calc", "calcDiff"})
    data = ("p", 0, f.params[0]["n"])
    args = tuple(("p", i, q["n"]) for i, q in enumerate(f.params) if i)
    its = iterations(p, mr, f, cls, pol, effect, None, branch)
    walks = 0
    for loop, c, iters, where in its:
        touched = any(x[0] in ("W", "C") for k in iters for x in k)
        if c is None:
            bad("loop", loop.where, "has a loop that does not walk through the registered items (%s)" % (loop.why or "it starts or stops elsewhere"))
            continue
        if fld(c) != sp["models"]:
            if touched:
                bad("loop", loop.where, "walks through %s" % pretty(c))
            continue
        if not touched:
            continue
        walks += 1
        ok = not loop.early
        rep.ob("every item visited", ok, tag)
        if not ok:
            bad("early exit", loop.where, "can leave the walk over the items early")
        item = ("fld", ("idx", c, loop.phi), "second", "std::pair")
        for k in sorted(iters, key=repr):
            iteration(rep, bad, tag, sp, f, loop, item, data, args, fields, k, where, stateonly)
        if sp["weight"] is None:
            offsets(rep, bad, tag, sp, loop, item, iters, fields)
    rep.ob("one walk", walks == 1, tag)
    if walks != 1:
        bad("walks", here, "walks %d times through its items" % walks)
    if sp["weight"]:
        zeroed(rep, bad, p, mr, cls, f, tag, pol, data, fields, here)


def flag(t, item, sp):
    """What a branch inside the loop tests: (name of the flag, value when true)."""
    neg = False
    if t[0] == "not":
        t, neg = t[1], True
    if t[0] == "cmp" and t[1] in ("==", "!=") and t[3][0] == "lit" and isinstance(t[3][1], bool):
        neg ^= (t[1] == "==") != t[3][1]
        t = t[2]
    if t[0] == "fld" and t[2] == "active" and t[1] == item:
        return "active", not neg
    if sp["terminal"] and t[0] == "fld" and t[2] == sp["terminal"] and t[1][0] == "fld" and t[1][1] == item:
        return "terminal", not neg
    return None


def iteration(rep, bad, tag, sp, f, loop, item, data, args, fields, k, where, stateonly):
    known = {}
    for x in k:
        if x[0] == "?":
            fl = flag(x[1], item, sp)
            if fl is None:
                if truth(x[1]) is None:
                    bad("other condition", loop.where, "makes the contribution of an item depend on %s" % pretty(x[1])[:120])
                continue
            known[fl[0]] = fl[1] == x[2]
    acts = [x for x in k if x[0] != "?"]
    model_ = ("fld", item, sp["item"])
    need_t = stateonly and sp["terminal"]
    on = known.get("active") and (not need_t or known.get("terminal"))
    off = known.get("active") is False or (need_t and known.get("terminal") is False)
    if off:
        ok = not acts
        rep.ob("inactive items are skipped", ok, tag)
        if not ok:
            bad("inactive item", where.get(acts[0], loop.where), "lets an item that is not active%s contribute" % (" or not terminal" if need_t else ""))
        return
    if not on:
        bad("flag ignored", where.get(acts[0], loop.where) if acts else loop.where,
            "treats items alike whether or not they are %s" % ("terminal" if known.get("active") else "active"))
        return
    if need_t is None and "terminal" in known and not stateonly:
        bad("flag", loop.where, "distinguishes terminal items")
    ditem = None
    calls = [(i, x) for i, x in enumerate(acts) if x[0] == "C" and x[1] in ("calc", "calcDiff")]
    good = [(i, x) for i, x in calls if x[1] == f.sname and x[2][0] == "fld" and x[2][1:3] == model_[1:3] and len(x[3]) == len(args) + 1 and tuple(x[3][1:]) == args]
    ok = len(calls) == len(good) == 1
    if ok:
        d = good[0][1][3][0]
        ok = d[0] == "fld" and d[2] == "second" and d[1][0] == "idx" and d[1][1][0] == "fld" and d[1][1][1] == data and d[1][1][2] == sp["datas"]
        if ok:
            i = d[1][2]
            ok = i == loop.phi or loop.sibling(i) == lit(0) or i[0] == "find" and i[1] == ("fld", item[1], "first", "std::pair")
            ditem = d
    rep.ob("evaluated once", ok, tag)
    if not ok:
        bad("call", where.get(calls[0][1], loop.where) if calls else loop.where, "does not call %s of an active item exactly once with its own data and the given arguments" % f.sname)
        return
    start = good[0][0]
    ws = [(i, x) for i, x in enumerate(acts) if x[0] == "W"]
    for i, x in enumerate(acts):
        if x[0] == "C" and i != start:
            bad("other call", where[x], "calls %s for each item" % x[1])
    for name in fields:
        own = THIS if name.endswith("_") else data
        mine = [(i, x) for i, x in ws if root(x[1]) == name and (base(x[1])[1] == own)]
        ok = len(mine) == 1
        rep.ob("contributes once", ok, "%s: %s" % (tag, name))
        if not ok:
            bad(name, where[mine[1][1]] if mine else loop.where, "writes %s %d times for one item" % (name, len(mine)))
            continue
        i, x = mine[0]
        src = ("fld", ditem, name) if own == data else ("fld", ("fld",) + good[0][1][2][1:], name)
        if sp["weight"]:
            v = x[3]
            b = base(x[1])
            if x[2] == "=" and v is not None:
                v = p_add(v, b, -1)
            w = ("fld", item, sp["weight"])
            okv = x[1] == b and x[2] in ("+=", "=") and v is not None and product(v, w, src)
            what = "weight times its own value"
        else:
            okv = x[2] == "=" and x[3] is not None and x[3][0] == "fld" and x[3][1:3] == src[1:3] and slot(x[1], name, good[0][1][2], loop)
            what = "its own value in rows that belong to it"
        okv = okv and (i > start or own == THIS)
        rep.ob("own slot", okv, "%s: %s" % (tag, name))
        if not okv:
            bad("%s slot" % name, where[x], "does not give %s of an item %s (%s %s %s)" % (name, what, pretty(x[1])[:100], x[2], pretty(x[3])[:160] if x[3] else ""))
    for i, x in ws:
        if root(x[1]) not in fields:
            bad("writes %s" % root(x[1]), where[x], "also writes %s for each item" % pretty(x[1])[:100])


def product(v, a, b):
    """v is the product of two members, conversions aside."""
    if v[0] == "op" and v[1] in ("s*", "*"):
        return {v[2][1:3], v[3][1:3]} == {a[1:3], b[1:3]} and v[2][0] == v[3][0] == "fld"
    for x in subterms(v):
        for y in subterms(v):
            if x[0] == y[0] == "fld" and x[1:3] == a[1:3] and y[1:3] == b[1:3] and p_add(v, p_mul(x, y), -1) == lit(0):
                return True
    return False


def base(l):
    while l[0] in ("view", "idx", "deref"):
        l = l[2] if l[0] == "view" else l[1]
    return l


def root(l):
    b = base(l)
    return b[2] if b[0] == "fld" else None


def rows(l):
    """(first row, number of rows, columns) of a view."""
    if l[0] != "view":
        return None
    name, a = l[1], l[3]
    if name == "segment" and len(a) == 2:
        return a[0], a[1], None
    if name == "middleRows" and len(a) == 2:
        return a[0], a[1], "all"
    if name == "block" and len(a) == 4 and a[1] == lit(0):
        return a[0], a[2], a[3]
    return None


def slot(l, name, model_, loop):
    r = rows(l)
    if r is None or l[2][0] != "fld":
        return False
    start, n, cols = r
    if not (n[0] == "fld" and n[1] == model_ and n[2] == DIM[name] or n[0] == "call" and n[1] in ("rows", "size")):
        return False
    if name in COLS and cols != "all" and not (cols[0] == "fld" and cols[2] == COLS[name]):
        return False
    return start[0] == "phi" and start[1] == loop.head


def offsets(rep, bad, tag, sp, loop, item, iters, fields):
    """Offsets start at zero and advance by the dimension of each contributing item."""
    use = {}
    for k in iters:
        for x in k:
            if x[0] == "W" and root(x[1]) in fields and rows(x[1]):
                start = rows(x[1])[0]
                if start[0] == "phi" and start[1] == loop.head:
                    use.setdefault(start, set()).add(root(x[1]))
    for ph, names in sorted(use.items(), key=repr):
        dims = {DIM[x] for x in names}
        init, step = loop.flow.loop_values(loop.head, ph[2])
        init = {v[2] if v is not None and v[0] == "iter" else v for v in init}
        ok = len(dims) == 1 and init == {lit(0)}
        for k, vals in loop.each.finals(ph[2]).items():
            contributes = any(x[0] == "W" and root(x[1]) in fields for x in k)
            for v in vals:
                v = v[2] if v is not None and v[0] == "iter" else v
                d = p_add(now(v), now(ph), -1) if v is not None else None
                if contributes:
                    ok = ok and d is not None and d[0] == "fld" and d[2] in dims and d[1][0] == "fld" and d[1][1:3] == (item, sp["item"])
                else:
                    ok = ok and d == lit(0)
        rep.ob("offsets advance by the dimension", ok, "%s: %s" % (tag, ", ".join(sorted(names))))
        if not ok:
            bad("offset of %s" % ", ".join(sorted(names)), loop.where, "does not start the rows of %s at zero and move them by the item's own dimension" % ", ".join(sorted(names)))


class Zero(Client):
    split_bools = False

    def __init__(self, data, fields):
        self.data, self.fields = data, fields
        self.late = {}

    def init(self, flow):
        return frozenset()

    def step(self, key, e, st, flow):
        if e.k == "W" and e.loc is not None and e.loc[0] == "fld" and e.loc[1] == self.data and e.loc[2] in self.fields:
            if e.op == ".setZero" or e.op == "=" and e.val is not None and (strip(e.val) == lit(0) or e.val[0] == "call" and e.val[1] == "Zero" or
                                                                            e.val[0] == "ctor" and e.val[2] == (lit(0),)):
                return key | {e.loc[2]}
            if e.loc[2] not in key:
                self.late[e.loc[2]] = e.where
        return key

    def leave(self, kind, node, st, flow):
        if kind == "exit":
            for x in self.fields:
                if x not in st.key:
                    self.late.setdefault(x, "%s:%s" % (flow.fn.file, flow.fn.line))


def zeroed(rep, bad, p, mr, cls, f, tag, pol, data, fields, here):
    z = Zero(data, set(fields))
    Flow(p, mr, f, cls, pol, z, None).report()
    for x in fields:
        ok = x not in z.late
        rep.ob("total starts at zero", ok, "%s: %s" % (tag, x))
        if not ok:
            bad("%s not zeroed" % x, z.late[x], "adds to %s, or leaves it, without zeroing it first" % x)


# ---------------------------------------------------------------- maps
SHAPES = {"ConstraintDataManager": {"g": ("ng",), "Gx": ("ng", "ndx"), "Gu": ("ng", "nu"), "h": ("nh",), "Hx": ("nh", "ndx"), "Hu": ("nh", "nu")},
          "CostDataSum": {"Lx": ("ndx",), "Lu": ("nu",), "Lxx": ("ndx", "ndx"), "Lxu": ("ndx", "nu"), "Luu": ("nu", "nu")}}


class Maps(Client):
    """Where each map points, and the sizes of the storage behind it."""
    split_bools = False

    def __init__(self, shapes):
        self.shapes = shapes
        self.out = []

    def init(self, flow):
        return ()

    def step(self, key, e, st, flow):
        d = dict(key)
        if e.k == "W" and e.loc is not None and e.loc[0] == "fld" and e.loc[1] == THIS:
            m = e.loc[2]
            if m in self.shapes and e.op in ("new", "init") and e.val is not None and e.val[0] == "ctor":
                a = [x for x in e.val[2] if not (x[0] == "ctor" and "Stride" in x[1])]
                src = a[0][2] if a and a[0][0] == "call" and a[0][1] == "data" else None
                d[m] = (src, tuple(a[1:]), e.where)
            elif e.op == "init" and e.val is not None and e.val[0] == "ctor":
                d[("size", e.loc)] = (e.val[2], e.where)
        if e.k == "M" and e.name in ("resize", "conservativeResize") and e.obj is not None:
            d[("size", e.obj)] = (tuple(e.args), e.where)
            for m in self.shapes:
                if m in d and d[m][0] == e.obj:
                    d[m] = (None, d[m][1], e.where)
        return tuple(sorted(d.items(), key=repr))

    def leave(self, kind, node, st, flow):
        if kind == "exit":
            self.out.append(dict(st.key))


def dim_ok(t, name, row, src):
    """t is the named dimension, of the model or of the storage itself."""
    if t[0] == "call" and t[1] in (("rows", "size") if row else ("cols",)) and t[2] == src:
        return True
    if t[0] == "ite":
        both = {x[2] for x in t[2:] if x[0] == "fld"}
        run = t[1][0] == "p" and t[1][2] == "running_node"
        return name in ("ng", "nh") and (not run or t[2][0] == "fld" and t[2][2] == name + "_") and both == {name + "_", name + "_T_"}
    return t[0] == "fld" and t[2] == name + "_"


def maps(rep, p, mr):
    n = 0
    for cls, shapes in sorted(SHAPES.items()):
        fs = p.fields_of(cls)
        for m in shapes:
            if m not in fs or "Map" not in fs[m][0]["t"]:
                raise AnalysisBroken("%s has no map %s" % (cls, m))
        for f in sorted((f for f in p.fns.values() if f.cls == cls and f.body is not None and not f.rec.get("copy") and not f.rec.get("dtor") and
                         not p.helper(f)),
                        key=lambda f: f.line):
            c = Maps(shapes)
            Flow(p, mr, f, cls, Policy(keep=set()), c, None).report()
            if not any(m in d or ("size", x) in d for d in c.out for m in shapes for x in ([k[1] for k in d if isinstance(k, tuple)] or [None])):
                continue
            what = "%s::%s" % (cls, f.cls if f.rec.get("ctor") else f.sname)
            for d in c.out:
                for m, sh in sorted(shapes.items()):
                    n += 1
                    own = ("fld", THIS, m + "_internal", cls)
                    if m not in d:
                        ok = not any(x in d for x in shapes) and ("size", own) not in d
                        msg = "does not bind %s to storage" % m
                        where = "%s:%s" % (f.file, f.line)
                    else:
                        src, dims, where = d[m]
                        ok = src is not None and src[0] == "fld" and src[2] in (m, m + "_internal") and len(dims) == len(sh) and \
                            all(dim_ok(t, x, i == 0, src) for i, (t, x) in enumerate(zip(dims, sh)))
                        if ok and ("size", src) in d:
                            ok = d[("size", src)][0] == dims
                        msg = "binds %s to %s with dimensions (%s)" % (m, pretty(src)[:60] if src else "storage that is resized afterwards",
                                                                       ", ".join(pretty(t)[:80] for t in dims))
                    rep.ob("map bound to its storage", ok, "%s: %s" % (what, m))
                    if not ok:
                        rep.bad("%s: %s" % (what, m), "%s: %s %s" % (where, what, msg))
    rep.need("maps", n, 20)


# ---------------------------------------------------------------- data of the items
def created(rep, p, mr):
    """The data of a registry holds, under its name, the data created by each item."""
    for dcls, cls in (("CostDataSum", "CostModelSum"), ("ConstraintDataManager", "ConstraintModelManager")):
        sp = SPEC[cls]

        def eff(e, phi, st, flow):
            if e.k == "M" and e.obj is not None and e.obj[0] == "fld":
                return ("M", now(e.obj), e.name, tuple(now(a) for a in e.args))
            return None
        done = 0
        for f in sorted((f for f in p.ctors(dcls) if f.body is not None and not f.rec.get("copy")), key=lambda f: f.line):
            what = "%s constructor" % dcls
            good = []
            for loop, c, iters, where in iterations(p, mr, f, dcls, Policy(keep={"createData"}), eff, None, branch):
                if c is None or fld(c) != sp["models"] or c[1][:2] != ("p", 0):
                    continue
                item = ("fld", ("idx", c, loop.phi), "second", "std::pair")
                for k in iters:
                    ms = [x for x in k if x[0] == "M" and x[1][1] == THIS and x[1][2] == sp["datas"]]
                    ok = len(ms) == 1 and not loop.early and ms[0][2] in ("insert", "emplace")
                    if ok:
                        a = ms[0][3]
                        a = a[0][3] if len(a) == 1 and a[0][0] == "call" and a[0][1] == "make_pair" else a[0][2] if len(a) == 1 and a[0][0] == "ctor" else a
                        ok = len(a) == 2 and (a[0][0] == "fld" and (a[0][1:3] == (item, "name") or a[0][1:3] == (item[1], "first")))
                        v = a[1] if ok else None
                        ok = ok and v[0] == "res" and v[2] == "createData" and v[3][0] == "fld" and v[3][1:3] == (item, sp["item"])
                    good.append(ok)
            done += 1
            ok = bool(good) and all(good)
            rep.ob("data of every item", ok, what)
            if not ok:
                rep.bad("%s: items" % what, "%s:%s: the %s does not store the data each registered item creates under the item's name" % (f.file, f.line, what))
        rep.need("constructors of %s" % dcls, done, 1)
