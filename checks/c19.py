"""C19: models create and recognise their own data."""
from sa import model
from sa.cfg import Policy
from sa.flow import Client, Flow, mentions, pretty, subterms
from sa.prog import short, walk
from sa.summary import fld_of

RULE = ("For every concrete model class: each path of its data factory returns a new object built from the model itself; every unchecked "
        "downcast of the data in a member the class ends up with is to a type that object has; the nested data a member hands to a "
        "sub-model was created by that same sub-model; the consistency check accepts only after a checked downcast succeeded to a type as "
        "specific as evaluation needs (and the created data has), never uses the pointer before that, asks the nested model in turn, "
        "and can accept")
TECHNIQUE = "type-hierarchy analysis of factory results against downcasts, and path-sensitive null/typestate dataflow of consistency checks"
NOTE = ("Data of the same type built by another instance of the model (other dimensions) is recognised by type only. Data shared through "
        "collectors and the members of sums are C16's and C17's.")

FAMILIES = ["ActionModelAbstract", "DifferentialActionModelAbstract", "CostModelAbstract", "ResidualModelAbstract",
            "ConstraintModelAbstract", "ActivationModelAbstract", "ActuationModelAbstract", "SquashingModelAbstract",
            "ControlParametrizationModelAbstract", "CostModelSum", "ConstraintModelManager"]
NESTED = ("ActionModelAbstract", "DifferentialActionModelAbstract")
KEEP = {"createData", "checkData", "calc", "calcDiff", "quasiStatic", "commands", "torqueTransform", "params", "multiplyByJacobian",
        "multiplyJacobianTransposeBy", "convertBounds", "integrate", "diff", "Jdiff", "Jintegrate", "JintegrateTransport"}


def pointee(t):
    """The class a pointer or smart pointer type points to."""
    t = (t or "").replace("const ", "").strip().rstrip("&").strip()
    if t.startswith("std::shared_ptr<") and t.endswith(">"):
        return short(t[16:-1].strip())
    t = t.replace("*const", "*").strip()
    return short(t[:-1].strip()) if t.endswith("*") else None


def bottom(e):
    """The expression below conversions, .get() and dereferences."""
    while True:
        k = e.get("k")
        if k == "cast" and e.get("e"):
            e = e["e"]
        elif k == "call" and e.get("o") is not None and e.get("fn", "").rsplit("::", 1)[-1] == "get":
            e = e["o"]
        elif k == "opcall" and e.get("op") in ("->", "*") and len(e.get("a", ())) == 1:
            e = e["a"][0]
        elif k == "un" and e.get("op") in ("*", "&"):
            e = e["e"]
        elif k == "ctor" and e.get("copy") and len(e.get("a", ())) == 1:
            e = e["a"][0]
        else:
            return e


def casts(f):
    """(target class, line) of every unchecked downcast of something a parameter or a local names."""
    for x in walk(f.body):
        if x.get("k") == "cast" and x.get("ck") in ("static", "c", "reinterpret", "func") and x.get("e"):
            to, e = pointee(x.get("t")), x["e"]
            if to is None and str(x.get("t", "")).startswith("crocoddyl::"):
                to = short(x["t"].rstrip("& "))     # cast of a reference
        elif x.get("k") == "call" and x.get("fn") in ("std::static_pointer_cast", "std::reinterpret_pointer_cast") and x["a"]:
            to, e = pointee(x.get("t")), x["a"][0]
        else:
            continue
        b = bottom(e)
        if to and b.get("k") == "var":
            yield to, pointee(b.get("t")), x.get("l")


class Made(Client):
    def __init__(self):
        self.out = []

    def visit(self, node, st, evs, flow):
        if node.frame is flow.g.root:
            self.out += [(e.val, e.where) for e in evs if e.k == "RET"]


class Uses(Client):
    """Calls that hand nested data to a sub-model."""
    def __init__(self, data):
        self.data = data
        self.out = []

    def visit(self, node, st, evs, flow):
        for e in evs:
            if e.k == "C" and e.name in KEEP and e.obj is not None and e.args:
                m, d = path(e.obj, None), path(e.args[0], self.data)
                if m and d:
                    self.out.append((m, d, e.where))


class Makes(Client):
    """What a data constructor creates: member -> sub-model."""
    def __init__(self, mod):
        self.mod = mod
        self.out = {}

    def visit(self, node, st, evs, flow):
        for e in evs:
            if e.k != "W" or e.loc is None or e.val is None:
                continue
            d = path(e.loc, None)
            if not d:
                continue
            for t in subterms(e.val):
                if t[0] == "res" and len(t) > 3 and t[2] == "createData" and t[3] is not None:
                    self.out.setdefault(d, []).append((path(t[3], self.mod) or pretty(t[3]), e.where))


def path(t, root):
    """Member names from a root term (None: the object itself), elements of containers aside."""
    out = []
    while True:
        if t[0] in ("idx", "deref"):
            t = t[1]
        elif t[0] == "call" and t[1].startswith("dyncast:"):
            t = t[2]
        elif t[0] == "unk" and len(t) == 3 and t[2] != ("this",):
            t = t[2]
        elif t[0] == "call" and t[1] == "get" and t[2] is not None:
            t = t[2]
        elif t[0] == "fld":
            out.append(t[2])
            t = t[1]
        else:
            break
    ok = t == ("this",) if root is None else t[0] == "p" and t[2] == root
    return ".".join(reversed(out)) if ok and out else None


class Accept(Client):
    """Paths of a consistency check: which checked downcasts are known to have succeeded, which nested checks failed."""
    dyncast = True

    def __init__(self, par):
        self.par = par
        self.early, self.rets, self.asked = set(), [], set()

    def init(self, flow):
        return (frozenset(), frozenset(), frozenset())

    def edge(self, key, term, truth, st, flow, node):
        good, passed, failed = key
        t, v = term, truth
        while t[0] == "not":
            t, v = t[1], not v
        c = None
        if t[0] == "cmp" and t[1] in ("==", "!=") and any(is_null(x) for x in t[2:4]):
            c = next((x for x in t[2:4] if not is_null(x)), None)
            v = v if t[1] == "!=" else not v
        elif t[0] == "call" and t[1].startswith("dyncast:"):
            c = t
        while c is not None and c[0] == "call" and c[1] == "get" and c[2] is not None:
            c = c[2]
        if c is not None and c[0] == "call" and c[1].startswith("dyncast:") and c[2][0] == "p" and c[2][2] == self.par:
            return (good | {c[1][8:]}, passed, failed) if v else key
        if t[0] == "res" and t[2] == "checkData":
            n = nested(t, self.par)
            if n:
                return (good, passed | {n}, failed) if v else (good, passed, failed | {n})
        return key

    def visit(self, node, st, evs, flow):
        good = st.key[0]
        for e in evs:
            for a in list(e.args or ()) + ([e.val] if e.val is not None else []) + ([e.loc] if e.loc is not None else []) + \
                    ([e.obj] if e.obj is not None else []):
                for t in subterms(a):
                    if t[0] == "fld" and t[1][0] == "call" and t[1][1].startswith("dyncast:") and t[1][1][8:] not in good:
                        self.early.add((t[1][1][8:], e.where))
            if e.k == "C" and e.name == "checkData" and e.obj is not None and e.args:
                dropped = node.kind == "expr" and node.e.get("k") == "call" and node.e.get("fn", "").endswith("::checkData")
                m, d = path(e.obj, None), path(e.args[0], self.par)
                if m and d and not dropped:
                    self.asked.add((m, d))
            if e.k == "RET" and node.frame is flow.g.root:
                self.rets.append((e.val, st.key, e.where))


def is_null(t):
    return t[0] == "lit" and t[1] is None or t[0] in ("null", "nullptr")


def nested(t, par):
    if t[0] == "res" and t[2] == "checkData" and t[3] is not None and t[4]:
        m, d = path(t[3], None), path(t[4][0], par)
        return (m, d) if m and d else None
    return None


def check(rep):
    p, mr = model.load()
    nfac = ncast = nnest = ncheck = 0
    for root in FAMILIES:
        for c in p.subclasses(root, concrete=True):
            if "<float>" in c or root == "ActionModelAbstract" and p.cls[c].abstract:
                continue
            made = set()
            fac = p.lookup(c, "createData")
            for f in fac:
                k = Made()
                Flow(p, mr, f, c, Policy(keep=KEEP - {"createData"}), k, None).report()
                for v, w in k.out:
                    ok = v is not None and v[0] == "new" and v[2] and v[2][0] == ("this",)
                    rep.ob("factory returns new data built from the model", ok, "%s: %s" % (c, pretty(v) if v is not None else None))
                    nfac += 1
                    if not ok:
                        rep.bad("%s::createData" % c, "%s: the data factory of %s returns %s, which is not a new object built from the model itself" %
                                (w, c, pretty(v)[:80] if v is not None else "nothing"))
                    elif v[1] not in p.cls:
                        rep.bad("%s::createData type" % c, "%s: the data factory of %s creates %s, which is no data class" % (w, c, v[1]))
                    else:
                        made.add(v[1])
            if not made:
                continue
            need = set()
            members = {}
            for b in p.linear_bases(c):
                for m in (p.cls[b].methods if b in p.cls else ()):
                    f = p.fns.get(m["id"])
                    if f is not None and f.body is not None and p.final(c, f.id) == f.id and not f.rec.get("static"):
                        members[f.id] = f
            for f in members.values():
                for to, frm, line in casts(f):
                    if frm is None or to not in p.cls or frm not in p.cls:
                        continue
                    if not any(p.is_a(t, frm) for t in made) or not p.is_a(to, frm):
                        continue
                    bad = [t for t in made if not p.is_a(t, to)]
                    need.add(to)
                    ncast += 1
                    rep.ob("downcast of created data", not bad, "%s::%s to %s" % (c, f.sname, to))
                    for t in bad:
                        rep.bad("%s::%s: %s" % (c, f.sname, to), "%s:%s: %s::%s treats its data as %s, but the data %s creates is %s" %
                                (f.file, line, f.cls, f.sname, to, c, t))
            # nested data
            sub = {}
            for t in sorted(made):
                for k in p.ctors(t):
                    if k.params and k.body is not None:
                        mk = Makes(k.params[0]["n"])
                        Flow(p, mr, k, t, Policy(keep=KEEP), mk, None).report()
                        for d, ms in mk.out.items():
                            sub.setdefault(d, []).extend(ms)
            used = {}
            for f in members.values():
                if f.sname not in KEEP - {"checkData", "createData"} or not f.params or f.rec.get("ctor"):
                    continue
                dp = f.params[0]["n"]
                u = Uses(dp)
                Flow(p, mr, f, c, Policy(keep=KEEP), u, None).report()
                for m, d, w in u.out:
                    used.setdefault((m, d), w)
            for (m, d), w in sorted(used.items()):
                if d not in sub:
                    continue
                nnest += 1
                wrong = sorted({x for x, _ in sub[d] if x != m})
                rep.ob("nested data created by the nested model", not wrong, "%s: %s evaluates %s" % (c, m, d))
                if wrong:
                    rep.bad("%s: nested %s" % (c, d), "%s: %s hands the nested data %s to %s, but its constructor creates it from %s" %
                            (w, c, d, m, ", ".join(wrong)))
            # recognition
            for f in p.lookup(c, "checkData"):
                ncheck += 1
                a = Accept(f.params[0]["n"])
                Flow(p, mr, f, c, Policy(keep={"checkData"}), a, None).report()
                judge(rep, p, c, f, a, made, need, {k for k in used if k[1] in sub}, mr)
    rep.need("factories", nfac, 25)
    rep.need("downcasts", ncast, 40)
    rep.need("nested data uses", nnest, 20)
    rep.need("consistency checks", ncheck, 8)


def judge(rep, p, c, f, a, made, need, used, mr):
    where = "%s:%s" % (f.file, f.line)
    accepts = [(v, key, w) for v, key, w in a.rets if not (v is not None and v[0] == "lit" and v[1] is False)]
    rep.ob("own data is recognised", bool(accepts), c)
    if not accepts:
        rep.bad("%s::checkData never accepts" % c, "%s: the consistency check that %s ends up with rejects the data %s creates (%s)" %
                (where, c, c, ", ".join(sorted(made))))
    for t, w in sorted(a.early):
        rep.bad("%s::checkData null" % c, "%s: the consistency check of %s uses the result of the downcast to %s before knowing that it succeeded" % (w, c, t))
    rep.ob("downcast result checked before use", not a.early, c)
    fields = p.fields_of(c)
    for v, (good, passed, failed), w in accepts:
        v2 = v
        # `return d != nullptr` and `return d && ...` decide by their value
        ok_types = set(good)
        for t in conjuncts(v2):
            if t[0] == "cmp" and t[1] == "!=" and any(is_null(x) for x in t[2:4]):
                t = next((x for x in t[2:4] if not is_null(x)), t)
            if t[0] == "call" and t[1].startswith("dyncast:"):
                ok_types.add(t[1][8:])
            n = nested(t, a.par)
            if n:
                passed = passed | {n}
        fit = [x for x in ok_types if x in p.cls and all(p.is_a(m, x) for m in made) and all(p.is_a(x, t) for t in need)]
        rep.ob("acceptance follows a checked downcast", bool(fit), "%s at %s" % (c, w))
        if not fit:
            rep.bad("%s::checkData accepts" % c, "%s: the consistency check of %s accepts data that was not shown to be %s (known here: %s)" %
                    (w, c, " or ".join(sorted(need) or sorted(made)), ", ".join(sorted(ok_types)) or "nothing"))
        if failed:
            rep.bad("%s::checkData accepts after a nested rejection" % c, "%s: the consistency check of %s accepts although %s rejected %s" %
                    ((w, c) + sorted(failed)[0]))
        for m, d in sorted(used):
            head = m.split(".")
            if len(head) != 1 or head[0] not in fields:
                continue
            ty = pointee(fields[head[0]][0].get("t"))
            if ty is None or not any(p.is_a(ty, r) for r in NESTED) or d in seen_elements(f, p, c, d, made):
                continue
            ok = (m, d) in passed
            rep.ob("nested data is checked", ok, "%s: %s by %s" % (c, d, m))
            if not ok:
                rep.bad("%s::checkData nested %s" % (c, d), "%s: the consistency check of %s accepts without asking %s about %s" % (w, c, m, d))
    for m, d in sorted(used):
        ty = pointee(fields[m][0].get("t")) if m in fields else None
        if ty is None or not any(p.is_a(ty, r) for r in NESTED) or not accepts:
            continue
        # one element stands for a container filled by the same factory
        ok = (m, d) in a.asked or d in seen_elements(f, p, c, d, made) and any(m2 == m for m2, _ in a.asked)
        rep.ob("nested model is asked", ok, "%s: %s by %s" % (c, d, m))
        if not ok and d in seen_elements(f, p, c, d, made):
            rep.bad("%s::checkData nested %s" % (c, d), "%s: the consistency check of %s never asks %s about %s" % (where, c, m, d))


def seen_elements(f, p, c, d, made):
    """{d} when the member is a container, whose elements are asked one by one."""
    for t in made:
        r = p.fields_of(t).get(d.split(".")[0])
        if r and "vector" in r[0].get("t", ""):
            return {d}
    return set()


def conjuncts(t):
    if t is None:
        return
    if t[0] in ("&&", "and"):
        for x in t[1:]:
            if isinstance(x, tuple):
                yield from conjuncts(x)
    else:
        yield t
