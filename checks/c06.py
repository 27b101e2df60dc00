"""C06: copies and scalar conversions keep the configuration."""
import re
from sa import model
from sa.cfg import Policy
from sa.flow import THIS, Client, Flow, bare, fld, is_num, lit, mentions, p_add, pretty, subterms, from_poly, to_poly, p_mul, cmp_term, neg, canon
from sa.each import iterations
from sa.prog import walk
from sa.summary import CONV, DEFAULT, MANY, Summary, equal, feasible, fld_of, modified, resolve, shape, strip, subst, summary, truth
from sa.frontend import AnalysisBroken

RULE = ("Every conversion to another scalar type and every hand-written copy is composed symbolically: the members of the result are the constructor's "
        "(and later calls') effect on the values taken from the source. They are then compared with the source after each way it can be configured, that is "
        "after every constructor and every mutating member function: a member that some function of the class reads must hold the same value in the copy when it "
        "was handed over as it is, and a value derived from the same arguments otherwise. Registries (sums of costs, constraint managers) and lists of models must "
        "convert each item once, with its own name, model, weight and status.")
TECHNIQUE = "symbolic composition of constructor and setter summaries (interprocedural dataflow) with per-path comparison"
NOTE = ("Not compared: data objects, finite-difference steps (tied to the scalar's precision), callbacks of the source's scalar type, and members nothing reads. "
        "Derived values are compared by the settings they come from, not by formula. Multibody and code-generation models are not compiled here.")

class Conversion(Client):
    """How the result object of a conversion is built: constructor, then calls on it."""
    split_bools = False
    maxkeys = 64

    def __init__(self):
        self.ids = {}
        self.out = []

    def init(self, flow):
        return ()

    def step(self, key, e, st, flow):
        binds = {x[1]: x[2] for x in key if x[0] == "bind"}
        if binds:
            import copy
            e = copy.copy(e)
            r = lambda t: subst(t, lambda x: binds.get(x) if x[0] == "loc" else None) if t is not None else None
            e.args, e.val = tuple(map(r, e.args)) if e.args else e.args, r(e.val)
        if e.k == "CTOR":
            self.ids[(e.name, tuple(e.args or ()))] = e.id
        elif e.k == "W" and e.loc is not None and e.loc[0] == "loc" and e.val is not None and e.val[0] == "ctor" and e.op in ("=", "init"):
            return tuple(x for x in key if x[1] != e.loc) + (("new", e.loc, e.val),)
        elif e.k == "W" and e.loc is not None and e.loc[0] == "loc" and e.val is not None and e.op in ("=", "init") and e.val[0] != "lambda":
            old = binds.get(e.loc, e.val)
            return tuple(x for x in key if x[1] != e.loc) + (("bind", e.loc, e.val if old == e.val else MANY),)
        elif e.k == "C" and e.obj is not None and e.obj[0] == "loc" and any(x[1] == e.obj for x in key):
            x = ("call", e.obj, e.name, tuple(e.args or ()))
            return key if x in key else key + (x,)
        elif e.k == "W" and e.loc is not None and e.loc[0] == "fld" and e.loc[1][0] == "loc" and any(x[1] == e.loc[1] for x in key):
            x = ("store", e.loc[1], (base_name(e.loc[3]), e.loc[2]), e.val if e.op in ("=", "init") else ("opaque", e.where))
            return key if x in key else key + (x,)
        elif e.k == "RET":
            v = e.val
            if v is None:
                return key
            key = tuple(x for x in key if x[0] != "bind")
            if v[0] == "ctor" and v[2] and len(v[2]) == 1 and v[2][0][0] == "loc" and any(x[1] == v[2][0] for x in key):
                v = v[2][0]
            ops = [x for x in key if x[1] == v] if v[0] == "loc" else [("new", None, v)]
            return (("ret", None, tuple(ops)),)
        return key

    def leave(self, kind, node, st, flow):
        if kind == "exit":
            for x in st.key:
                if x[0] == "ret" and (x[2], st.facts) not in self.out:
                    self.out.append((x[2], st.facts))


def double_of(p, fid, name):
    """The double instantiation of a float constructor."""
    want = fid.split("|")[0].replace("float", "double")
    for f in p.fns.values():
        if f.rec.get("ctor") and f.body is not None and f.id.split("|")[0] == want:
            return f
    return None


def base_name(c):
    return re.sub(r"Tpl<\w+>$", "", c)


class Side:
    """A way to make a copy: final members of the copy over the members of the source."""

    def __init__(self, V, facts):
        self.V, self.facts = V, facts

    def get(self, f):
        return self.V.get(f, DEFAULT)


def apply(side_V, exits, args, new):
    """Members after a constructor (new) or a call on the object."""
    out = []
    for d, facts in exits:
        def fn(x):
            if x[0] == "p" and isinstance(x[1], int):
                return args[x[1]] if x[1] < len(args) else None
            if x[0] == "fld" and x[1] == THIS:
                return DEFAULT if new else side_V.get((x[3], x[2]), DEFAULT)
            return None
        V = {} if new else dict(side_V)
        for k, v in d.items():
            V[k] = subst(v, fn)
        out.append((V, frozenset(subst(f, fn) for f in facts)))
    return out


def writers(p, mr, cls):
    """Constructors and public mutators: everything that gives the members their values."""
    out = [f for f in p.ctors(cls) if f.body is not None and not f.rec.get("copy") and not converts(f)]
    for f in p.fns.values():
        if f.cls in p.linear_bases(cls) and f.body is not None and not f.rec.get("ctor") and not f.rec.get("dtor") and not f.const and \
                f.params and f.sname not in ("cast", "operator=") and not f.sname.startswith("calc") and not p.helper(f) and \
                any(c in p.linear_bases(cls) for c, _ in mr.fields[f.id]):
            out.append(f)
    return out


def observed(p, cls):
    """Members that some evaluation, accessor or other function of the class reads."""
    names = set()
    lin = list(p.linear_bases(cls))
    over = {}
    for f in p.fns.values():
        if f.cls in lin and f.body is not None and not f.rec.get("ctor") and not f.rec.get("dtor") and f.sname not in ("cast", "print") and \
                not f.sname.startswith("set_"):
            over.setdefault((f.sname, len(f.params), f.const), []).append(f)
    for (_, n, _), fs in over.items():
        # hidden or overridden accessors are not part of the class
        top = min(lin.index(f.cls) for f in fs)
        for f in fs:
            if n or lin.index(f.cls) == top:
                names |= {x.get("n") for x in walk(f.body) if x.get("k") == "mem"}
    return {(o, m) for m, (r, o) in p.fields_of(cls).items() if (m in names or r.get("acc") == 0) and m not in STEPS | CALLBACKS and
            "Data" not in p.fields_of(cls)[m][0].get("t", "")} - WITHOUT_EFFECT


# Not settings of the source that a copy could keep, each with its reason.
WITHOUT_EFFECT = {
    # true only together with a zero drift term, which is kept
    ("ActionModelLQR", "drift_free_"), ("DifferentialActionModelLQR", "drift_free_"),
    # notification of a change since the last solve, not configuration
    ("ShootingProblem", "is_updated_")}
# the step is tied to the precision of the scalar type: carrying it over would be wrong
STEPS = {"e_jac_", "e_hess_"}
# callbacks on matrices of the source's scalar type: there is nothing to convert them to
CALLBACKS = {"reevals_"}
# the constructors make one of the two internal dimensions zero, so there is nothing to bound
# when the other one is not (checked on the constructors)
EXCLUSIVE = {"ConstraintModelResidual": ("ng_internal_", "nh_internal_")}


def converts(f):
    return len(f.params) == 1 and "|" in f.id


def check(rep):
    p, mr = model.load()
    n = 0
    for f in sorted((f for f in p.fns.values() if f.sname == "cast" and f.body is not None and f.rec.get("ta") == ["float"] and f.cls),
                    key=lambda f: (f.file, f.line)):
        cls = f.cls
        if cls.endswith("Base") or "<" in cls or cls in REGISTRY:
            continue
        sides = []
        cl = Conversion()
        Flow(p, mr, f, cls, Policy(keep={"vector_cast"}, keep_pred=lambda g, onthis=None: g.cls and "<float>" in g.cls), cl, None).report()
        for ops, facts in cl.out:
            cur = [({}, frozenset(strip(x) for x in facts))]
            for op in ops:
                if op[0] == "new":
                    fid = cl.ids.get((base(op[2][1]), tuple(op[2][2])))
                    fid = fid or next((i for (a, b), i in cl.ids.items() if b == tuple(op[2][2])), None)
                    k = double_of(p, fid, cls) if fid else None
                    if k is None:
                        raise AnalysisBroken("%s: constructor of the result not found" % f.label)
                    cur = [(V, fa | fb) for _, fa in cur for V, fb in apply({}, summary(p, mr, k, cls), [strip(a) for a in op[2][2]], True)]
                elif op[0] == "call":
                    ks = [g for g in p.lookup(cls, op[2], len(op[3])) if g.body is not None]
                    if len(ks) != 1:
                        if any(g.const for g in ks):
                            continue
                        raise AnalysisBroken("%s: call of %s on the result not resolved" % (f.label, op[2]))
                    if ks[0].const:
                        continue
                    cur = [(V2, fa | fb) for V, fa in cur for V2, fb in apply(V, summary(p, mr, ks[0], cls), [strip(a) for a in op[3]], False)]
                elif op[0] == "store":
                    cur = [(dict(V, **{}), fa) for V, fa in cur]
                    for V, fa in cur:
                        V[op[2]] = strip(op[3])
            sides += [Side(V, fa) for V, fa in cur if feasible(fa)]
        if not sides:
            raise AnalysisBroken("%s: no result" % f.label)
        compare(rep, p, mr, f, cls, sides, "%s::cast" % cls)
        n += 1
    for f in sorted((f for f in p.fns.values() if f.sname == "cast" and f.body is not None and f.rec.get("ta") == ["float"] and f.cls in REGISTRY),
                    key=lambda f: f.file):
        registry(rep, p, mr, f)
        n += 1
    copies(rep, p, mr)
    lists(rep, p, mr)
    rep.need("conversions", n, 35)


def base(n):
    return n


REGISTRY = {"CostModelSum": ("addCost", "costs_"), "ConstraintModelManager": ("addConstraint", "constraints_")}


class Passed(Conversion):
    """How the result is constructed, and whether a loop was run to its end."""

    def __init__(self, loop):
        Conversion.__init__(self)
        self.loop = loop

    def step(self, key, e, st, flow):
        if e.k == "C" or e.k == "W" and e.val is not None and e.val[0] != "ctor":
            return key
        return Conversion.step(self, key, e, st, flow) + tuple(x for x in key if e.k == "RET" and x == ("all", None))

    def edge(self, key, term, truth, st, flow, node):
        if node.id == self.loop.test.id and truth == (self.loop.exit_succ[1][0] == "T") and ("all", None) not in key:
            return key + (("all", None),)
        return key

    def leave(self, kind, node, st, flow):
        if kind == "exit":
            self.out.append((st.key, st.facts))


def registry(rep, p, mr, f):
    """Every item is added to the result with its own name, model, weight and status."""
    add, cont = REGISTRY[f.cls]
    what = "%s::cast" % f.cls
    pol = Policy(keep={"vector_cast"}, keep_pred=lambda g, onthis=None: g.cls and "<float>" in g.cls)

    def effect(e, phi, st, fl):
        if e.k == "C" and e.name == add:
            return ("add", e.obj, tuple(strip(a) for a in e.args), e.id)
        if e.k == "W" and e.loc is not None and e.loc[0] == "loc" and e.op in ("=", "init") and e.val is not None:
            return ("bind", e.loc, strip(e.val))
        return None
    found = [x for x in iterations(p, mr, f, f.cls, pol, effect) if x[1] is not None and fld(x[1]) == cont]
    rep.ob("all items converted", len(found) == 1, what)
    if len(found) != 1:
        rep.bad("%s: items" % what, "%s:%s: %s does not walk once through all the items of %s" % (f.file, f.line, what, cont))
        return
    loop, c, its, where = found[0]
    fields = {x["n"] for x in p.cls[ITEM[f.cls]].fields}
    for it in its:
        binds, adds = {}, []
        for x in it:
            if x[0] == "bind":
                binds[x[1]] = x[2]
            else:
                adds.append((x, dict(binds)))
        ok = len(adds) == 1
        rep.ob("one item per iteration", ok, what)
        if not ok:
            rep.bad("%s: skips" % what, "%s: an iteration of %s adds %d items to the copy instead of one" % (loop.where, what, len(adds)))
            continue
        (_, obj, args, fid), binds = adds[0]
        g = next((g for g in p.fns.values() if g.cls == f.cls and g.sname == add and len(g.params) == len(args) and len(args) > 1), None)
        if g is None:
            raise AnalysisBroken("%s: %s not resolved" % (what, add))
        item = ("idx", c, loop.phi)
        for q, a in zip(g.params, args):
            a = subst(a, lambda x: binds.get(x) if x[0] == "loc" else None)
            a = subst(a, lambda x: ("loc*",) if x[0] == "loc" else None)
            tail = path(a, item)
            want = ("first",) if q["n"] == "name" else ("second", q["n"])
            ok = tail == want or q["n"] == "name" and tail == ("second", "name")
            if q["n"] not in fields:
                raise AnalysisBroken("%s: parameter %s of %s is no member of the item" % (what, q["n"], add))
            rep.ob("item kept", ok, "%s: %s" % (what, q["n"]))
            if not ok:
                rep.bad("%s: item %s" % (what, q["n"]), "%s: %s adds items whose %s is %s, not that of the source" %
                        (where.get(adds[0][0], loop.where), what, q["n"], pretty(a)))
        if len(args) < len(fields):
            rep.bad("%s: item" % what, "%s: %s does not hand over all of %s" % (loop.where, what, ", ".join(sorted(fields))))
    # the result is built from the same state and control dimension, and no path skips the loop
    cl = Passed(loop)
    Flow(p, mr, f, f.cls, pol, cl, None).report()
    for key, facts in cl.out:
        ok = ("all", None) in key
        rep.ob("all items converted", ok, what)
        if not ok:
            rep.bad("%s: items" % what, "%s:%s: %s has a path that does not convert the items" % (f.file, f.line, what))
        news = [x for x in key if x[0] == "new"] or [y for x in key if x[0] == "ret" for y in x[2] if y[0] == "new"]
        for x in news[:1]:
            args = [strip(a) for a in x[2][2]]
            ok = sorted(fld(a) or "?" for a in args) == ["nu_", "state_"]
            rep.ob("same dimensions", ok, what)
            if not ok:
                rep.bad("%s: construction" % what, "%s:%s: %s builds the copy from %s" % (f.file, f.line, what, ", ".join(map(pretty, args))))


ITEM = {"CostModelSum": "CostItem", "ConstraintModelManager": "ConstraintItem"}


def path(a, root):
    """Member names from root to a."""
    out = []
    while a != root:
        if a[0] == "fld":
            out.append(a[2])
            a = a[1]
        elif a[0] == "deref":
            a = a[1]
        elif a[0] == "ctor" and len(a[2]) == 1:
            a = a[2][0]
        else:
            return None
    return tuple(reversed(out))


def copies(rep, p, mr):
    """User-written copy constructors and assignments treat every member."""
    n = 0
    for f in sorted((f for f in p.fns.values() if f.cls and f.body is not None), key=lambda f: (f.file, f.line)):
        cls = f.cls
        same = len(f.params) == 1 and p.cls.get(cls) is not None and copied_class(f.params[0]["t"]) == cls
        if not same or not (f.rec.get("ctor") or f.sname == "operator=") or f.rec.get("dflt") or f.rec.get("impl"):
            continue
        if not f.file or "<" in cls:
            continue
        if "<float>" in f.params[0]["t"]:
            continue
        n += 1
        what = "%s (copy)" % cls if f.rec.get("ctor") else "%s::operator=" % cls
        sides = []
        for d, facts in summary(p, mr, f, cls):
            if any(x[0] == "cmp" and x[1] == "==" and THIS in x[2:] for x in facts):
                continue        # assignment to itself
            if f.rec.get("ctor"):
                sides.append(Side({k: of_source(v) for k, v in d.items()}, frozenset(map(of_source, facts))))
                continue
            for m, (rec, o) in p.fields_of(cls).items():
                v = d.get((o, m), fld_of((o, m)))
                ok = of_source(v) == fld_of((o, m)) and (o, m) in d
                rep.ob("member copied", ok, "%s: %s" % (what, m))
                if not ok:
                    rep.bad("%s: loses %s" % (what, m), "%s:%s: %s leaves the member %s without the value of the source" %
                            (f.file, f.line, what, m))
        if sides:
            compare(rep, p, mr, f, cls, sides, what)
    rep.need("copy functions", n, 3)


def lists(rep, p, mr):
    """vector_cast converts every element, in order."""
    n = 0
    for f in sorted((f for f in p.fns.values() if f.sname == "vector_cast" and f.body is not None), key=lambda f: f.id):
        n += 1

        def effect(e, phi, st, fl):
            if e.k == "M" and e.name in ("push_back", "emplace_back"):
                return ("add", strip(e.args[0]))
            if e.k == "W" and e.loc is not None and e.loc[0] == "idx" and e.loc[1][0] == "loc":
                return ("put", e.loc[2], strip(e.val)) if e.val is not None else ("put", e.loc[2], None)
            return None
        found = [x for x in iterations(p, mr, f, None, Policy(keep_pred=lambda g, onthis=None: bool(g.cls)), effect) if x[1] is not None and x[1][0] == "p"]
        ok = len(found) == 1
        for l, c, its, _ in found:
            el = ("idx", c, l.phi)
            ok = ok and bool(its) and all(len(it) == 1 and it[0] in (("add", el), ("put", l.phi, el)) for it in its) and not l.early
        rep.ob("list converted", ok, f.id[:120])
        if not ok:
            rep.bad("vector_cast", "%s:%s: the conversion of a list of models does not convert each element once, in order" % (f.file, f.line))
    rep.need("conversions of lists", n, 1)


def copied_class(t):
    m = re.match(r"^const (?:crocoddyl::)?(\w+?)(?:Tpl<[\w ]+>)? ?&$", t)
    return m.group(1) if m else None


def of_source(t):
    """The value with the copied object as *this."""
    return subst(t, lambda x: THIS if x[0] == "p" and x[1] == 0 else None)




def simple(t):
    """A value handed over as it is: compared exactly."""
    return t[0] in ("p", "lit") or t[0] == "fld" and simple(t[1]) or t == THIS


def params_of(t):
    return {x for x in subterms(t) if x[0] == "p"}


def kept(lhs, rhs, facts):
    if equal(lhs, rhs, facts) or nothing(lhs):
        return True
    if simple(rhs):
        return False
    # a derived value: it has to come from the same settings
    return lhs != DEFAULT and params_of(rhs) <= params_of(lhs)


def nothing(v):
    """A vector of size zero."""
    return v[0] == "call" and shape(v) is not None and lit(0) in shape(v)


def compare(rep, p, mr, f, cls, sides, what):
    fs = {(o, m) for m, (_, o) in p.fields_of(cls).items()}
    seen = observed(p, cls)
    said = set()
    for M in writers(p, mr, cls):
        ctor = bool(M.rec.get("ctor"))
        via = "%s(%s)" % (M.sname if not ctor else cls, ", ".join(q["n"] or "_" for q in M.params))
        for E, mf in summary(p, mr, M, cls):
            if cls in EXCLUSIVE:
                a, b = EXCLUSIVE[cls]
                if ctor:
                    if not any(v == lit(0) for k, v in E.items() if k[1] in (a, b)):
                        raise AnalysisBroken("%s: a constructor leaves both %s and %s free" % (cls, a, b))
                elif any(x[0] == "cmp" and x[1] in ("<", "!=") and lit(0) in x[2:] and any(z[0] == "fld" and z[2] == b for z in x[2:]) for x in mf):
                    continue
            def fn(x, E=E):
                if x[0] == "fld" and x[1] == THIS:
                    return E.get((x[3], x[2]), DEFAULT if ctor else None)
                return None
            ks = [k for k in sorted(fs) if k in seen and (ctor or E.get(k, fld_of(k)) != fld_of(k))]
            results = []
            for s in sides:
                sf = frozenset(subst(x, fn) for x in s.facts)
                if not feasible(sf, mf):
                    continue
                hyp = frozenset() if ctor else frozenset(cmp_term("==", s.get(k), fld_of(k)) for k in fs)
                lost = [(k, subst(s.get(k), fn), E.get(k, DEFAULT if ctor else fld_of(k))) for k in ks]
                lost = [x for x in lost if not kept(x[1], x[2], mf | sf | hyp)]
                results.append((all(truth(x) or x in mf for x in sf), lost))
            # paths that certainly run have to be right, and one of those that may
            certain = [x for d, x in results if d]
            maybe = [x for d, x in results if not d]
            worst = set()
            for x in certain + ([min(maybe, key=len)] if maybe else []):
                worst |= set(x)
            for k in ks:
                rep.ob("member kept", k not in {x[0] for x in worst}, "%s: %s after %s" % (what, k[1], via))
            for k, lhs, rhs in sorted(worst, key=canon):
                if (k, via) in said:
                    continue
                said.add((k, via))
                rep.bad("%s: loses %s" % (what, k[1]),
                        "%s: the copy made by %s does not keep %s: after %s the source holds %s, the copy %s" %
                        ("%s:%s" % (f.file, f.line), what, k[1], via, pretty(rhs)[:160], pretty(lhs)[:160]))
