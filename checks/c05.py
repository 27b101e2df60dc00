"""C05: a rejected request leaves the object as it was."""
import re
from sa import model
from sa.cfg import Policy
from sa.flow import Client, Flow, mentions, pretty, subterms
from sa.prog import walk
from sa.summary import subst, truth

RULE = ("In every function that configures an object (setters, registry operations, problem updates, warm starts, resizing), no path "
        "that ends in an exception has changed a member of the object, an object it owns or an argument before; the same at every "
        "call, made after such a change, of a function that can itself reject its arguments")
TECHNIQUE = "effect-before-raise typestate over the inlined paths of every configuration function, with a may-raise closure over the call graph"
NOTE = ("A member that only the changing function itself reads is scratch space, not configuration. Exceptions of the language "
        "runtime (memory exhaustion) are outside the property. Registry operations that reject with a warning are C16's.")

CONFIG = re.compile(r"(set_|setCand|add|remove|change|update|circular|replace|resize|allocate|reset|init|shareMemory|setCallbacks|enable|disable)")
EVAL = {"calc", "calcDiff", "solve", "computeDirection", "forwardPass", "backwardPass", "tryStep", "createData", "operator()", "print", "stop", "start", "report"}


def base(l):
    while l[0] in ("idx", "view", "deref"):
        l = l[2] if l[0] == "view" else l[1]
    return l


class Early(Client):
    """Members changed so far, and sizes of local vectors."""
    maxkeys = 300
    split_bools = False

    def __init__(self, raisers, scratch, fixed):
        self.fixed = fixed
        self.raisers, self.scratch = raisers, scratch
        self.sites = {}
        self.throws = set()

    def init(self, flow):
        return (frozenset(), ())

    def step(self, key, e, st, flow):
        if key is None:
            return None
        done, sizes = key
        if e.k == "W" and e.loc is not None and not e.op.startswith("arg:"):
            b = base(e.loc)
            if b[0] == "loc":
                if e.op == "init" and e.val is not None and e.val[0] == "ctor" and len(e.val[2]) == 1:
                    sizes = tuple(sorted(set(s for s in sizes if s[0] != b) | {(b, e.val[2][0])}, key=repr))
                elif e.op.startswith("out:") and e.op[4:] in self.fixed:
                    pass        # handed out by a reference that cannot resize it
                elif e.loc == b:
                    sizes = tuple(s for s in sizes if s[0] != b)
                return (done, sizes)
            if e.op == "init" or b[0] == "fld" and (b[3], b[2]) in self.scratch:
                return key
            if e.op == "=" and e.val is not None and e.val == b:
                return key
            return (done | {(pretty(b)[:60], e.where)}, sizes)
        if e.k == "C" and done and e.id in self.raisers and e.name not in EVAL:
            # nothing is applied by the time the callee may reject
            self.sites.setdefault(e.where, (e.name, done))
        return key

    def edge(self, key, term, truth_, st, flow, node):
        if key is None:
            return None
        sizes = dict(key[1])

        def fn(x):
            if x[0] == "call" and x[1] in ("size", "rows") and x[2] is not None:
                v = x[2]
                v = v[2] if v[0] == "unk" and len(v) == 3 else v
                if v in sizes:
                    return sizes[v]
            return None
        v = truth(subst(term, fn))
        return None if v is not None and v != truth_ else key

    def leave(self, kind, node, st, flow):
        if kind == "throw" and st.key is not None:
            self.throws.add(st.key[0])


def raising(p, mr):
    """Functions that can throw, directly or through a call."""
    has = {f.id for f in p.fns.values() if f.body is not None and any(x.get("k") == "throw" for x in walk(f.body))}
    callers = {}
    for f in p.fns.values():
        if f.body is None:
            continue
        for x in walk(f.body):
            if x.get("k") in ("call", "opcall", "ctor") and x.get("id"):
                for t in mr.targets(x) or ():
                    callers.setdefault(t.id if hasattr(t, "id") else t, set()).add(f.id)
    todo = list(has)
    while todo:
        i = todo.pop()
        for c in callers.get(i, ()):
            if c not in has:
                has.add(c)
                todo.append(c)
    return has


def scratch(p):
    """Members read by no function but those that fill them, constructors and conversions aside."""
    readers = {}
    for f in p.fns.values():
        if f.body is None or f.rec.get("ctor") or f.sname in ("cast", "operator="):
            continue
        for x in walk(f.body):
            if x.get("k") == "mem":
                readers.setdefault((re.sub(r"^crocoddyl::|Tpl<double>$", "", x.get("c") or ""), x.get("n")), set()).add(f.id)
    return {m for m, fs in readers.items() if len(fs) == 1}


def check(rep):
    p, mr = model.load()
    raisers = raising(p, mr)
    scr = scratch(p)
    resizing = {f.sname for f in p.fns.values() for q in f.params if re.match(r"Eigen::(Plain|Matrix|Array)[^&]*&$", q.get("t") or "")}
    fixed = {f.sname for f in p.fns.values()} - resizing
    n = 0
    seen = set()
    for f in sorted((f for f in p.fns.values() if f.cls and f.body is not None), key=lambda f: (f.file, f.line, f.id)):
        if f.rec.get("const") or f.rec.get("ctor") or f.rec.get("dtor") or not CONFIG.match(f.sname) or f.id not in raisers or p.helper(f):
            continue
        mine = {(c, m) for c, m in scr if (c, m) in mr.fields.get(f.id, ())}
        c = Early(raisers, mine, fixed)
        Flow(p, mr, f, f.cls, Policy(keep=EVAL), c, None).report()
        if not c.throws and not c.sites:
            continue
        n += 1
        what = "%s::%s" % (f.cls, f.sname)
        bad = {}
        for done in c.throws:
            for l, w in done:
                bad.setdefault(l, (w, "an exception"))
        for w, (name, done) in c.sites.items():
            for l, w2 in done:
                bad.setdefault(l, (w2, "a call of %s, which can reject its arguments," % name))
        rep.ob("nothing changed before a rejection", not bad, what)
        for l, (w, why) in sorted(bad.items()):
            if (what, l) not in seen:
                seen.add((what, l))
                rep.bad("%s: %s" % (what, l), "%s: %s changes %s on a path that then ends in %s at its arguments" % (w, what, l, why))
    rep.need("rejecting configuration functions", n, 90)
