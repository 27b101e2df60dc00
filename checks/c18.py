"""C18: constructors leave no scalar or pointer undefined."""
from sa import model
from sa.cfg import Policy
from sa.flow import THIS, Client, Flow, is_scalar, subterms
from sa.frontend import AnalysisBroken

RULE = ("Definite assignment over every constructor of every class (delegated constructors, base constructors and member functions it calls are followed): "
        "at each normal exit every number, flag, enumerator and raw pointer of the object, including the ones of its base classes, has been written; and "
        "nothing written, tested or passed on inside the constructor reads such a member (or a member object that is constructed later) before its value exists. "
        "Classes without a constructor of their own must give each such member a default.")
TECHNIQUE = "definite-assignment dataflow over the constructors"
NOTE = "The entries of vectors and matrices that a constructor only sizes are outside this property (their sizes are C08's)."


SCALARS = ("ptr", "bool", "enum", "int", "float")
# members whose value is defined by the class they belong to, not by the constructor of the owner
SKIP = ()


def plain(f):
    return f.get("cat") in SCALARS and "[" not in f["t"]


class Defs(Client):
    split_bools = False
    maxkeys = 64

    def __init__(self, rep, need, later, what):
        self.rep, self.need, self.later, self.what = rep, need, later, what
        self.exits = 0

    def init(self, flow):
        return frozenset()

    @staticmethod
    def mine(loc):
        return (loc[3], loc[2]) if loc is not None and loc[0] == "fld" and loc[1] == THIS else None

    def early(self, t, key, node):
        for x in subterms(t):
            m = self.mine(x) if isinstance(x, tuple) and x and x[0] == "fld" else None
            if m and m not in key and (m in self.need or m in self.later and node.kind == "minit" and m[0] == node.frame.fn.cls):
                return m
        return None

    def step(self, key, e, st, flow):
        if e.k == "W":
            m = self.mine(e.loc)
            if m and e.op in ("=", "init"):
                return key | {m}
        elif e.k == "C":
            # out-parameters: the member itself is handed over by address or mutable reference
            out = {self.mine(a) for a in (e.argl or ()) if a is not None}
            return key | {m for m in out if m and m in self.need}
        return key

    def visit(self, node, st, evs, flow):
        key = st.key
        for e in evs:
            ts = []
            if e.k == "W" and e.val is not None:
                ts = [e.val] + ([e.loc] if e.op not in ("=", "init") else [])
            elif e.k == "C":
                ts = list(e.args or ()) + ([e.obj] if e.obj is not None else [])
            for t in ts:
                m = self.early(t, key, node)
                if m:
                    self.rep.bad("%s: reads %s before it is set" % (self.what, m[1]),
                                 "%s: %s reads the member %s::%s before anything was stored in it" % (e.where, self.what, m[0], m[1]))
            key = self.step(key, e, st, flow)

    def edge(self, key, term, truth, st, flow, node):
        return key

    def leave(self, kind, node, st, flow):
        if kind != "exit":
            return
        self.exits += 1
        for m in sorted(self.need):
            ok = m in st.key
            self.rep.ob("member defined at exit", ok, "%s %s::%s" % (self.what, m[0], m[1]))
            if not ok:
                self.rep.bad("%s: leaves %s undefined" % (self.what, m[1]),
                             "%s:%s: a path through %s returns without storing anything in %s::%s" %
                             (flow.fn.file, flow.fn.line, self.what, m[0], m[1]))


def defaulted(c, f):
    """`= default` and implicit constructors copy or default every member; the members without a default are listed per class."""
    return any(m["id"] == f.id and m.get("dflt") for m in c.methods)


def forwards(p, f):
    """Conversions that delegate to the implicit copy constructor."""
    return any(i.get("deleg") and (i.get("e") or {}).get("id") not in p.fns for i in f.rec.get("inits", []))


def check(rep):
    p, mr = model.load()
    n = 0
    for c in sorted(p.cls.values(), key=lambda c: c.name):
        if "<" in c.name:
            continue
        cts = [f for f in p.ctors(c.name) if f.body is not None and not defaulted(c, f) and not forwards(p, f)]
        mine = {(c.name, f["n"]) for f in c.fields if plain(f)}
        if not cts and mine:
            for f in c.fields:
                if plain(f):
                    ok = bool(f.get("init"))
                    rep.ob("member with a default", ok, "%s::%s" % (c.name, f["n"]))
                    if not ok:
                        rep.bad("%s: %s has no default" % (c.name, f["n"]), "%s:%s: %s has no constructor and its member %s no default value" %
                                (c.file, f["l"], c.name, f["n"]))
        fs = p.fields_of(c.name)
        need = {(o, m) for m, (f, o) in fs.items() if plain(f)}
        later = {(o, m) for m, (f, o) in fs.items() if f.get("cat") == "record"}
        seen = {}
        for f in cts:
            what = "%s(%s)" % (c.name, ", ".join((q["n"] or "_") for q in f.params))
            seen[what] = seen.get(what, 0) + 1
            if seen[what] > 1:
                what += " #%d" % seen[what]
            fl = Flow(p, mr, f, c.name, Policy(keep=set()), None, None)
            cl = Defs(rep, need, later, what)
            fl.client = cl
            fl.run()
            fl.report()
            if not cl.exits:
                raise AnalysisBroken("no normal exit of %s was reached" % what)
            n += 1
    rep.need("constructors analysed", n, 120)
