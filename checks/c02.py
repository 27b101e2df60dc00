"""C02: parallel node evaluation keeps nodes independent."""
from sa import model
from sa.cfg import Policy
from sa.flow import Client, Flow, bare, mentions, p_add, pretty, subterms, to_poly
from sa.frontend import AnalysisBroken
from sa.horizon import ftype
from sa.loops import Loop
from sa.modref import walk
from sa.prog import short
from sa.solvers import STEPS

RULE = ("In every loop the multithreaded build runs in parallel (or as a simd loop), each write of an iteration - its own and those of the functions it "
        "calls - goes to a variable of the iteration, to a declared reduction (which is only ever added to), or to the element of a container named "
        "by the iteration's own counter; a container written that way is not read at another iteration's element; models, the problem, the solver and "
        "globals are not written")
TECHNIQUE = "effect analysis of the OpenMP regions of the program parsed with multithreading enabled"
NOTE = ("Distinct elements of the per-node containers are taken to be distinct objects (data objects are created one per node, C14); "
        "models may be shared by nodes and are therefore never written.")

SHARED_BASES = ("ActionModelAbstract", "SolverAbstract", "ShootingProblem")


def lab(f):
    return "%s::%s" % (f.cls, f.sname)


class Region:
    def __init__(self, flow, node):
        self.flow, self.node, self.s = flow, node, node.extra
        self.kind = self.s["n"].replace("OMP", "").replace("Directive", "")
        ids, todo = set(), [s for s, _ in node.succ]
        while todo:
            n = todo.pop()
            if n.id in ids or n.kind in ("xexit",) or n.kind == "ompend" and n.extra is self.s:
                continue
            ids.add(n.id)
            todo += [s for s, _ in n.succ]
        self.ids = ids
        self.decls = {d["id"] for n in walk(self.s.get("b")) if n.get("k") == "decl" for d in n["d"]}
        self.inst = node.frame.inst
        self.private, self.reduction, self.rops = set(), set(), {}
        for c in self.s.get("cl", []):
            for v in c["v"]:
                for x in walk(v):
                    if x.get("k") in ("var", "mem"):
                        k = (x["k"], x["id"] if x["k"] == "var" and x["vk"] != "param" else x["n"])
                        n = x["n"]
                        if c["n"] == "reduction":
                            self.reduction.add(n)
                        elif c["n"] in ("private", "firstprivate", "lastprivate", "linear"):
                            self.private.add(n)
        heads = [h for h in flow.loops if h in ids and flow.g.nodes[h].frame is node.frame
                 and not any(h in flow.loops[o] and o != h and o in ids for o in flow.loops)]
        self.head = heads[0] if len(heads) == 1 else None

    def own(self, t):
        """Is the term private to the iteration?"""
        if t[0] == "loc":
            return t[1] != self.inst or t[2] in self.decls or t[3] in self.private
        return False


class Effects(Client):
    split_bools = False

    def __init__(self, rep, p, mr, regions):
        self.rep, self.p, self.mr, self.regions = rep, p, mr, regions
        self.acc = {}     # (region, container) -> {(offset | None): [(writes?, where)]}
        self.n = 0

    def visit(self, node, st, evs, flow):
        for r in self.regions:
            if node.id in r.ids:
                for e in evs:
                    self.event(r, e, st, flow)

    # -------------------------------------------------------------- one event
    def event(self, r, e, st, flow):
        for t in [e.val, e.obj] + list(e.args or ()) + ([e.loc] if e.k != "W" else []):
            if isinstance(t, tuple):
                for x in subterms(t):
                    if x[0] == "idx" and x[1][0] in ("fld", "p", "loc") and not r.own(x[1]):
                        self.access(r, x[1], x[2], False, e)
        if e.k == "W":
            self.write(r, e.loc, e, st, flow)
        elif e.k == "C":
            self.call(r, e, flow)

    def chain(self, t):
        out = []
        while isinstance(t, tuple):
            out.append(t)
            if t[0] in ("idx", "fld"):
                t = t[1]
            elif t[0] == "view" or t[0] in ("unk", "res", "call") and len(t) > 2:
                t = t[2]
            else:
                break
        return list(reversed([x for x in out if isinstance(x, tuple)]))

    def phi(self, r):
        return r.head

    def named(self, r, i):
        """('own', offset) | ('part', None) | None for an index of a shared container."""
        own = 0
        rest = []
        for m, c in to_poly(i).items():
            ph = [x for x in m if x[0] == "phi" and x[1] == r.head]
            if ph:
                if len(m) != 1 or c not in (1, -1):
                    return None
                own += c
            else:
                rest.append((m, c))
        if own in (1, -1):
            if any(mentions(x, lambda t: t[0] in ("phi", "unk")) for m, _ in rest for x in m):
                return None
            return ("own", p_add(i, ("lit", 0)))
        if own == 0:
            # offsets of consecutive parts kept per node: ixu_[t] + j
            parts = [(m, c) for m, c in rest if any(x[0] == "idx" and x[1][0] == "fld" and mentions(
                x[2], lambda t: t[0] == "phi" and t[1] == r.head) for x in m)]
            if len(parts) == 1 and len(parts[0][0]) == 1 and parts[0][1] == 1:
                return ("part", None)
        return None

    def access(self, r, c, i, w, e):
        nm = self.named(r, i)
        self.acc.setdefault((r, c), {}).setdefault(nm, []).append((w, e.where, pretty(i)))

    def model_class(self, t):
        if t[0] != "fld":
            return None
        ty = ftype(self.p, t)
        return ty

    def write(self, r, l, e, st, flow):
        self.n += 1
        ch = self.chain(l)
        root = ch[0]
        ok, why = False, None
        if r.own(root):
            # a local object; what a local pointer designates has been replaced by its value
            ok = True
        elif root[0] in ("phi",) and any(x[0] == "idx" for x in ch) is False:
            ok = True
        else:
            cand = [x for x in ch if x[0] == "idx" and not r.own(x[1])]
            nm = None
            for x in cand:
                nm = self.named(r, x[2])
                if nm:
                    self.access(r, x[1], x[2], True, e)
                    ty = ftype(self.p, x[1]) if x[1][0] == "fld" else ""
                    if "Model" in ty and l != x:
                        nm, why = None, "writes a model, which several nodes may share"
                    if "vector<bool" in ty:
                        nm, why = None, "neighbouring elements of a vector of bits share their memory"
                    break
            ok = bool(nm)
            if not ok:
                n = l[2] if l[0] == "fld" else l[3] if l[0] == "loc" else l[2] if l[0] == "p" else None
                if n in r.reduction:
                    ok = e.op in ("+=", "-=", "++", "--") or self.accumulates(l, e.val)
                    why = None if ok else "the reduction variable is not merely added to"
                if n in r.private:
                    ok = True
        self.rep.ob("write in a parallel loop", ok, "%s: %s at %s" % (lab(flow.fn), pretty(l), e.where))
        if not ok:
            self.rep.bad("%s/write/%s" % (lab(flow.fn), self.name(l)), "%s (%s): an iteration of the parallel loop at line %d writes %s: %s" % (
                e.where, lab(flow.fn), r.node.line, pretty(l), why or "it is neither private to the iteration nor named by the iteration's counter"))

    def accumulates(self, l, v):
        return isinstance(v, tuple) and v[0] == "poly"

    def name(self, l):
        return ".".join(str(x[2]) if x[0] == "fld" else x[3] if x[0] == "loc" else x[1] if x[0] == "view" else "[]" if x[0] == "idx" else x[0]
                        for x in self.chain(l)[1:] or [l])

    def call(self, r, e, flow):
        for t in sorted(e.impls or ()):
            f = self.p.fns.get(t)
            if f is None:
                continue
            g = {k: v for k, v in self.mr.globals.get(t, {}).items()}
            bad = {(c, n) for c, n in self.mr.fields.get(t, ()) if self.shared(c)}
            ok = not g and not bad
            self.rep.ob("call in a parallel loop", ok, "%s calls %s at %s" % (lab(flow.fn), lab(f), e.where))
            for k in sorted(g):
                self.rep.bad("%s/%s/global/%s" % (lab(flow.fn), lab(f), k), "%s (%s): the parallel loop calls %s, which writes the global %s" % (
                    e.where, lab(flow.fn), lab(f), k))
            for c, n in sorted(bad):
                self.rep.bad("%s/%s/field/%s.%s" % (lab(flow.fn), lab(f), c, n),
                             "%s (%s): the parallel loop calls %s, which writes %s::%s, shared by all nodes" % (e.where, lab(flow.fn), lab(f), c, n))
        # arguments written by the callee appear as writes; objects reached through pointer arguments:
        for i, a in enumerate(e.args or ()):
            if not isinstance(a, tuple) or not any(i in self.mr.pmut.get(t, ()) for t in e.impls or ()):
                continue
            self.write(r, a, e, None, flow)

    def shared(self, c):
        return c in self.shared_classes

    def conflicts(self, flow):
        for (r, c), m in self.acc.items():
            if not any(w for xs in m.values() for w, _, _ in xs):
                continue
            ok = len(m) == 1
            self.rep.ob("container written by node", ok, "%s: %s" % (lab(flow.fn), pretty(c)))
            if not ok:
                ws = sorted({(wh, i) for xs in m.values() for w, wh, i in xs if w})[0]
                offs = {nm for nm, xs in m.items() if any(w for w, _, _ in xs)}
                o = sorted((wh, i) for nm, xs in m.items() for w, wh, i in xs if nm not in offs or len(offs) > 1)
                o = [x for x in o if x != ws] or [ws]
                self.rep.bad("%s/neighbour/%s" % (lab(flow.fn), pretty(c)), "%s (%s): iterations of the parallel loop write %s[%s] while others use %s[%s] (%s)" % (
                    ws[0], lab(flow.fn), pretty(c), ws[1], pretty(c), o[0][1], o[0][0]))


def singletons(p):
    """Classes of objects with static storage, with what they keep inside."""
    out = set()
    for f in p.fns.values():
        if f.body is None:
            continue
        for n in walk(f.body):
            if n.get("k") == "var" and n.get("vk") in ("static", "global"):
                out |= {c for c in (short(bare(n.get("t") or "")),) if c in p.cls}
    todo = list(out)
    while todo:
        c = todo.pop()
        for fd in p.cls[c].fields:
            for d in p.cls:
                if d not in out and (d == short(bare(fd["t"])) or ("map<" in fd["t"] or "vector<" in fd["t"]) and any(
                        a.strip(" >*&").split("::")[-1] == d for a in fd["t"].replace("<", ",").split(","))):
                    out.add(d)
                    todo.append(d)
    return out


def check(rep):
    p, mr = model.load(mt=True)
    models = model.model_classes(p)
    shared = {c for c in models if "Data" not in c} | set(p.subclasses("SolverAbstract")) | {"ShootingProblem"}
    for c in list(shared):
        shared |= set(p.bases(c)) if hasattr(p, "bases") else set()
    shared |= singletons(p)
    n = w = 0
    for f in sorted(p.fns.values(), key=lambda f: (f.file, f.line)):
        if f.body is None or not any(x.get("k") == "omp" for x in walk(f.body)):
            continue
        cl = Effects(rep, p, mr, [])
        cl.shared_classes = shared
        fl = Flow(p, mr, f, f.cls, Policy(keep=STEPS - {f.sname}), cl)
        cl.regions = [Region(fl, x) for x in fl.g.nodes.values() if x.kind == "omp"] if isinstance(fl.g.nodes, dict) else \
            [Region(fl, x) for x in fl.g.nodes if x.kind == "omp"]
        for r in cl.regions:
            n += 1
            lp = Loop(fl, r.head) if r.head is not None else None
            ok = lp is not None and lp.phi is not None
            rep.ob("parallel loop", ok, "%s:%d %s" % (lab(f), r.node.line, r.kind))
            if not ok:
                raise AnalysisBroken("C02: the parallel construct at %s:%d is not a counted loop" % (f.file, r.node.line))
        fl.report()
        cl.conflicts(fl)
        w += cl.n
    rep.need("parallel and simd loops", n, 8)
    rep.need("writes classified", w, 40)
    rep.assume("The OpenMP directives are analysed in the program parsed with CROCODDYL_WITH_MULTITHREADING, which the build here leaves off")
