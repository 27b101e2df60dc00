"""C15: every node of the horizon is visited exactly once."""
from sa import model
from sa.cfg import Policy
from sa.flow import is_scalar, THIS, Client, Flow, base_chain, cmp_term, fld, is_num, lit, mentions, p_add, pretty, root_c, subterms, to_poly
from sa.horizon import NODE_STEPS, T, Lengths, Sweep, canon, family, ftype, guarded, indices, inside, is_T, length
from sa.solvers import STEPS, cur, method, solver_classes

RULE = ("Every access to a container with one element per node (lengths taken from the allocation code) has its index proved "
        "inside the container from the loop range; every loop with a per-node effect (write, evaluation, sum) together with the "
        "separately handled first or last element covers the whole container; no path through the body skips an effect because of "
        "the counter, repeats an evaluation or a sum; running evaluations and sums are followed by exactly one terminal one, of the "
        "same kind, on every way out; bodies that pass values between neighbours run in the direction of the recursion; "
        "feasibilities combine nodes by maximum for the infinity norm and by sum for the one norm.")
TECHNIQUE = "induction-variable ranges and symbolic index offsets over the inlined graphs of every horizon sweep, with a coverage typestate"
NOTE = "Decides index ranges, coverage, order and terminal handling for every horizon length of at least one node."

EVALS = {"calc", "calcDiff"}
ONCE = {"eval", "acc"}
DYNAMICS = {"eval_g", "eval_jac_g"}


class Cover(Client):
    """key: items ('it', head, effect), ('sw', effect, head, offset), ('pt', effect, index)"""
    split_bools = False
    maxkeys = 64

    def __init__(self, rep, p, lens, pre):
        self.rep, self.p, self.lens = rep, p, lens
        self.pre = pre            # Sweep of a first pass over the same graph
        self.report = False
        self.acc = 0
        self.reads = {}           # loop head -> container -> offsets
        self.writes = {}
        self.n = 0
        self.dup = set()

    def init(self, flow):
        return frozenset()

    # ---- which effects an event has
    def effects(self, ev, st, flow):
        out = []

        def place(kind, cont, n, ix):
            out.append((kind, cont, n, canon(flow, st, ix, self.lens)))
        if ev.k == "W":
            hit = False
            for b in base_chain(ev.loc):
                if b[0] == "idx":
                    n = length(flow, st, b[1], self.lens)
                    if n is not None and not is_num(n):
                        place("write", name(b[1]), n, b[2])
                        hit = True
            if not hit and ev.val is not None and ev.op in ("+=", "-=", "=") and root_c(ev.loc)[0] == "fld" and not ev.op == "init":
                comb = self.combine(ev)
                if comb:
                    tgt = pretty(ev.loc)
                    for x in subterms(ev.val):
                        if x[0] == "idx" and len(x) == 3:
                            n = length(flow, st, x[1], self.lens)
                            if n is None or is_num(n):
                                continue
                            if fld(x[1]) == "running_datas_":
                                for y in subterms(ev.val):
                                    if y[0] == "fld" and y[1] == x:
                                        place("acc", (tgt, "data." + y[2], comb), n, x[2])
                            elif fld(x[1]) not in ("running_models_",):
                                if not self.model_like(x[1], ev.val):
                                    place("acc", (tgt, name(x[1]), comb), n, x[2])
                        elif x[0] == "fld" and fld(x[1]) == "terminal_data_":
                            out.append(("acc", (tgt, "data." + x[2], comb), T, T))
        elif ev.k == "C":
            o = ev.obj
            if ev.name in EVALS and o is not None and o[0] == "idx":
                n = length(flow, st, o[1], self.lens)
                if n is not None:
                    place("eval", ev.name, n, o[2])
            elif ev.name in EVALS and o is not None and fld(o) == "terminal_model_":
                out.append(("eval", ev.name, T, T))
            elif ev.name == "checkData" and o is not None and o[0] == "idx":
                n = length(flow, st, o[1], self.lens)
                if n is not None:
                    place("check", "checkData", n, o[2])
            elif ev.name in NODE_STEPS and o == THIS and ev.args:
                place("step", ev.name, T, ev.args[0])
        return out

    def model_like(self, c, val):
        return False

    def combine(self, ev):
        v = ev.val
        if any(x[0] == "idx" or x[0] == "call" for x in subterms(ev.loc)):
            return None           # a part of a vector, not a running value
        if ev.op in ("+=", "-="):
            return "sum"
        if v[0] == "call" and v[1] == "max":
            return "max"
        if v[0] == "poly" or v[0] == "op" and v[1] == "+":
            return "sum"
        if is_scalar(ftype(self.p, ev.loc)):
            return "*"
        return None

    def where_in(self, ix, flow):
        """('loop', head, offset) or ('pt', index)"""
        s, off = self.pre.split(ix)
        if s and s in self.pre.byphi:
            return "loop", self.pre.byphi[s].head, off
        return "pt", ix, None

    def step(self, key, ev, st, flow):
        es = self.effects(ev, st, flow)
        seen = set()
        if ev.k == "W" and ev.op == "=" and ev.loc[0] == "fld" and ev.val is not None and is_scalar(ftype(self.p, ev.loc)) \
                and not mentions(ev.val, lambda x: x == ev.loc or x[0] in ("phi", "res", "unk")):
            tgt = pretty(ev.loc)      # starts again: what was combined so far is gone
            lost = [k for k in key if k[0] == "sw" and k[1][0] == "acc" and k[1][1][0] == tgt]
            if lost and self.report and any(e[0] == "acc" and e[1][0] == tgt for e in es):
                self.rep.bad("%s: %s overwritten" % (lab(flow), tgt),
                             "%s: %s is assigned the value of one node and loses what was combined over the others" % (ev.where, tgt))
            key = frozenset(k for k in key if not (k[0] in ("sw", "pt") and k[1][0] == "acc" and k[1][1][0] == tgt))
        for kind, cont, n, ix in es:
            w, a, off = self.where_in(ix, flow)
            e = (kind, cont)
            if (e, ix) in seen:
                continue
            seen.add((e, ix))
            if kind == "write":
                key = key | {("sw", e, a, off) if w == "loop" else ("pt", e, a)}
                if w == "loop":
                    key = key | {("it", a, e)}
                continue
            if w == "loop":
                if kind in ONCE and ("it", a, e) in key and self.report:
                    self.dupe(ev, e, "twice for one node", flow)
                key = key | {("it", a, e), ("sw", e, a, off)}
            else:
                if kind in ONCE and ("pt", e, a) in key and self.report:
                    self.dupe(ev, e, "twice for the same node", flow)
                key = key | {("pt", e, a)}
        return key

    def dupe(self, ev, e, what, flow):
        k = "%s: %s %s %s" % (lab(flow), e[0], show(e), what)
        if k not in self.dup:
            self.dup.add(k)
            self.rep.bad(k, "%s: %s of %s happens %s in one sweep" % (ev.where, e[0], show(e), what))

    def edge(self, key, term, truth, st, flow, node):
        for l in self.pre.loops.values():
            if l.test is node or (l.test is not None and l.test.id == node.id):
                key = frozenset(k for k in key if not (k[0] == "it" and k[1] == l.head))
        return key

    def visit(self, node, st, evs, flow):
        self.report = True
        key = st.key
        for ev in evs:
            key = self.step(key, ev, st, flow)
            self.access(ev, st, flow)
        if node.kind in ("branch", "rtest"):
            c = flow.cond_of(node, st)
            self.terms(c, node.where, st, flow, node)
        self.report = False

    # ---- bounds
    def access(self, ev, st, flow):
        for t in [ev.loc, ev.val, ev.obj] + list(ev.args or ()):
            if isinstance(t, tuple) and t:
                self.terms(t, ev.where, st, flow, ev.node)
        if ev.k == "C" and ev.name in NODE_STEPS and ev.obj == THIS and ev.args:
            b = self.pre.bounds(st, ev.args[0])
            ok = b is not None and inside(b[0], b[1], T)
            self.obl(ok, "node steps", "%s: %s is given a node of the horizon at %s" % (lab(flow), ev.name, ev.where))
            if not ok:
                self.rep.bad("%s: %s outside the horizon" % (lab(flow), ev.name),
                             "%s: %s is called for node %s, not known to be a running node" % (ev.where, ev.name, pretty(ev.args[0])))
        # recursion direction
        for b in base_chain(ev.loc) if ev.k == "W" else ():
            if b[0] == "idx" and self.hz(b[1], st, flow):
                s, off = self.pre.split(canon(flow, st, b[2], self.lens))
                if s in self.pre.byphi:
                    h = self.pre.byphi[s].head
                    if ev.val is not None and ev.val[0] == "idx" and ev.val[1] == b[1]:
                        continue       # shift copy
                    self.writes.setdefault(h, {}).setdefault(name(b[1]), set()).add(off)

    def hz(self, c, st, flow):
        n = length(flow, st, c, self.lens)
        return n is not None and not is_num(n)

    def obl(self, ok, kind, s):
        self.rep.ob(kind, ok, s)

    def terms(self, t, where, st, flow, node):
        for c, ix, gs in guarded(t):
            n = length(flow, st, c, self.lens)
            if n is None:
                # a vector given by the caller without a checked length, indexed by node
                if c[0] == "p" and flow.fn.cls == "ShootingProblem" and "vector" in flow.fn.params[c[1]]["t"] and \
                        node_elem(flow.fn.params[c[1]]["t"]):
                    n = canon(flow, st, ("call", "size", c, ()), self.lens)
                    s, off = self.pre.split(canon(flow, st, ix, self.lens))
                    if not (s and s in self.pre.byphi):
                        continue
                    b = self.pre.bounds(st, ix)
                    d = p_add(p_add(n, lit(-1)), b[1], -1) if b else None
                    ok = d is not None and is_num(d) and d[1] >= 0
                    self.obl(ok, "accesses inside the container", None)
                    if not ok:
                        self.rep.bad("%s: %s indexed past its size" % (lab(flow), name(c)),
                                     "%s: %s is indexed by node without knowing that it has that many elements" % (where, pretty(c)))
                continue
            if is_num(n):
                continue
            self.n += 1
            b = self.pre.bounds(st, ix, gs)
            ok = b is not None and inside(b[0], b[1], n)
            self.obl(ok, "accesses inside the container", "%s: %s[%s] at %s" % (lab(flow), name(c), pretty(ix), where))
            if not ok:
                self.rep.bad("%s: %s outside its %s elements" % (lab(flow), name(c), pretty(n)),
                             "%s: index %s of %s (length %s) is not proved inside: range %s" %
                             (where, pretty(ix), name(c), pretty(n), "unknown" if b is None else "%s..%s" % (pretty(b[0]), pretty(b[1]))))
            s, off = self.pre.split(canon(flow, st, ix, self.lens))
            if s in self.pre.byphi:
                self.reads.setdefault(self.pre.byphi[s].head, {}).setdefault(name(c), set()).add(off)

    # ---- exits
    def leave(self, kind, node, st, flow):
        if kind != "exit":
            return
        sw, pts, kinds = {}, {}, {}
        for k in st.key:
            if k[0] == "sw":
                sw.setdefault(k[1], []).append((k[2], k[3]))
            elif k[0] == "pt":
                pts.setdefault(k[1], set()).add(k[2])
            if k[0] in ("sw", "pt") and k[1][0] == "acc":
                kinds.setdefault((k[1][1][0], k[1][1][1]), set()).add(k[1][1][2])
        for e, ls in sw.items():
            for head, off in ls:
                l = self.pre.loops[head]
                hs = next(iter(flow.ins.get(head, {}).values()))
                lo, hi = canon(flow, hs, l.lo, self.lens), canon(flow, hs, l.hi, self.lens)
                iv = [(p_add(lo, off), p_add(hi, off))]
                alike = [e] if e[0] != "acc" else [f for f in pts if f[0] == "acc" and f[1][:2] == e[1][:2] and f[1][2] in (e[1][2], "*")]
                iv += [(x, x) for f in alike for x in pts.get(f, ())]
                need_hi = self.need(e, flow)
                gap = gaps(iv, need_hi)
                gap = self.excuse(gap, e, head, st, flow, need_hi)
                self.acc += 1
                self.rep.ob("sweeps covering the horizon", not gap, "%s: %s of %s over the loop at %s" % (lab(flow), e[0], show(e), l.where))
                if gap:
                    self.rep.bad("%s: %s of %s misses %s" % (lab(flow), e[0], show(e), gap),
                                 "%s: the loop %s..%s covers %s of %s but on some path %s is not handled" %
                                 (l.where, pretty(l.lo), pretty(l.hi), e[0], show(e), gap))
        for (tgt, what), ks in kinds.items():
            ks = ks - {"*"}
            if len(ks) > 1:
                self.rep.bad("%s: %s combines %s in two ways" % (lab(flow), tgt, what),
                             "%s: %s combines %s over the nodes by %s on one path" % (flow.fn.label, tgt, what, " and ".join(sorted(ks))))
            self.norm_kind(tgt, ks, st, flow)

    def norm_kind(self, tgt, ks, st, flow):
        if "FeasibilityNorm" not in self.p.enums or not tgt.startswith("tmp_feas_"):
            return
        en = self.p.enums["FeasibilityNorm"]
        for f in st.facts:
            if f[0] == "cmp" and f[1] == "==" and any(fld(x) == "feasnorm_" for x in f[2:]):
                c = [x for x in f[2:] if x[0] == "lit"]
                if not c:
                    continue
                want = {en.get("LInf"): "max", en.get("L1"): "sum"}.get(c[0][1])
                ok = want is None or ks <= {want}
                self.rep.ob("norm combinations", ok, "%s: %s for norm %s" % (lab(flow), "/".join(sorted(ks)), c[0][1]))
                if not ok:
                    self.rep.bad("%s: nodes combined by %s for the %s norm" % (lab(flow), "/".join(sorted(ks)), "infinity" if want == "max" else "one"),
                                 "%s: %s combines the nodes by %s where the norm asks for %s" % (flow.fn.label, tgt, "/".join(sorted(ks)), want))

    def need(self, e, flow):
        kind, cont = e
        if kind == "write":
            return p_add(self.clen(cont, flow), lit(-1))
        if kind == "eval":
            return T
        if kind == "acc":
            c = cont[1]
            return T if c.startswith("data.") else p_add(self.clen(c, flow), lit(-1))
        return p_add(T, lit(-1))

    def clen(self, nm, flow):
        for (c, f), n in self.lens.len.items():
            if f == nm and (self.p.is_a(flow.dyn, c) or c == "ShootingProblem"):
                return n
        return self.paramlen.get(nm, T)

    paramlen = {}

    def excuse(self, gap, e, head, st, flow, need_hi):
        if not gap:
            return gap
        # forward recursion: the seed of the trajectory is set before the sweep
        if gap == "node 0" and e[0] == "write":
            w = self.writes.get(head, {}).get(e[1], set())
            r = self.reads.get(head, {}).get(e[1], set())
            if w and r and max(nums(w)) > min(nums(r)):
                return ""
        if gap == "the last node" and flow.fn.cls == "IpoptInterface" and flow.fn.sname in DYNAMICS and e[0] in ("eval", "write"):
            return ""             # the dynamic constraints have no terminal evaluation
        if gap == "the last node" and any(mentions(f, lambda x: x[0] == "fld" and x[2] == "terminal_model_") and "_T" in pretty(f)
                                          for f in st.facts):
            return ""
        return gap


def node_elem(ty):
    return "shared_ptr" in ty or "Eigen" in ty or "Matrix" in ty or "VectorX" in ty


def pelem(flow, c):
    for q in flow.fn.params:
        if q["n"] == c:
            return node_elem(q["t"])
    return True


def nums(s):
    return [x[1] for x in s if is_num(x)] or [0]


def at(t, n=50):
    v = 0
    for m, c in to_poly(t).items():
        k = c
        for x in m:
            if x != T:
                return None
            k *= n
        v += k
    return v


def gaps(iv, hi):
    n = at(hi)
    if n is None:
        return "the whole horizon (unknown length)"
    got = set()
    for a, b in iv:
        a, b = at(a), at(b)
        if a is None or b is None:
            continue
        got |= set(range(a, b + 1))
    miss = [i for i in range(0, n + 1) if i not in got]
    if not miss:
        return ""
    if miss == [0]:
        return "node 0"
    if miss == [n]:
        return "the last node"
    if len(miss) == 1:
        return "node %s" % ("T-%d" % (50 - miss[0]) if miss[0] > 25 else miss[0])
    return "%d nodes" % len(miss) if len(miss) < 20 else "most nodes"


def name(c):
    return c[2] if c[0] in ("fld", "p") else c[3] if c[0] == "loc" else pretty(c)


def show(e):
    c = e[1]
    return " ".join(c[:2]) if isinstance(c, tuple) else str(c)


def lab(flow):
    f = flow.fn
    return "%s::%s" % (f.cls, f.sname)


def checks_only(sw, cov, rep, flow, lens):
    """Loops that only compare: every element is compared (or serves as the reference)."""
    for h, l in sw.loops.items():
        if l.phi is None:
            continue
        conts = {}
        ref0 = False
        for nid in sw.flow.loops[h]:
            node = sw.flow.g.nodes[nid]
            if node.kind != "branch" or node is l.test:
                continue
            for st in flow.states(node):
                c = flow.cond_of(node, st)
                for cc, ix in indices(c):
                    n = length(flow, st, cc, lens)
                    cx = canon(flow, st, ix, lens)
                    s, off = sw.split(cx)
                    if s == l.phi:
                        if n is None:
                            n = canon(flow, st, ("call", "size", cc, ()), lens)
                        if not is_num(n):
                            conts[name(cc)] = (n, off)
                    elif cx == lit(0):
                        ref0 = True
        if cov.writes.get(h) or any(k[0] == "it" and k[1] == h for (hh, n, i, j), st in flow.rawback.items() if hh == h for k in st.key):
            continue
        conts = {c: v for c, v in conts.items() if pelem(flow, c)}
        throws = any(flow.g.nodes[i].kind == "branch" and any(l._only_throws(s) for s, _ in flow.g.nodes[i].succ) for i in sw.flow.loops[h])
        if not throws:
            continue
        hs = next(iter(flow.ins.get(h, {}).values()))
        lo, hi = canon(flow, hs, l.lo, lens), canon(flow, hs, l.hi, lens)
        for c, (n, off) in conts.items():
            iv = [(p_add(lo, off), p_add(hi, off))]
            if ref0:
                iv.append((lit(0), lit(0)))
            top = p_add(n, lit(-1))
            if at(top) is None:       # a size the caller chose: the loop must end where it ends
                ok = p_add(hi, off) == top and (lo == lit(0) or ref0)
                gap = "" if ok else "some elements"
            else:
                # containers with a terminal element are validated for it separately
                gap = gaps(iv, p_add(T, lit(-1)) if at(top) == 50 else top)
            rep.ob("validation loops", not gap, "%s: %s at %s" % (lab(flow), c, l.where))
            if gap:
                rep.bad("%s: validation of %s misses %s" % (lab(flow), c, gap),
                        "%s: the loop that validates %s covers %s..%s and misses %s" % (l.where, c, pretty(l.lo), pretty(l.hi), gap))


def check(rep):
    p, mr = model.load()
    lens = Lengths(p, mr)
    for k, (a, b, w) in lens.bad.items():
        rep.bad("%s.%s has two lengths" % k, "%s: %s is allocated with %s elements here and %s elsewhere" % (w, k[1], pretty(b), pretty(a)))
    rep.need("per-node containers", len(lens.len), 35)
    nloops = nacc = ncov = 0
    for f in family(p):
        inl = NODE_STEPS if f.sname == "backwardPass" else set()
        pol = Policy(keep=STEPS - {f.sname} - inl - ({"allocateData"} if f.rec.get("ctor") else set()))
        if f.sname == "backwardPass":
            sweep_one(rep, p, mr, f, lens, Policy(keep=STEPS - {f.sname} - NODE_STEPS), True)
        r = sweep_one(rep, p, mr, f, lens, Policy(keep=STEPS - {f.sname, "allocateData"} if f.rec.get("ctor") else STEPS - {f.sname}))
        nloops += r[0]
        nacc += r[1]
        ncov += r[2]
    seeds(rep, p, mr)
    rep.need("horizon loops", nloops, 60)
    rep.need("accesses", nacc, 400)
    rep.need("covered effects", ncov, 100)


def seed(st, flow):
    b = ("fld", THIS, "problem_", None)
    for c in ("SolverAbstract", "IpoptInterface"):
        st.facts = st.facts | {cmp_term("<", lit(0), ("fld", ("fld", THIS, "problem_", c), "T_", "ShootingProblem"))}
    st.facts = st.facts | {cmp_term("<", lit(0), ("fld", THIS, "T_", "ShootingProblem"))}


def sweep_one(rep, p, mr, f, lens, pol, dironly=False):
    pre = Sweep(Flow(p, mr, f, f.cls, pol, None, seed), lens)
    cov = Cover(rep, p, lens, pre)
    cov.split_bools = False
    if dironly:
        cov.split_bools = True
        return direction_only(rep, p, f, lens, pre, pol, mr)
    fl = Flow(p, mr, f, f.cls, pol, cov, seed, pre.flow)
    # parameter lengths known from the guards
    cov.paramlen = {}
    for node in fl.g.nodes:
        for st in fl.ins.get(node.id, {}).values():
            for k, prm in enumerate(f.params):
                if "std::vector" in prm["t"]:
                    n = length(fl, st, ("p", k, prm["n"]), lens)
                    if n is not None and not is_num(n):
                        cov.paramlen[prm["n"]] = n
    pre2 = pre
    pre.flow = fl
    fl.report()
    nh = 0
    for h, l in pre2.loops.items():
        used = set(cov.reads.get(h, ())) | set(cov.writes.get(h, ()))
        if not used:
            continue
        nh += 1
        if l.why:
            continue
        ok = not [e for e in l.early if e[0].kind != "xexit"] or not cov.writes.get(h)
        rep.ob("sweeps without early exit", ok)
        if not ok:
            rep.bad("%s: sweep left early" % lab(fl), "%s: the sweep over the horizon can be left before its end (line %s)" %
                    (l.where, ", ".join(str(e[0].line) for e in l.early)))
        skipped(rep, fl, l, h)
        direction(rep, fl, l, cov.reads.get(h, {}), cov.writes.get(h, {}))
    # loops over nodes whose counter is not understood
    for h, l in pre2.loops.items():
        if l.why and l.phi is None and touches(fl, h, lens):
            rep.ob("horizon loops", False)
            rep.bad("%s: irregular sweep" % lab(fl), "%s: a loop over the horizon does not step through the nodes one by one: %s" % (l.where, l.why))
    checks_only(pre2, cov, rep, fl, lens)
    return nh, cov.n, cov.acc


def touches(fl, h, lens):
    """The loop indexes per-node containers by something that changes in it."""
    body = fl.loops[h]
    for nid in body:
        node = fl.g.nodes[nid]
        for st in fl.states(node):
            evs = []
            fl.transfer(node, st, evs)
            for ev in evs:
                for t in [ev.loc, ev.val, ev.obj] + list(ev.args or ()):
                    if not isinstance(t, tuple) or not t:
                        continue
                    for c, ix in indices(t):
                        if lens.of(c) is not None and mentions(ix, lambda x: x[0] == "phi" and x[1] == h):
                            return True
    return False


def skipped(rep, fl, l, h):
    """An effect that happens in some iterations only because of the counter."""
    states = [(st, {k[2] for k in st.key if k[0] == "it" and k[1] == h}) for (hh, n, i, j), st in fl.rawback.items() if hh == h]
    allfx = set().union(*[s for _, s in states]) if states else set()
    for st, s in states:
        miss = allfx - s
        rep.ob("iterations complete", True)
        for e in miss:
            by = [f for f in st.facts if f[0] == "cmp" and f != fl_test(l) and direct(f, l.phi) and not is_test(f, l)]
            if by:
                rep.bad("%s: %s of %s skipped for some nodes" % (lab(fl), e[0], show(e)),
                        "%s: %s of %s is skipped when %s" % (l.where, e[0], show(e), pretty(by[0])))


def fl_test(l):
    return None


def is_test(f, l):
    """The fact is the loop test itself (or the end of the previous iteration)."""
    for x, y in ((f[2], f[3]), (f[3], f[2])):
        d = to_poly(p_add(x, l.phi, -1))
        if (l.phi,) not in d and not any(l.phi in m for m in d):
            # phi + c OP bound with bound = hi (+1) or lo (-1)
            for b in (l.hi, l.lo):
                k = p_add(p_add(y, b, -1), p_add(x, l.phi, -1), -1)
                if is_num(k) and abs(k[1]) <= 1 and f[1] in ("<", "<="):
                    return True
    return False


def direct(f, phi):
    for x in f[2:]:
        if any(phi in m for m in to_poly(x)):
            return True
    return False


def direction(rep, fl, l, reads, writes):
    for c in set(reads) & set(writes):
        w, r = nums(writes[c]), nums(reads[c])
        for a in w:
            for b in r:
                if a == b:
                    continue
                want = 1 if a > b else -1
                ok = l.dir == want
                rep.ob("recursion order", ok, "%s: %s at %s runs %s" % (lab(fl), c, l.where, "forwards" if want == 1 else "backwards"))
                if not ok:
                    rep.bad("%s: recursion over %s runs the wrong way" % (lab(fl), c),
                            "%s: node k%+d of %s is computed from node k%+d but the loop runs %s" %
                            (l.where, a, c, b, "forwards" if l.dir == 1 else "backwards"))


def direction_only(rep, p, f, lens, pre, pol, mr):
    class Q:
        def bad(self, *a):
            pass
        ob = bad
    cov = Cover(Q(), p, lens, pre)
    cov.step = lambda key, ev, st, flow: key
    fl = Flow(p, mr, f, f.cls, pol, cov, seed, pre.flow)
    pre.flow = fl
    fl.report()
    for h, l in cov.pre.loops.items():
        if l.phi is None:
            continue
        direction(rep, fl, l, cov.reads.get(h, {}), cov.writes.get(h, {}))
    return 0, 0, 0


def seeds(rep, p, mr):
    pass
