"""C07: set, add and subtract modes do what they say."""
import re
from sa import model
from sa.cfg import Policy
from sa.flow import Client, Flow, lit, mentions, p_mul, pretty, subterms
from sa.frontend import AnalysisBroken
from sa.summary import subst, truth

RULE = ("Every function taking an assignment mode: what it leaves in each part of each output, as a symbolic sum, is the same quantity in the "
        "three modes, replacing (set), added (add) or subtracted (subtract); set covers the whole output; any other mode writes nothing; and a "
        "mode is forwarded only with an output that holds something. Every function asked for one or both Jacobians: what it "
        "writes to each is the same whether requested alone or together, nothing is written to one not requested, and a requested one "
        "is covered entirely")
TECHNIQUE = "symbolic comparison of the output effects of each function under every mode, by path-sensitive dataflow with the mode fixed"
NOTE = ("Quantities are compared as terms over the same inputs: two different formulas for one value would not be recognised as equal. "
        "That the quantity is the right derivative is not decided here.")

OPS = {"setto": 0, "addto": 1, "rmfrom": 2}
JC = {"both": 0, "first": 1, "second": 2}
OTHER = 77
WHOLE = "whole"


def is_out(q):
    t = q["t"]
    return bool(re.match(r"Eigen::Ref<(?!const)", t) or re.match(r"Eigen::[^&]*&$", t) and not t.startswith("const")) and "const Eigen" not in t


def part(l):
    """(output parameter, which part) of a location."""
    sub = []
    while l[0] not in ("p", "loc", "fld", "this"):
        if l[0] == "idx":
            sub.append(("idx", l[2:]))
            l = l[1]
        elif l[0] == "view":
            sub.append((l[1], l[3]))
            l = l[2]
        elif l[0] == "call":
            sub.append((l[1], l[3]))
            l = l[2]
        else:
            sub.append((l[0], l[2:]))
            l = l[1]
        if not isinstance(l, tuple):
            return None
    return l, tuple(reversed(sub)) or WHOLE


class Effects(Client):
    """What each part of each output holds: (still the old value?, signed terms)."""
    maxkeys = 300

    def __init__(self, outs, fixed):
        self.outs, self.fixed = outs, fixed
        self.exits, self.reached = {}, set()
        self.throws = 0

    def init(self, flow):
        return ((), ())

    def sub(self, t):
        return subst(t, lambda x: lit(self.fixed[x[1]]) if x[0] == "p" and x[1] in self.fixed else None)

    def step(self, key, e, st, flow):
        if key is None or e.k != "W" or e.loc is None or e.op.startswith("arg:"):
            return key
        b = part(e.loc)
        if b is None:
            return key
        root, where = b
        outs, locs = dict(key[0]), dict(key[1])
        v = e.val
        if v is not None:
            v = self.sub(subst(v, lambda x: locs.get(x) if x[0] == "loc" else None))
        if root[0] == "loc":
            if where == WHOLE and e.op in ("=", "init") and v is not None and not mentions(v, lambda x: x == root):
                locs[root] = v
            elif where == WHOLE and e.op in (".setZero",):
                locs[root] = lit(0)
            else:
                locs[root] = ("w", e.node.id, v if v is not None else lit(0))
            return (key[0], tuple(sorted(locs.items(), key=repr)))
        if root[0] != "p" or root[1] not in self.outs:
            return key
        k = (root[1], where)
        old, terms = outs.get(k) or (outs.get((root[1], WHOLE)) if where != WHOLE else None) or (True, frozenset())
        if where != WHOLE and k not in outs and (root[1], WHOLE) in outs:
            terms = frozenset()if not outs[(root[1], WHOLE)][1] else terms
        s = None
        if e.op in ("=", "init"):
            me = v is not None and mentions(v, lambda x: x == root)
            s = (False, frozenset({("+", v)})) if not me else (old, terms | {("?", v)})
            if v is not None and v == lit(0):
                s = (False, frozenset())
        elif e.op == "+=":
            s = (old, terms | {("+", v)})
        elif e.op == "-=":
            s = (old, terms | {("-", v)})
        elif e.op == ".setZero":
            s = (False, frozenset())
        elif e.op in (".setIdentity", ".setOnes", ".setConstant", ".fill"):
            s = (False, frozenset({("+", ("call", e.op, None, ()))}))
        elif e.op.startswith("out:"):
            s = (False, frozenset({("+", v and ("call", e.op, v[3], v[4]) if v and v[0] == "res" else lit(0))}))
        else:
            s = (old, terms | {(e.op, v)})
            if old and e.op in ("/=", "*="):
                s = (old, terms | {("scales the old value by", v)})
        if where == WHOLE:
            outs = {x: y for x, y in outs.items() if x[0] != root[1]} if not s[0] else outs
        outs[k] = s
        return (tuple(sorted(outs.items(), key=repr)), key[1])

    def edge(self, key, term, t, st, flow, node):
        v = truth(self.sub(term))
        return None if key is None or v is not None and v != t else key

    def leave(self, kind, node, st, flow):
        if st.key is None:
            return
        if kind == "exit":
            self.exits[st.key[0]] = node
        else:
            self.throws += 1


def run(p, mr, f, outs, fixed):
    pol = Policy(keep={"integrate", "diff", "calc", "calcDiff", "multiplyByJacobian", "multiplyJacobianTransposeBy", "Jintegrate", "Jdiff"} - {f.sname})
    c = Effects(outs, fixed)
    Flow(p, mr, f, f.cls, pol, c, None, Flow(p, mr, f, f.cls, pol)).report()
    return c


def covers(parts, tiles):
    """Do the parts written make up the whole output?"""
    if WHOLE in parts:
        return True
    names = [x[0] for x in parts if len(x) == 1]
    kinds = {n[0] for n in names}
    if kinds <= {"leftCols", "middleCols", "rightCols"} and {"leftCols", "rightCols"} <= kinds or \
            kinds <= {"topRows", "middleRows", "bottomRows"} and {"topRows", "bottomRows"} <= kinds:
        w = {n[1][-1] for n in names}
        mid = sorted((n[1][0] for n in names if n[0].startswith("middle")), key=repr)
        return len(w) == 1 and len(mid) <= 1 and all(m in w for m in mid) and tiles in (None, len(names))
    if kinds == {"head", "tail"}:
        return len({n[1][-1] for n in names}) == 1
    return False


def tiles(p, mr, f):
    """How many times nw the class's nu is, as its constructor sets it."""
    got = set()
    for k in p.ctors(f.cls):
        if k.body is None or len(k.params) != 1 or "&" in k.params[0]["t"]:
            continue
        w = {}

        class C(Client):
            def visit(self, node, st, evs, flow):
                for e in evs:
                    if e.k == "W" and e.loc is not None and e.loc[0] == "fld" and e.loc[2] in ("nw_", "nu_"):
                        w[e.loc[2]] = e.val
        Flow(p, mr, k, f.cls, Policy(), C(), None).report()
        for n in range(1, 6):
            if len(w) == 2 and w["nu_"] == p_mul(lit(n), w["nw_"]):
                got.add(n)
    return got.pop() if len(got) == 1 else None


def flat(exits, o):
    """{part: (old, terms)} of one output, if all exits agree."""
    got = {tuple((k[1], v) for k, v in x if k[0] == o) for x in exits}
    return [dict(g) for g in sorted(got, key=repr)]


def words(d):
    return "; ".join("%s%s: %s%s" % ("" if k == WHOLE else ".".join("%s(%s)" % (n, ",".join(pretty(a) for a in s if isinstance(a, tuple))) for n, s in k), "the whole" if k == WHOLE else "",
                     "old value " if v[0] else "", " ".join("%s %s" % (s, pretty(t)[:80] if t else "") for s, t in sorted(v[1], key=repr))) for k, v in sorted(d.items(), key=repr)) or "nothing"


def check(rep):
    p, mr = model.load()
    nop = njac = nfwd = 0
    for f in sorted((f for f in p.fns.values() if f.cls and "<" not in f.cls and f.body is not None), key=lambda f: (f.file, f.line, f.id)):
        iop = [i for i, q in enumerate(f.params) if q["t"].split("::")[-1] == "AssignmentOp"]
        ijc = [i for i, q in enumerate(f.params) if q["t"].split("::")[-1] == "Jcomponent"]
        outs = [i for i, q in enumerate(f.params) if is_out(q)]
        if not iop and not ijc or f.rec.get("ctor"):
            continue
        what = "%s::%s" % (f.cls, f.sname)
        at = "%s:%s" % (f.file, f.line)
        if iop and not outs:
            nfwd += 1
            forwards(rep, p, mr, f, iop[0], what)
            continue
        if iop and outs:
            nop += 1
            base = {j: JC["both"] for j in ijc}
            res = {m: run(p, mr, f, outs, {**base, iop[0]: k}) for m, k in list(OPS.items()) + [("other", OTHER)]}
            for o in outs:
                name = f.params[o]["n"] or "#%d" % o
                per = {m: flat(r.exits, o) for m, r in res.items()}
                sets = [d for d in per["setto"]]
                probs = []
                live = [d for d in sets if d]
                ok = bool(live) and len(sets) == len(live)
                if not ok:
                    probs.append("set leaves it as it was on some path")
                for d in live:
                    if any(v[0] for v in d.values()):
                        probs.append("set keeps the old value: %s" % words(d))
                    elif not covers(set(d), tiles(p, mr, f)):
                        probs.append("set overwrites only %s" % words(d))
                norm = {frozenset((k, v[1]) for k, v in d.items() if v[1]) for d in live}
                for m, sign in (("addto", {"+": "+", "-": "-"}), ("rmfrom", {"+": "-", "-": "+"})):
                    exp = {frozenset((k, frozenset((sign.get(s, s), t) for s, t in ts)) for k, ts in d) for d in norm}
                    got = {frozenset((k, v[1]) for k, v in d.items() if v[1]) for d in per[m]}
                    if any(not v[0] for d in per[m] for v in d.values()):
                        probs.append("%s overwrites it: %s" % (m, words(per[m][0])))
                    elif got != exp:
                        probs.append("%s does not apply the quantity of set: %s, against %s" % (m, words(per[m][0]) if per[m] else "nothing", words(live[0]) if live else "nothing"))
                if any(per["other"]):
                    probs.append("an unknown mode writes it")
                rep.ob("modes agree", not probs, "%s: %s" % (what, name))
                for x in probs[:1]:
                    rep.bad("%s: %s" % (what, name), "%s: %s of %s: %s" % (at, name, what, x))
        if ijc and len(outs) > 1 or ijc and len(outs) == 1:
            njac += 1
            base = {j: OPS["setto"] for j in iop}
            res = {m: run(p, mr, f, outs, {**base, ijc[0]: k}) for m, k in JC.items()}
            if len(outs) == 1:
                continue
            for n, (o, m) in enumerate(zip(outs[:2], ("first", "second"))):
                name = f.params[o]["n"] or "#%d" % o
                alone, both, not_ = (flat(res[x].exits, o) for x in (m, "both", "second" if m == "first" else "first"))
                probs = []
                if not any(alone):
                    probs.append("%s does not write it" % m)
                if any(not d for d in alone + both):
                    probs.append("left as it was on some path that requests it")
                if {repr(d) for d in alone} != {repr(d) for d in both}:
                    probs.append("%s writes %s; both writes %s" % (m, words(alone[0]) if alone else "nothing", words(both[0]) if both else "nothing"))
                if any(not_):
                    probs.append("written when only the other one is requested: %s" % words([d for d in not_ if d][0]))
                for d in alone:
                    if not iop and not covers(set(d), tiles(p, mr, f)):
                        probs.append("only %s is written" % words(d))
                rep.ob("requested Jacobians", not probs, "%s: %s" % (what, name))
                for x in probs[:1]:
                    rep.bad("%s: %s (component)" % (what, name), "%s: %s of %s: %s" % (at, name, what, x))
    rep.need("functions with an assignment mode", nop, 8)
    rep.need("functions with a Jacobian component", njac, 4)
    rep.need("functions forwarding a mode", nfwd, 1)
    rep.assume("the symbolic value of an expression over unchanged inputs is its value")


def forwards(rep, p, mr, f, iop, what):
    """The mode is passed on with an output of this function's own: it must hold something first."""
    bad = {}

    class C(Client):
        maxkeys = 64

        def init(self, flow):
            return frozenset()

        def step(self, key, e, st, flow):
            if e.k == "W" and e.loc is not None and e.loc[0] == "loc" and not e.op.startswith(("out:", "arg:")):
                if e.op in ("=", ".setZero", ".setConstant", ".setOnes", ".setIdentity") or e.op == "init" and \
                        e.val is not None and (e.val[0] == "call" or e.val[0] != "ctor" or not e.val[2]
                                               or e.val[1].startswith("Eigen") and any(x[0] == "call" and x[1] in ("Zero", "Constant", "Ones", "Identity") for x in subterms(e.val))):
                    return key | {e.loc}
            if e.k == "C" and any(a == ("p", iop, f.params[iop]["n"]) for a in e.args or ()):
                for a in e.args:
                    if isinstance(a, tuple) and a[0] == "loc" and a not in key:
                        bad.setdefault(e.where, pretty(a))
            return key
    Flow(p, mr, f, f.cls, Policy(keep={"multiplyByJacobian", "multiplyJacobianTransposeBy", "Jintegrate", "Jdiff"}), C(), None).report()
    rep.ob("forwarded mode", not bad, what)
    for w, x in bad.items():
        rep.bad("%s: %s" % (what, x), "%s: %s forwards its mode with %s, which nothing has initialised: add and subtract give garbage" % (w, what, x))
