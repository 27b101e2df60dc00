"""Forward dataflow over an inlined graph: symbolic values, branch facts, events.

Values are terms (nested tuples).  A term denotes a value at the entry of the
analysed function, so facts about terms stay true when locations are written;
a location whose content is unknown after a call reads as ('unk', node, loc).
"""
import re

from .cfg import Graph
from .modref import VIEWS, is_mut_ref, is_ptr, sname
from .prog import ASSIGN, short, walk

THIS = ("this",)
SCALAR = {"bool", "int", "unsigned int", "long", "unsigned long", "double", "float",
          "char", "short", "unsigned char", "long long", "unsigned long long",
          # enumerations of libraries
          "Ipopt::ApplicationReturnStatus", "Eigen::ComputationInfo", "Ipopt::SolverReturn"}
# wrappers that do not change which object (or which value) is meant
TRANSPARENT = {"noalias", "derived", "get", "operator->", "operator*", "const_cast_derived",
               "eval", "operator bool", "operator()<>"}
EIGEN_VIEW = {"head", "tail", "segment", "block", "topRows", "bottomRows", "leftCols",
              "rightCols", "middleCols", "middleRows", "topLeftCorner", "topRightCorner",
              "bottomLeftCorner", "bottomRightCorner", "col", "row", "diagonal",
              "transpose", "array", "matrix", "triangularView", "adjoint"}
CMP = {"==", "!=", "<", "<=", ">", ">="}


def bare(t):
    t = t or "?"
    if t.endswith("&&"):
        t = t[:-2]
    elif t.endswith("&"):
        t = t[:-1]
    t = t.strip()
    if t.startswith("const "):
        t = t[6:]
    return t.strip()


def is_scalar(t, prog=None):
    b = bare(t)
    if b in SCALAR:
        return True
    if prog is not None and short(b) in prog.enums:
        return True
    return False


def is_iter(t):
    return "iterator" in (t or "") or "_Rb_tree" in (t or "")


def is_vec_type(t):
    t = t or ""
    return "Matrix<double, -1, 1" in t or "VectorBlock" in t


def is_eigen(t):
    return "Eigen::" in (t or "")


def is_view_type(t):
    b = bare(t)
    return b.startswith(("Eigen::Block", "Eigen::VectorBlock", "Eigen::Ref", "Eigen::Map",
                         "Eigen::Diagonal", "Eigen::Transpose", "Eigen::NoAlias", "Eigen::ArrayWrapper"))


# ---------------------------------------------------------------- terms
_key = {}


def tkey(t):
    k = _key.get(t)
    if k is None:
        k = repr(t)
        if len(_key) > 400000:
            _key.clear()
        _key[t] = k
    return k


def lit(v):
    return ("lit", v)


def is_num(t):
    return t[0] == "lit" and isinstance(t[1], (int, float)) and not isinstance(t[1], bool)


def to_poly(t):
    if t[0] == "poly":
        return dict(t[1])
    if is_num(t):
        return {(): t[1]} if t[1] != 0 else {}
    return {(t,): 1}


def from_poly(d):
    d = {m: c for m, c in d.items() if c != 0}
    if not d:
        return ("lit", 0)
    if len(d) == 1:
        (m, c), = d.items()
        if m == ():
            return ("lit", c)
        if c == 1 and len(m) == 1:
            return m[0]
    return ("poly", tuple(sorted(d.items(), key=lambda kv: tkey(kv[0]))))


def p_add(a, b, s=1):
    d = dict(to_poly(a))
    for m, c in to_poly(b).items():
        d[m] = d.get(m, 0) + s * c
    return from_poly(d)


def p_mul(a, b):
    x, y = to_poly(a), to_poly(b)
    if len(x) * len(y) > 64:
        return ("mulbig", a, b)
    d = {}
    for m1, c1 in x.items():
        for m2, c2 in y.items():
            m = tuple(sorted(m1 + m2, key=tkey))
            d[m] = d.get(m, 0) + c1 * c2
    return from_poly(d)


def subterms(t):
    st = [t]
    while st:
        x = st.pop()
        if isinstance(x, tuple):
            if x and isinstance(x[0], str):
                yield x
            st.extend(y for y in x if isinstance(y, tuple))


def mentions(t, pred):
    return any(pred(x) for x in subterms(t))


def tsize(t, cap=600):
    n, st = 0, [t]
    while st and n < cap:
        x = st.pop()
        n += 1
        if isinstance(x, tuple):
            st.extend(x)
    return n


def root(t):
    """The storage a location term is a view of: strips views and indices."""
    while True:
        if t[0] == "view":
            t = t[2]
        else:
            return t


def base_chain(t):
    """Location, its view base, its container, its owner ... up to the root object."""
    out = [t]
    while True:
        if t[0] == "view":
            t = t[2]
        elif t[0] in ("fld", "idx"):
            t = t[1]
        else:
            return out
        out.append(t)


def nodeid(n):
    """Unknown values are numbered by the node that overwrote them, or -id-1 for a join."""
    return n if n >= 0 else -n - 1


def fld(t):
    return t[2] if t[0] == "fld" else None


def pretty(t, d=0):
    if not isinstance(t, tuple):
        return str(t)
    if not t:
        return "()"
    if not isinstance(t[0], str):
        return "(%s)" % ", ".join(pretty(x, d + 1) for x in t)
    if d > 6:
        return "..."
    k = t[0]
    r = lambda x: pretty(x, d + 1)
    if k == "this":
        return "this"
    if k == "p":
        return t[2] or "arg%d" % t[1]
    if k == "fld":
        return (r(t[1]) + "." if t[1] != THIS else "") + t[2]
    if k == "lit":
        return str(t[1])
    if k == "loc":
        return t[3]
    if k == "idx":
        return "%s[%s]" % (r(t[1]), r(t[2]))
    if k == "view":
        return "%s.%s(%s)" % (r(t[2]), t[1], ", ".join(r(x) for x in t[3]))
    if k == "call":
        return "%s%s(%s)" % (r(t[2]) + "." if t[2] else "", t[1], ", ".join(r(x) for x in t[3]))
    if k == "poly":
        out = []
        for m, c in t[1]:
            s = "*".join(r(x) for x in m)
            if c != 1 or not m:
                s = ("%s*%s" % (c, s)) if m else str(c)
            out.append(s)
        return "(" + " + ".join(out) + ")"
    if k == "op" and len(t) == 3:
        return "%s(%s)" % (t[1], r(t[2]))
    if k in ("cmp", "op"):
        return "(%s)" % ((" %s " % t[1]).join(r(x) for x in t[2:]))
    if k == "not":
        return "!" + r(t[1])
    if k == "phi":
        return "%s~%s" % (t[2][-1] if isinstance(t[2], tuple) else t[2], t[1])
    if k == "unk":
        return "%s?" % (r(t[2]) if len(t) > 2 and isinstance(t[2], tuple) else "")
    return "%s(%s)" % (k, ", ".join(r(x) if isinstance(x, tuple) else str(x) for x in t[1:]))


def cmp_term(op, a, b):
    if a[0] == "lit" and b[0] == "lit" and a[1] is not None and b[1] is not None and \
            not isinstance(a[1], str) and not isinstance(b[1], str):
        try:
            return lit({"==": a[1] == b[1], "!=": a[1] != b[1], "<": a[1] < b[1], "<=": a[1] <= b[1],
                        ">": a[1] > b[1], ">=": a[1] >= b[1]}[op])
        except TypeError:
            pass
    if op in (">", ">="):
        a, b = b, a
        op = "<" if op == ">" else "<="
    if op in ("==", "!=") and tkey(a) > tkey(b):
        a, b = b, a
    return ("cmp", op, a, b)


def neg(t):
    if t[0] == "not":
        return t[1]
    if t[0] == "lit":
        return lit(not t[1])
    if t[0] == "cmp":
        op, a, b = t[1:]
        if op == "==":
            return ("cmp", "!=", a, b)
        if op == "!=":
            return ("cmp", "==", a, b)
        if op == "<":
            return ("cmp", "<=", b, a)
        if op == "<=":
            return ("cmp", "<", b, a)
    return ("not", t)


def conj(t):
    """Facts that hold when t is true."""
    if t[0] == "and":
        return conj(t[1]) + conj(t[2])
    if t[0] == "not" and t[1][0] == "or":
        return conj(neg(t[1][1])) + conj(neg(t[1][2]))
    if t[0] == "not" and t[1][0] == "not":
        return conj(t[1][1])
    return [t]


def canon(k):
    """repr that does not depend on set order."""
    if isinstance(k, (frozenset, set)):
        return "{%s}" % ",".join(sorted(canon(x) for x in k))
    if isinstance(k, tuple):
        return "(%s)" % ",".join(canon(x) for x in k)
    return repr(k)


class Ev:
    __slots__ = ("k", "loc", "op", "val", "name", "id", "obj", "args", "argl", "line", "node",
                 "virt", "res", "const", "depth", "exp", "impls")

    def __init__(self, k, node, line, **kw):
        self.k = k
        self.node = node
        self.line = line
        for s in ("loc", "op", "val", "name", "id", "obj", "args", "argl", "virt", "res", "const", "impls"):
            setattr(self, s, kw.get(s))

    @property
    def where(self):
        return "%s:%s" % (self.node.frame.fn.file, self.line)

    def __repr__(self):
        if self.k == "W":
            return "W %s %s %s @%s" % (pretty(self.loc), self.op, pretty(self.val) if self.val else "", self.line)
        if self.k == "C":
            return "C %s%s(%s) @%s" % (pretty(self.obj) + "." if self.obj else "", self.name,
                                       ", ".join(pretty(a) for a in self.args), self.line)
        return "%s %s @%s" % (self.k, self.name or "", self.line)


BOOLS = ("or", "and", "not", "cmp")


class St:
    __slots__ = ("env", "killed", "facts", "key")

    def __init__(self, env=None, killed=None, facts=frozenset(), key=None):
        self.env = env if env is not None else {}
        self.killed = killed if killed is not None else {}
        self.facts = facts
        self.key = key

    def copy(self):
        return St(dict(self.env), dict(self.killed), self.facts, self.key)

    def same(self, o):
        return self.env == o.env and self.killed == o.killed and self.facts == o.facts

    def has(self, f):
        return f in self.facts


class Client:
    """Typestate client: key is the typestate, step() moves it over an event."""
    split_bools = True
    maxkeys = 48

    def init(self, flow):
        return None

    def step(self, key, ev, st, flow):
        return key

    def edge(self, key, term, truth, st, flow, node):
        return key

    def raised(self, key, evs, st, flow):
        """Typestate at a handler when one of the events raised."""
        return key

    def visit(self, node, st, evs, flow):
        """Reporting pass, once per node and state after the fixpoint."""

    def leave(self, kind, node, st, flow):
        """Reporting pass at ret / xexit nodes."""


class Flow:
    def __init__(self, prog, mr, fn, dyn, policy, client=None, seed=None, pre=None):
        """pre: an earlier flow over the same function and policy.  Its loop-carried values enter every
        loop as phis, so that a client that splits states by iteration sees one induction value."""
        self.prog = prog
        self.pre = pre
        self.mr = mr
        self.client = client or Client()
        self.g = Graph(prog, fn, dyn, policy)
        self.fn = fn
        self.dyn = dyn
        self.ins = {}      # node id -> {key: St}
        self.heads = {n.id for n in self.g.nodes if n.kind == "head"}
        self.iters = 0
        self.seed = seed
        self.backrank = self.g.rank
        self.run()

    # ------------------------------------------------------------ engine
    def initial(self):
        st = St()
        fr = self.g.root
        st.env[("this", fr.inst)] = THIS
        for i, p in enumerate(self.fn.params):
            st.env[("v", fr.inst, p["id"])] = ("p", i, p["n"])
        if self.seed:
            self.seed(st, self)
        st.key = self.client.init(self)
        return st

    def fullkey(self, st):
        k = st.key
        if self.client.split_bools:
            bs = tuple(sorted(((repr(v), t[1]) for v, t in st.env.items()
                               if t[0] == "lit" and isinstance(t[1], bool) and v[0] in ("v", "fld", "tmp"))))
            return (k, bs)
        return (k, ())

    def natural_loops(self):
        """{head id: ids of the nodes of its loop}"""
        g = self.g
        out = {}
        for h in self.heads:
            if h not in g.live:
                continue
            body, st = {h}, []
            for p in g.nodes[h].pred:
                if p.id in g.live and g.rank[p.id] >= g.rank[h]:
                    st.append(p)
            while st:
                n = st.pop()
                if n.id in body or n.id not in g.live:
                    continue
                body.add(n.id)
                st.extend(n.pred)
                if n.kind == "catch":
                    st.extend(self.raisers.get(n.id, ()))
            out[h] = body
        return out

    def back(self, head, st):
        """Values and facts of the finished iteration are not those of the next."""
        body = self.loops[head.id]
        stale = lambda x: x[0] in ("phi", "unk", "res", "big") and nodeid(x[1]) in body
        facts = frozenset(f for f in st.facts if not mentions(f, stale))
        env = {}
        for k, v in st.env.items():
            if mentions(k, stale):
                continue
            if mentions(v, stale):
                ph = ("phi", head.id, k)
                if v[0] == "iter" and not mentions(v[1], stale):
                    v = ("iter", v[1], ph)
                else:
                    v = ph
            env[k] = v
        killed = {k: (-head.id - 1 if nodeid(n) in body else n) for k, n in st.killed.items()}
        return St(env, killed, facts, st.key)

    def carry(self, head, st):
        st = st.copy()
        for ps in self.pre.ins.get(head.id, {}).values():
            for k, v in ps.env.items():
                ph = ("phi", head.id, k)
                if v == ph or (v[0] == "iter" and v[2] == ph):
                    st.env[k] = v
            for k, n in ps.killed.items():
                if n == -head.id - 1:
                    st.killed[k] = n
                    for kk in [kk for kk in st.env if kk[0] in ("fld", "idx", "view") and kk not in ps.env and
                               any(x[0] == "fld" and (x[3], x[2]) == k for x in base_chain(kk))]:
                        del st.env[kk]
        return st

    def refresh(self, node):
        """Recomputes the input states of a node from its predecessors' latest outputs."""
        groups = {}
        for ck in sorted(self.contrib[node.id]):
            st = self.contrib[node.id][ck]
            key = self.fullkey(st)
            groups.setdefault(canon(key), []).append(st)
        if len(groups) > self.client.maxkeys:
            g2 = {}
            for ck in sorted(self.contrib[node.id]):
                st = self.contrib[node.id][ck]
                g2.setdefault(canon((st.key, "*")), []).append(st)
            groups = g2
        old = self.ins.get(node.id, {})
        new = {}
        changed = False
        for k, sts in groups.items():
            st = sts[0]
            for o in sts[1:]:
                st = self.join(node, st, o)
            if self.visits.get(node.id, 0) > 60 and k in old:
                st = self.join(node, old[k], st)
            if k not in old or not old[k].same(st):
                changed = True
            new[k] = st
        if set(new) != set(old):
            changed = True
        self.ins[node.id] = new
        return changed

    def join(self, node, a, b):
        env = {}
        for k, x in a.env.items():
            y = b.env.get(k)
            if y is None:
                if k[0] in ("fld", "idx", "view"):
                    if self.is_killed(b, k):
                        env[k] = ("phi", node.id, k)
                    else:
                        env[k] = self.jt(node, k, x, k)
                continue
            env[k] = x if x == y else self.jt(node, k, x, y)
        for k in [k for k, v in env.items() if v == ("phi", node.id, k) and a.env[k][0] in BOOLS] if a.env else ():
            v = self.jrel(node, a, b, a.env[k], b.env.get(k))
            if v is not None:
                env[k] = v
        for k, y in b.env.items():
            if k in env or k in a.env:
                continue
            if k[0] in ("fld", "idx", "view"):
                env[k] = ("phi", node.id, k) if self.is_killed(a, k) else self.jt(node, k, k, y)
        killed = dict(a.killed)
        for k, v in b.killed.items():
            if a.killed.get(k) != v:
                killed[k] = -node.id - 1
        for k in a.killed:
            if k not in b.killed:
                killed[k] = -node.id - 1
        facts = a.facts & b.facts
        return St(env, killed, facts, a.key)

    def jrel(self, node, a, b, x, y):
        """Joins two truth values operand by operand when each pair of operands is the value of
        one location in both states; None when it is not."""
        if x == y:
            return x
        if not isinstance(x, tuple) or not isinstance(y, tuple):
            return None
        if x[0] == y[0] and x[0] in BOOLS and len(x) == len(y):
            out = [self.jrel(node, a, b, p, q) if isinstance(p, tuple) or isinstance(q, tuple) else (p if p == q else None)
                   for p, q in zip(x[1:], y[1:])]
            return None if None in out else (x[0],) + tuple(out)
        for k, v in a.env.items():
            if v == x and b.env.get(k) == y and k[0] == "fld":
                return ("phi", node.id, k)
        for k in (x, y):
            if k[0] == "fld" and a.env.get(k, k) == x and b.env.get(k, k) == y and \
                    not self.is_killed(a, k) and not self.is_killed(b, k):
                return ("phi", node.id, k)
        return None

    def is_killed(self, st, k):
        return k[0] == "fld" and (k[3], k[2]) in st.killed

    def jt(self, node, key, x, y):
        if x == y:
            return x
        if x[0] == "iter" and y[0] == "iter" and x[1] == y[1]:
            return ("iter", x[1], self.jt(node, key, x[2], y[2]))
        return ("phi", node.id, key)

    def run(self):
        g = self.g
        self.raisers = {}
        for n in g.nodes:
            for h in n.handler or ():
                self.raisers.setdefault(h.id, []).append(n)
        self.loops = self.natural_loops()
        self.contrib = {n.id: {} for n in g.nodes}
        self.visits = {}
        self.rawback = {}
        self.rawfrom = set()
        sent = {}
        self.contrib[g.entry.id][(-1, 0, 0)] = self.initial()
        self.refresh(g.entry)
        work = {g.entry.id}
        guard = 0
        while work:
            nid = min(work, key=lambda i: g.rank[i])
            work.discard(nid)
            node = g.nodes[nid]
            guard += 1
            self.visits[nid] = self.visits.get(nid, 0) + 1
            if guard > 60000:
                raise RuntimeError("dataflow does not converge in %s" % self.fn)
            out = {}
            raw = {}
            for i, k in enumerate(sorted(self.ins[nid])):
                for j, (succ, lab, st) in enumerate(self.transfer(node, self.ins[nid][k], None)):
                    if succ.id not in g.live:
                        continue
                    if succ.id in self.loops and nid in self.loops[succ.id] and g.rank[nid] >= g.rank[succ.id]:
                        raw[(succ.id, nid, i, j)] = st
                        st = self.back(succ, st)
                    elif self.pre is not None and succ.id in self.loops:
                        st = self.carry(succ, st)
                    out.setdefault(succ.id, {})[(nid, i, j)] = st
            for sid in set(out) | sent.get(nid, set()):
                c = self.contrib[sid]
                for ck in [ck for ck in c if ck[0] == nid]:
                    del c[ck]
                c.update(out.get(sid, {}))
                if self.refresh(g.nodes[sid]):
                    work.add(sid)
            sent[nid] = set(out)
            if raw or nid in self.rawfrom:
                self.rawfrom.add(nid)
                for ck in [ck for ck in self.rawback if ck[1] == nid]:
                    del self.rawback[ck]
                self.rawback.update(raw)
        self.iters = guard

    def report(self):
        c = self.client
        for node in self.g.rpo:
            for st in list(self.ins.get(node.id, {}).values()):
                evs = []
                outs = self.transfer(node, st, evs)
                c.visit(node, st, evs, self)
        for node in (self.g.exit, self.g.xexit):
            for st in self.ins.get(node.id, {}).values():
                c.leave("exit" if node is self.g.exit else "throw", node, st, self)

    def cond_of(self, node, st):
        self.transfer(node, st, None)
        return self.last_cond

    def loop_values(self, head, key):
        """(values on entry, values at the end of an iteration) of a location in a loop."""
        body = self.loops[head]
        init, step = set(), set()
        for ck, st in self.contrib[head].items():
            if not (ck[0] in body and self.g.rank[ck[0]] >= self.g.rank[head]):
                init.add(st.env.get(key, key if key[0] in ("fld", "idx", "view") else None))
        for (h, n, i, j), st in self.rawback.items():
            if h == head:
                step.add(st.env.get(key, key if key[0] in ("fld", "idx", "view") else None))
        return init, step

    def leaves(self, t):
        """The values a joined term can stand for: phis are followed to what flowed in."""
        return {x for x, f in self.leaf_facts(t)}

    def leaf_facts(self, t, facts=frozenset()):
        """Values a joined term can stand for, each with the facts known where it flowed in."""
        out, seen, st = set(), set(), [(t, facts)]
        while st:
            x, fs = st.pop()
            if (x, fs) in seen:
                continue
            seen.add((x, fs))
            if x[0] == "phi" or (x[0] == "unk" and x[1] < 0):
                nid, key = nodeid(x[1]), x[2]
                if (x,) in seen:
                    continue
                seen.add((x,))
                srcs = [s for ck, s in self.contrib[nid].items() if not (
                    nid in self.loops and ck[0] in self.loops[nid] and self.g.rank[ck[0]] >= self.g.rank[nid])]
                srcs += [s for (h, n, i, j), s in self.rawback.items() if h == nid]
                for s in srcs:
                    v = s.env.get(key)
                    if v is None and key[0] == "fld":
                        fk = (key[3], key[2])
                        v = ("unk", s.killed[fk], key) if fk in s.killed else key
                    st.append((v if v is not None else ("unk", nid, key), s.facts))
                continue
            if x[0] == "ite":
                st += [(x[2], fs | {x[1]}), (x[3], fs | {neg(x[1])})]
                continue
            out.add((x, fs))
        return out

    def states(self, node):
        return list(self.ins.get(node.id, {}).values())

    # ------------------------------------------------------------ transfer
    def transfer(self, node, st0, evsink):
        """List of (successor, label, state)."""
        st = st0.copy()
        evs = []
        x = Eval(self, node, st, evs)
        k = node.kind
        throws = False
        retval = None
        if k == "expr":
            x.stmt(node.e)
        elif k == "decl":
            x.decl(node.e)
        elif k == "minit":
            x.minit(node)
        elif k == "baseinit":
            x.val(node.e)
        elif k == "bind":
            x.bind(node)
        elif k == "setret":
            if node.e is not None:
                st.env[("tmp", node.extra)] = x.ref(node.e) if node.extra else x.val(node.e)
        elif k == "settmp":
            st.env[("tmp", node.extra)] = x.val(node.e)
        elif k == "rinit":
            c = x.ref(node.e)
            st.env[("tmp", node.extra)] = ("iter", c, lit(0))
        elif k == "rinc":
            it = st.env.get(("tmp", node.extra))
            st.env[("tmp", node.extra)] = ("iter", it[1], p_add(it[2], lit(1))) if it and it[0] == "iter" else ("unk", node.id, ("this",))
        elif k == "relem":
            it = st.env.get(("tmp", node.extra))
            el = ("idx", it[1], it[2]) if it and it[0] == "iter" else ("unk", node.id, THIS)
            st.env[("v", node.frame.inst, node.e["id"])] = el
        elif k == "ret":
            if node.e is not None:
                retval = x.val(node.e)
            evs.append(Ev("RET", node, node.line, val=retval))
        elif k == "throw":
            if node.e is not None:
                pass
            evs.append(Ev("THROW", node, node.line))
        elif k == "catch":
            evs.append(Ev("CATCH", node, node.line))
        elif k == "leave":
            i = node.extra.inst
            st.env = {kk: v for kk, v in st.env.items()
                      if not (kk[0] in ("v", "this") and kk[1] == i) and not (kk[0] == "isref" and kk[2] == i)}
        elif k in ("omp", "ompend"):
            evs.append(Ev(k.upper(), node, node.line))
        cond = None
        if k in ("branch", "switch"):
            cond = x.val(node.e)
            if node.e["k"] == "tmp":
                st.env.pop(("tmp", node.e["key"]), None)
        elif k == "rtest":
            it = st.env.get(("tmp", node.extra))
            if it and it[0] == "iter":
                cond = cmp_term("<", it[2], ("call", "size", it[1], ()))
            else:
                cond = ("unk", node.id, THIS)
        self.last_cond = cond
        keys = st.key
        for ev in evs:
            keys = self.client.step(keys, ev, st, self)
        st.key = keys
        if evsink is not None:
            evsink.extend(evs)
        outs = []
        if k in ("branch", "rtest"):
            for succ, lab in node.succ:
                truth = lab[0] == "T"
                s2 = self.assume(st, cond if truth else neg(cond), node)
                if s2 is not None:
                    s2.key = self.client.edge(s2.key, cond, truth, s2, self, node)
                    outs.append((succ, lab, s2))
        elif k == "switch":
            for succ, lab in node.succ:
                if lab[0] == "case":
                    f = cmp_term("==", cond, lit(lab[1]))
                    s2 = self.assume(st, f, node)
                    if s2 is not None:
                        s2.key = self.client.edge(s2.key, f, True, s2, self, node)
                else:
                    s2 = st.copy()
                    for v in lab[1]:
                        s2 = s2 and self.assume(s2, cmp_term("!=", cond, lit(v)), node)
                    for v in lab[1] if s2 is not None else ():
                        s2.key = self.client.edge(s2.key, cmp_term("==", cond, lit(v)), False, s2, self, node)
                if s2 is not None:
                    outs.append((succ, lab, s2))
        else:
            for succ, lab in node.succ:
                outs.append((succ, lab, st if len(node.succ) == 1 else st.copy()))
        if node.handler and k != "throw" and any(e.k == "C" for e in evs):
            # a call inside a try block may raise; the handler sees the state
            # before it, minus what the call may have written
            s3 = st0.copy()
            s3.killed = dict(st.killed)
            s3.env = {kk: v for kk, v in st0.env.items() if kk[0] not in ("fld", "idx", "view") or
                      st.env.get(kk) == v}
            s3.key = self.client.raised(st0.key, evs, st0, self)
            for h in node.handler:
                outs.append((h, ("exc",), s3.copy()))
        return outs

    def assume(self, st, t, node):
        if t[0] == "lit":
            return st.copy() if t[1] else None
        if t[0] == "or":
            return st.copy()
        s2 = st.copy()
        add = set()
        for f in conj(t):
            if f[0] == "lit":
                if not f[1]:
                    return None
                continue
            if self.contradicts(f, st.facts):
                return None
            add.add(f)
            # a flag tested true/false becomes a constant
        s2.facts = st.facts | add
        return s2

    def contradicts(self, f, facts):
        if neg(f) in facts:
            return True
        if f[0] == "cmp":
            op, a, b = f[1:]
            if op == "==":
                if ("cmp", "<", a, b) in facts or ("cmp", "<", b, a) in facts:
                    return True
                # two different constants for the same term
                c, t = (a, b) if a[0] == "lit" else (b, a) if b[0] == "lit" else (None, None)
                if c is not None:
                    for g in facts:
                        if g[0] == "cmp" and g[1] == "==" and t in g[2:]:
                            o = g[3] if g[2] == t else g[2]
                            if o[0] == "lit" and o[1] != c[1]:
                                return True
            if op == "<" and a == b:
                return True
            if op == "!=" and a == b:
                return True
        return False


class Eval:
    def __init__(self, flow, node, st, evs):
        self.flow = flow
        self.prog = flow.prog
        self.mr = flow.mr
        self.node = node
        self.frame = node.frame
        self.st = st
        self.evs = evs
        self.penv = None   # parameter environment while expanding a pure accessor
        self.pthis = None
        self.pdepth = 0

    # ---- environment
    def this(self):
        if self.pthis is not None:
            return self.pthis
        return self.st.env.get(("this", self.frame.inst), ("unk", self.node.id, THIS))

    def var(self, e):
        if self.penv is not None and e["vk"] == "param":
            return self.penv.get(e["id"], ("unk", self.node.id, THIS))
        if e["vk"] in ("global", "static"):
            return ("global", e["n"])
        k = ("v", self.frame.inst, e["id"])
        t = self.st.env.get(k)
        if t is None:
            t = ("loc", self.frame.inst, e["id"], e["n"])
        return t

    def read(self, loc, ty):
        """Value of a location."""
        env = self.st.env
        if loc in env and loc[0] != "loc":
            return env[loc]
        if is_scalar(ty, self.prog) or is_ptr(ty or "") or is_iter(ty):
            if loc[0] == "fld" and (loc[3], loc[2]) in self.st.killed:
                return ("unk", self.st.killed[(loc[3], loc[2])], loc)
            if loc[0] == "loc":
                return env.get(loc, loc)
        return loc

    def ev(self, k, e, **kw):
        l = e["l"] if e else self.node.line
        if self.pdepth:
            l = self.node.line
        v = Ev(k, self.node, l, **kw)
        self.evs.append(v)
        return v

    # ---- lvalues: the location an expression names
    def ref(self, e):
        k = e["k"]
        if k == "var":
            return self.var(e)
        if k == "mem":
            b = self.ref(e["b"]) if e["b"]["k"] != "this" else self.this()
            l = ("fld", b, e["n"], short(e["c"]))
            if is_ptr(e.get("t") or ""):
                return self.read(l, e.get("t"))
            return l
        if k == "this":
            return self.this()
        if k == "tmp":
            return self.st.env.get(("tmp", e["key"]), ("unk", self.node.id, THIS))
        if k == "cast":
            t = self.ref(e["e"])
            return self.dyncast(e.get("t"), t) if e.get("ck") == "dynamic" else t
        if k == "un" and e["op"] in ("*", "&"):
            t = self.ref(e["e"])
            if t[0] == "iter":
                return ("idx", t[1], t[2])
            return t
        if k == "idx":
            return ("idx", self.ref(e["b"]), self.val(e["i"]))
        if k == "opcall":
            op = e["op"]
            if op in ("->", "*") and len(e["a"]) == 1:
                t = self.ref(e["a"][0])
                if t[0] == "iter":
                    return ("idx", t[1], t[2])
                return t
            if op in ("[]", "()") and e.get("m") and not e.get("id"):
                b = self.ref(e["a"][0])
                ix = tuple(self.val(a) for a in e["a"][1:])
                if not ix:
                    return b
                return ("idx", b, ix[0] if len(ix) == 1 else ("pair",) + ix)
        if k == "call":
            s = sname(e.get("fn") or "?")
            if not e.get("id") and e.get("o") is not None:
                if s in TRANSPARENT and not e["a"]:
                    t = self.ref(e["o"])
                    return t
                if s in EIGEN_VIEW:
                    o = self.ref(e["o"])
                    if s in ("array", "matrix"):
                        return o
                    return self.view(s, o, tuple(self.val(a) for a in e["a"]), e)
                if s in ("back", "front"):
                    c = self.ref(e["o"])
                    i = p_add(("call", "size", c, ()), lit(-1)) if s == "back" else lit(0)
                    return ("idx", c, i)
                if s == "at":
                    return ("idx", self.ref(e["o"]), self.val(e["a"][0]))
            if s in ("static_pointer_cast", "dynamic_pointer_cast", "move", "forward", "const_pointer_cast", "ref", "cref") \
                    and len(e["a"]) == 1:
                t = self.ref(e["a"][0])
                return self.dyncast(e.get("t"), t) if s == "dynamic_pointer_cast" else t
        if k == "ctor" and e.get("copy") and len(e["a"]) == 1 and not e.get("id"):
            return self.ref(e["a"][0])
        if k == "ctor" and bare(e.get("t")).startswith("Eigen::Ref<") and e["a"]:
            return self.ref(e["a"][0])
        if k == "cond":
            return self.val(e)
        return self.val(e)

    def dyncast(self, t, term):
        """A checked downcast: the same object, unless the client tells them apart."""
        if not getattr(self.flow.client, "dyncast", False):
            return term
        t = bare(t or "?")
        m = re.match(r"std::shared_ptr<(.*)>$", t)
        return ("call", "dyncast:" + short(m.group(1) if m else t.rstrip("* ").strip()), term, ())

    def view(self, s, o, args, e):
        return ("view", s, o, args)

    # ---- values
    def val(self, e):
        t = self.val_(e)
        if tsize(t) >= 600:
            return ("big", self.node.id, hash(t) & 0xffffff)
        return t

    def val_(self, e):
        if e is None:
            return ("unk", self.node.id, THIS)
        k = e["k"]
        if k == "lit":
            if e.get("null"):
                return ("lit", None)
            v = e["v"]
            if isinstance(v, float) and v == int(v) and abs(v) < 1e15:
                v = int(v)
            return ("lit", v)
        if k == "str":
            return ("str", e["v"])
        if k == "enum":
            return ("lit", e["v"])
        if k == "zero":
            if is_scalar(e.get("t"), self.prog):
                return ("lit", 0)
            return ("ctor", short(bare(e.get("t"))), ())
        if k in ("this",):
            return self.this()
        if k == "var":
            t = self.var(e)
            if t[0] in ("fld", "idx") and e["vk"] == "local" and is_scalar(e.get("t"), self.prog) and \
                    not (e.get("t") or "").endswith("&") and not self.isref(("v", self.frame.inst, e["id"])):
                return t        # a copy: what the location held then, whatever it holds now
            if t[0] in ("fld", "idx", "loc"):
                return self.read(t, e.get("t"))
            return t
        if k == "mem":
            b = self.ref(e["b"]) if e["b"]["k"] != "this" else self.this()
            return self.read(("fld", b, e["n"], short(e["c"])), e.get("t"))
        if k == "idx":
            return self.read(("idx", self.ref(e["b"]), self.val(e["i"])), e.get("t"))
        if k == "tmp":
            t = self.st.env.get(("tmp", e["key"]), ("unk", self.node.id, THIS))
            if t[0] in ("fld", "idx", "loc"):
                return self.read(t, e.get("t"))
            return t
        if k == "cast":
            if e["e"] is None:
                return ("unk", self.node.id, THIS)
            t = self.val(e["e"])
            return self.dyncast(e.get("t"), t) if e.get("ck") == "dynamic" else t
        if k == "un":
            op = e["op"]
            if op in ("++", "--"):
                old = self.val(e["e"])
                new = p_add(old, lit(1 if op == "++" else -1)) if old[0] != "iter" else \
                    ("iter", old[1], p_add(old[2], lit(1 if op == "++" else -1)))
                self.store(e["e"], "=", new, e)
                return old if e.get("post") else new
            if op == "-":
                return p_mul(lit(-1), self.val(e["e"]))
            if op == "+":
                return self.val(e["e"])
            if op == "!":
                return neg(self.val(e["e"]))
            if op in ("*", "&"):
                t = self.ref(e["e"])
                if t[0] == "iter":
                    return self.read(("idx", t[1], t[2]), e.get("t"))
                return self.read(t, e.get("t")) if op == "*" else t
            return ("op", op, self.val(e["e"]))
        if k == "bin":
            return self.binop(e)
        if k == "cond":
            c = self.val(e["c"])
            if c[0] == "lit" and isinstance(c[1], bool):
                return self.val(e["x"] if c[1] else e["y"])
            n0 = len(self.evs)
            x, y = self.val(e["x"]), self.val(e["y"])
            if x == y:
                return x
            return ("ite", c, x, y)
        if k == "opcall":
            return self.opcall(e)
        if k == "call":
            return self.call(e)
        if k == "ctor":
            if e.get("copy") and len(e["a"]) == 1:
                return self.val(e["a"][0])
            if bare(e.get("t")).startswith("Eigen::Ref<") and e["a"]:
                return self.val(e["a"][0])
            a = tuple(self.val(x) for x in e["a"])
            if e.get("id") in self.prog.fns or e.get("id"):
                self.ev("CTOR", e, name=short(e["c"]), id=e.get("id"), args=a)
            if is_ptr(e.get("t") or "") or is_iter(e.get("t")):
                if not a:
                    return ("lit", None)
                return a[0]
            if len(a) == 1 and is_eigen(e.get("t")) and is_eigen(e["a"][0].get("t")):
                return a[0]
            return ("ctor", short(e["c"]), a)
        if k == "new":
            i = e.get("i")
            a = tuple(self.val(x) for x in (i.get("a") or [])) if isinstance(i, dict) and i else ()
            if e.get("p") and e["p"].get("k") == "un" and e["p"].get("op") == "&":
                # the object named is built anew in its place
                self.write(self.ref(e["p"]["e"]), "new", ("ctor", short(e["t"]), a), e)
            return ("new", short(bare(e["t"])), a)
        if k == "ilist":
            return ("list", tuple(self.val(x) for x in e["a"]))
        if k == "fn":
            return ("fn", short(e["n"]))
        if k == "typeid":
            return ("typeid", self.ref(e["e"]) if e.get("e") else THIS)
        if k == "throw":
            self.ev("THROW", e)
            return ("unk", self.node.id, THIS)
        if k == "lambda":
            self.ev("LAMBDA", e, val=None)
            return ("lambda", self.node.id)
        for c in e.get("ch", []) or []:
            if isinstance(c, dict):
                self.val(c)
        return ("unk", self.node.id, ("lit", k))

    def arith(self, op, a, b):
        if op == "+":
            return p_add(a, b)
        if op == "-":
            return p_add(a, b, -1)
        if op == "*":
            return p_mul(a, b)
        if op == "/":
            if is_num(b) and isinstance(b[1], float) and b[1] != 0:
                return p_mul(a, lit(1.0 / b[1]))
            return ("op", "/", a, b)
        return ("op", op, a, b)

    def binop(self, e):
        op = e["op"]
        if op == "=":
            v = self.val(e["rh"]) if not is_ptr(e["lh"].get("t") or "") else self.ref(e["rh"])
            self.store(e["lh"], "=", v, e)
            return v
        if op in ASSIGN:
            v = self.val(e["rh"])
            l = self.store(e["lh"], op, v, e)
            return self.read(l, e["lh"].get("t")) if l is not None and l[0] in ("fld", "idx", "view") else self.val(e["lh"])
        if op == ",":
            self.val(e["lh"])
            return self.val(e["rh"])
        a = self.val(e["lh"])
        b = self.val(e["rh"])
        if op in CMP:
            return cmp_term(op, a, b)
        if op == "&&":
            if a == ("lit", True):
                return b
            if b == ("lit", True):
                return a
            return ("and", a, b)
        if op == "||":
            if a == ("lit", False):
                return b
            if b == ("lit", False):
                return a
            return ("or", a, b)
        if op in ("&", "|", "%", "<<", ">>", "^"):
            return ("op", op, a, b)
        return self.arith(op, a, b)

    # ---- stores
    def store(self, le, op, v, e):
        ty = le.get("t") or "?"
        # peel wrappers
        while le["k"] in ("cast",):
            le = le["e"]
        if le["k"] == "var" and le["vk"] not in ("global", "static"):
            k = ("v", self.frame.inst, le["id"])
            cur = self.st.env.get(k)
            sc = is_scalar(ty, self.prog)
            if (sc or is_iter(ty) or is_ptr(ty)) and not (cur is not None and cur[0] in ("fld", "idx", "view")
                                                          and self.isref(k)):
                old = cur if cur is not None else ("loc",) + k[1:] + (le["n"],)
                nv = v if op == "=" else self.arith(op[:-1], old, v)
                self.st.env[k] = nv
                return self.ref(le)
        loc = self.ref_l(le)
        self.write(loc, op, v, e, ty)
        return loc

    def ref_l(self, le):
        """Location for a store: pointer-typed fields are the slot, not the pointee."""
        if le["k"] == "mem":
            b = self.ref(le["b"]) if le["b"]["k"] != "this" else self.this()
            return ("fld", b, le["n"], short(le["c"]))
        return self.ref(le)

    def isref(self, k):
        return self.st.env.get(("isref",) + k) is not None

    def write(self, loc, op, v, e, ty="?"):
        self.ev("W", e, loc=loc, op=op, val=v)
        env = self.st.env
        sc = is_scalar(ty, self.prog) or is_ptr(ty) or is_iter(ty)
        if loc[0] == "fld":
            fk = (loc[3], loc[2])
            old = None
            if sc and op != "=":
                old = self.read(loc, ty)
            for kk in [kk for kk in env if kk[0] in ("fld", "idx", "view") and
                       any(x[0] == "fld" and (x[3], x[2]) == fk for x in base_chain(kk))]:
                del env[kk]
            self.st.killed[fk] = self.node.id
            if sc:
                env[loc] = v if op == "=" else self.arith(op[:-1], old, v) if op in ASSIGN else \
                    ("unk", self.node.id, loc)
        elif loc[0] in ("idx", "view") and sc:
            env[loc] = v if op == "=" else ("unk", self.node.id, loc)
            r = root(loc)
            for kk in [kk for kk in env if kk[0] in ("idx", "view") and kk != loc and root_c(kk) == root_c(loc)]:
                del env[kk]
        else:
            if loc[0] in ("phi", "unk", "ite", "call", "res"):
                pass

    def kill(self, fields):
        st = self.st
        for fk in fields:
            st.killed[fk] = self.node.id
        fs = set(fields)
        for kk in [kk for kk in st.env if kk[0] in ("fld", "idx", "view") and
                   any(x[0] == "fld" and (x[3], x[2]) in fs for x in base_chain(kk))]:
            del st.env[kk]

    # ---- declarations, parameters
    def decl(self, d):
        k = ("v", self.frame.inst, d["id"])
        ty = d["t"]
        i = d.get("i")
        self.st.env.pop(k, None)
        self.st.env.pop(("isref",) + k, None)
        if i is None:
            self.st.env[k] = ("loc", self.frame.inst, d["id"], d["n"])
            return
        if d.get("static"):
            self.val(i)
            self.st.env[k] = ("global", "static " + d["n"])
            return
        isref = ty.endswith("&") and not ty.endswith("&&")
        if isref or is_ptr(ty) or is_view_type(ty):
            t = self.ref(i)
            if t[0] == "call" and is_eigen(ty) and False:
                t = ("loc", self.frame.inst, d["id"], d["n"])
            self.st.env[k] = t
            if isref:
                self.st.env[("isref",) + k] = lit(1)
            return
        if is_scalar(ty, self.prog) or is_iter(ty):
            self.st.env[k] = self.val(i)
            return
        if "(lambda" in ty or "CommaInitializer" in ty:
            self.val(i)
            self.st.env[k] = ("loc", self.frame.inst, d["id"], d["n"])
            return
        v = self.val(i)
        loc = ("loc", self.frame.inst, d["id"], d["n"])
        self.st.env[k] = loc
        self.ev("W", i, loc=loc, op="init", val=v)

    def minit(self, node):
        i = node.extra
        e = node.e
        cls = self.frame.fn.cls
        b = self.this()
        loc = ("fld", b, i["m"], self.owner(cls, i["m"]))
        fty = self.fieldtype(loc)
        if is_ptr(fty) or fty.endswith("&"):
            v = self.ref(e)
        else:
            v = self.val(e)
        self.ev("W", e if isinstance(e, dict) and "l" in e else None, loc=loc, op="init", val=v)
        if is_scalar(fty, self.prog) or is_ptr(fty):
            self.st.env[loc] = v

    def owner(self, cls, m):
        fs = self.prog.fields_of(cls)
        return fs[m][1] if m in fs else cls

    def fieldtype(self, loc):
        c = self.prog.cls.get(loc[3])
        if c:
            for f in c.fields:
                if f["n"] == loc[2]:
                    return f["t"]
        return "?"

    def bind(self, node):
        fr, pairs, obj = node.extra
        env = self.st.env
        vals = []
        for p, a in pairs:
            if a is None:
                vals.append((p, ("unk", node.id, THIS)))
                continue
            ty = p["t"]
            if is_scalar(ty, self.prog) and not is_mut_ref(ty):
                vals.append((p, self.val(a)))
            else:
                vals.append((p, self.ref(a)))
        th = None
        if obj is not None:
            th = self.this() if obj["k"] == "this" else self.ref(obj)
        for p, v in vals:
            k = ("v", fr.inst, p["id"])
            env[k] = v
            if is_mut_ref(p["t"]):
                env[("isref",) + k] = lit(1)
        if th is not None:
            env[("this", fr.inst)] = th
        elif self.frame.inst:
            t = env.get(("this", self.frame.inst))
            if t is not None and fr.fn.cls is None:
                pass

    # ---- calls
    def pure(self, fid, obj, args, e):
        """Expands accessor bodies of the form `return expr;`."""
        if self.pdepth > 6:
            return None
        pe = self.prog.pure_return(fid)
        if pe is None:
            return None
        f = self.prog.fns[fid]
        sub = Eval(self.flow, self.node, self.st, self.evs)
        sub.frame = self.frame
        sub.pdepth = self.pdepth + 1
        sub.pthis = obj if obj is not None else self.this()
        sub.penv = {p["id"]: a for p, a in zip(f.params, args)}
        rt = f.rec["rt"]
        if rt.endswith("&") or is_ptr(rt):
            return sub.ref(pe), sub
        return sub.val(pe), sub

    def call(self, e):
        fid = e.get("id")
        fn = e.get("fn") or "?"
        s = sname(fn)
        obj = e.get("o")
        if fid and fid in self.prog.fns or (fid and e.get("v")):
            return self.repo_call(e, fid, obj, e["a"], s)
        if fid:
            # declared in the repository but no body seen
            return self.repo_call(e, fid, obj, e["a"], s)
        if obj is not None:
            return self.ext_method(e, s, fn)
        return self.ext_fn(e, s, fn)

    def repo_call(self, e, fid, obj, aexprs, s):
        o = None
        onthis = False
        if obj is not None:
            onthis = Graph.is_this(obj)
            o = self.this() if onthis else self.ref(obj)
            if o[0] == "iter":
                o = ("idx", o[1], o[2])
        tgt = fid
        virt = bool(e.get("v"))
        if virt and onthis and self.frame.dyn and self.pthis is None:
            tgt = self.prog.final(self.frame.dyn, fid)
            virt = False
        elif virt and len(self.prog.impls(fid)) == 1:
            tgt = self.prog.impls(fid)[0]
        if not virt or len(self.prog.impls(fid)) == 1:
            if self.prog.pure_return(tgt) is not None and \
                    self.prog.fns[tgt].sname not in self.flow.g.policy.keep:
                f = self.prog.fns[tgt]
                args = []
                for p, a in zip(f.params, aexprs):
                    args.append(self.val(a) if is_scalar(p["t"], self.prog) and not is_mut_ref(p["t"]) else self.ref(a))
                r = self.pure(tgt, o, args, e)
                if r is not None:
                    return r[0]
        targets = [tgt] if not virt and tgt in self.prog.fns else \
            [t for t in self.prog.impls(fid)]
        f0 = self.prog.fns.get(tgt) or (self.prog.fns.get(targets[0]) if targets else None)
        ptypes = [p["t"] for p in f0.params] if f0 else []
        if not ptypes and fid in self.prog.meth:
            ptypes = [p["t"] for p in self.prog.meth[fid][1]["p"]]
        args, locs = [], []
        for i, a in enumerate(aexprs):
            ty = ptypes[i] if i < len(ptypes) else "?"
            if is_scalar(ty, self.prog) and not is_mut_ref(ty):
                args.append(self.val(a))
            else:
                args.append(self.ref(a))
        muts, fields = set(), set()
        for t in targets:
            fields |= self.mr.fields[t]
            muts |= self.mr.pmut[t]
        m = self.prog.meth.get(fid)
        isconst = e.get("const")
        res = None
        pure = bool(isconst or obj is None) and not fields and not muts and targets
        if pure:
            res = ("call", s, o, tuple(args))
        else:
            res = ("res", self.node.id, s, o, tuple(args) if len(args) <= 2 else ())
        self.ev("C", e, name=s, id=fid, obj=o, args=tuple(args), virt=virt, res=res,
                const=bool(isconst), impls=tuple(targets))
        for i, a in enumerate(args):
            ty = ptypes[i] if i < len(ptypes) else "?"
            if is_mut_ref(ty) and (i in muts or not targets or "Eigen::Ref" in ty):
                self.write(a, "out:" + s, ("res", self.node.id, s, o, (lit(i),)), e, ty if is_scalar(ty, self.prog) else "?")
                if is_scalar(ty, self.prog):
                    self.out_scalar(aexprs[i], a)
        if fields:
            self.kill(fields)
        return res

    def out_scalar(self, ae, loc):
        while ae["k"] == "cast":
            ae = ae["e"]
        if ae["k"] == "var":
            k = ("v", self.frame.inst, ae["id"])
            if not self.isref(k):
                self.st.env[k] = ("unk", self.node.id, ("lit", ae["n"]))

    def ext_method(self, e, s, fn):
        obj = e["o"]
        if s in TRANSPARENT and not e["a"]:
            if s in ("eval",):
                return self.val(obj)
            t = self.ref(obj)
            if s == "operator bool":
                return cmp_term("!=", t, ("lit", None))
            return t if t[0] != "iter" else ("idx", t[1], t[2])
        if s in EIGEN_VIEW:
            o = self.val(obj)
            a = tuple(self.val(x) for x in e["a"])
            if s in ("array", "matrix"):
                return o if o[0] in ("fld", "loc", "p", "idx", "view") else ("call", s, o, a)
            return ("view", s, o, a) if o[0] in ("fld", "loc", "p", "idx", "view") else ("call", s, o, a)
        if s in ("begin", "cbegin"):
            return ("iter", self.ref(obj), lit(0))
        if s in ("end", "cend"):
            c = self.ref(obj)
            return ("iter", c, ("call", "size", c, ()))
        if s in ("back", "front"):
            return self.read(self.ref(e), e.get("t"))
        if s == "at":
            return self.read(self.ref(e), e.get("t"))
        if s in ("find",):
            c = self.ref(obj)
            return ("iter", c, ("find",) + tuple(self.val(x) for x in e["a"]))
        if s in ("size", "rows", "cols"):
            o = self.ref(obj)
            if s == "rows" and is_vec_type(obj.get("t")):
                s = "size"
            return ("call", s, o, ())
        if s == "empty" and not e["a"]:
            return cmp_term("==", ("call", "size", self.ref(obj), ()), lit(0))
        a = tuple(self.val(x) for x in e["a"])
        o = self.ref(obj)
        if o[0] == "iter":
            o = ("idx", o[1], o[2])
        if s.startswith("operator ") and not e["a"]:
            return self.val(obj)
        if not e.get("const") and not fn.startswith("std::basic_") and s not in VIEWS:
            self.ev("M", e, name=s, obj=o, args=a, const=False)
            self.write(o, "." + s, ("args",) + a, e)
            self.mut_ext(e, s, a)
            return ("res", self.node.id, s, o, a)
        if s in ("solveInPlace", "evalTo"):
            t = self.ref(e["a"][0])
            self.write(t, "." + s, ("call", s, o, a), e)
        self.ev("X", e, name=s, obj=o, args=a, const=True)
        self.mut_ext(e, s, a)
        return ("call", s, o, a)

    def mut_ext(self, e, s, a):
        for i in e.get("mr", []):
            if i < len(e["a"]):
                ae = e["a"][i]
                t = self.ref(ae)
                self.write(t, "arg:" + s, ("res", self.node.id, s, None, ()), e, ae.get("t") or "?")
                if is_scalar(ae.get("t"), self.prog):
                    self.out_scalar(ae, t)

    def ext_fn(self, e, s, fn):
        if s in ("static_pointer_cast", "dynamic_pointer_cast", "move", "forward", "const_pointer_cast", "ref", "cref",
                 "make_optional") and len(e["a"]) == 1:
            if s == "dynamic_pointer_cast":
                return self.dyncast(e.get("t"), self.ref(e["a"][0]))
            return self.ref(e["a"][0]) if s != "move" else self.val(e["a"][0])
        if s in ("make_shared", "allocate_shared", "make_unique"):
            xs = e["a"][1:] if s == "allocate_shared" else e["a"]
            a = tuple(self.val(x) for x in xs)
            ta = e.get("ta") or ["?"]
            self.ev("NEW", e, name=short(bare(ta[0])), args=a)
            return ("new", short(bare(ta[0])), a)
        if e.get("o") is not None and e.get("fn") == "?":
            self.ref(e["o"])
        a = tuple(self.val(x) for x in e["a"])
        if s in ("max", "min") and len(a) == 2:
            a = tuple(sorted(a, key=tkey))
        self.ev("X", e, name=s, obj=None, args=a, const=True)
        self.mut_ext(e, s, a)
        if s in ("copy", "move", "copy_n", "fill", "fill_n", "transform", "swap_ranges", "iota") and fn.startswith("std::"):
            self.range_store(e, s, a)
        return ("call", s, None, a)

    def range_store(self, e, s, a):
        """Algorithms writing through an output iterator: a store to the container (whole ranges as plain assignments)."""
        d = a[0] if s in ("fill", "fill_n", "iota") else a[-1] if s != "transform" else next((x for x in a[2:] if x[0] == "iter"), None)
        if d is None or d[0] != "iter":
            return
        size = lambda c: ("call", "size", c, ())
        v = (s,) + a
        if d[2] == lit(0):
            if s in ("copy", "move") and a[0][0] == a[1][0] == "iter" and a[0][1] == a[1][1] and a[0][2] == lit(0) and \
                    a[1][2] == size(a[0][1]):
                v = a[0][1]
            elif s == "copy_n" and a[0][0] == "iter" and a[0][2] == lit(0) and a[1] == size(a[0][1]):
                v = a[0][1]
            elif s == "fill" and a[1][0] == "iter" and a[1][1] == d[1] and a[1][2] == size(d[1]):
                v = ("filled", a[2])
        self.write(d[1], "=", ("rng",) + v if v[0] == s else v, e)

    def opcall(self, e):
        op = e["op"]
        fid = e.get("id")
        A = e["a"]
        if fid and e.get("m"):
            return self.repo_call(e, fid, A[0], A[1:], "operator" + op)
        if fid and fid in self.prog.fns:
            return self.repo_call(e, fid, None, A, "operator" + op)
        fn = e.get("fn") or ""
        if op in ("->", "*") and len(A) == 1:
            t = self.ref(e)
            return self.read(t, e.get("t"))
        if op in ("[]", "()"):
            if op == "()" and "Eigen" not in fn:
                a = tuple(self.val(x) for x in A)
                self.ev("X", e, name="operator()", obj=a[0], args=a[1:])
                return ("res", self.node.id, "()", None, a)
            return self.read(self.ref(e), e.get("t"))
        if op in ASSIGN:
            if is_iter(A[0].get("t")) or is_ptr(A[0].get("t") or ""):
                v = self.val(A[1]) if is_iter(A[0].get("t")) else self.ref(A[1])
            else:
                v = self.val(A[1])
            if fn.startswith("std::basic_string"):
                self.val(A[0])
                return ("str", "")
            return self.store(A[0], op, v, e)
        if op in ("++", "--"):
            old = self.val(A[0])
            if old[0] == "iter":
                new = ("iter", old[1], p_add(old[2], lit(1 if op == "++" else -1)))
            else:
                new = ("unk", self.node.id, THIS)
            self.store(A[0], "=", new, e)
            return new if len(A) == 1 else old
        if op == "<<":
            if fn.startswith("std::") or "ostream" in (e.get("t") or "") or "basic_" in (A[0].get("t") or ""):
                for x in A:
                    self.val(x)
                return ("stream",)
            if "Eigen" in fn:
                loc = self.ref(A[0])
                v = self.val(A[1])
                self.write(loc, "<<", v, e)
                return ("comma", loc, (v,))
        if op == ",":
            c = self.val(A[0])
            v = self.val(A[1])
            if c[0] == "comma":
                return ("comma", c[1], c[2] + (v,))
            return v
        if op in CMP:
            if is_iter(A[0].get("t")):
                x, y = self.val(A[0]), self.val(A[1])
                if x[0] == "iter" and y[0] == "iter" and x[1] == y[1]:
                    z = y[2]
                    if op == "!=" and z == ("call", "size", x[1], ()) and x[2][0] != "find":
                        return cmp_term("<", x[2], z)
                    return cmp_term(op, x[2], z)
                return cmp_term(op, x, y)
            if "Eigen" in fn:
                return ("ecmp", op, self.val(A[0]), self.val(A[1]))
            return cmp_term(op, self.val(A[0]), self.val(A[1]))
        a = tuple(self.val(x) for x in A)
        if op == "!":
            return neg(a[0])
        if op in ("+", "-", "*", "/") and len(a) == 2:
            if op == "-":
                return ("op", "+", a[0], ("op", "neg", a[1]))
            if op == "+":
                return ("op", "+") + tuple(sorted(a, key=tkey))
            ty0, ty1 = A[0].get("t") or "", A[1].get("t") or ""
            if op == "*" and (is_scalar(ty0) or is_scalar(ty1)):
                return ("op", "s*") + (a if is_scalar(ty0) else (a[1], a[0]))
            if op == "/":
                return ("op", "s/", a[0], a[1])
            return ("op", "m*", a[0], a[1])
        if op == "-" and len(a) == 1:
            return ("op", "neg", a[0])
        self.ev("X", e, name="operator" + op, obj=None, args=a)
        return ("op", op) + a

    def stmt(self, e):
        self.val(e)


def root_c(t):
    while t[0] in ("view", "idx"):
        t = t[2] if t[0] == "view" else t[1]
    return t
