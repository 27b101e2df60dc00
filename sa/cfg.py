"""Control-flow graphs with inlining.

A function body (JSON statements of the front end) becomes a graph of small
nodes; calls that the policy asks to inline are spliced in place, with their
parameters bound to the argument expressions.  Short-circuit operators become
control flow, exceptions become edges to the handlers or to the throw exit.
"""
import re
from .prog import ASSIGN, walk

NOTHROW_KINDS = ("entry", "join", "exit", "xexit", "bind", "setret")


class Frame:
    __slots__ = ("inst", "fn", "dyn", "parent", "thiskey", "depth", "callline")

    def __init__(self, inst, fn, dyn, parent, depth, callline=None):
        self.inst = inst
        self.fn = fn
        self.dyn = dyn
        self.parent = parent
        self.depth = depth
        self.callline = callline

    def chain(self):
        f, out = self, []
        while f:
            out.append(f.fn.id)
            f = f.parent
        return out

    def where(self, line):
        s = "%s:%s" % (self.fn.file, line)
        return s

    def trace(self, line):
        out = ["%s:%s in %s" % (self.fn.file, line, self.fn.sname)]
        f, l = self.parent, self.callline
        while f:
            out.append("called at %s:%s in %s" % (f.fn.file, l, f.fn.sname))
            l = f.callline
            f = f.parent
        return out


class Node:
    __slots__ = ("id", "kind", "e", "frame", "line", "succ", "handler", "extra", "pred")

    def __init__(self, i, kind, e, frame, line, handler):
        self.id = i
        self.kind = kind
        self.e = e
        self.frame = frame
        self.line = line
        self.succ = []     # (node, label): label None | ('T',) | ('F',) | ('case', v) | ('dflt', [v...])
        self.pred = []
        self.handler = handler
        self.extra = None

    def __repr__(self):
        return "<%d %s l%s>" % (self.id, self.kind, self.line)

    @property
    def file(self):
        return self.frame.fn.file

    @property
    def where(self):
        return "%s:%s" % (self.frame.fn.file, self.line)


def same_class(short, full):
    """Short class name (as used by Prog) of a full C++ name."""
    return re.sub(r"^crocoddyl::|Tpl<double>$", "", full) == short


def choice(e):
    """The conditional expression that names one of two objects."""
    while isinstance(e, dict) and e.get("k") in ("paren", "cast") and isinstance(e.get("e"), dict):
        e = e["e"]
    return e if isinstance(e, dict) and e.get("k") == "cond" else None


class Policy:
    """What to inline.  Subclass or pass callables."""
    maxdepth = 8

    def __init__(self, keep=(), keep_pred=None, inline_other=False, maxdepth=8, only=None):
        self.keep = set(keep)
        self.keep_pred = keep_pred
        self.inline_other = inline_other
        self.maxdepth = maxdepth
        self.only = only

    def want(self, prog, fn, frame, onthis):
        if fn.sname in self.keep:
            return False
        if self.only is not None and not self.only(fn):
            return False
        if self.keep_pred and self.keep_pred(fn, onthis):
            return False
        if fn.cls == "Stopwatch" or fn.file.endswith(("stop-watch.cpp", "stop-watch.hpp")):
            return False
        return onthis or self.inline_other


class Graph:
    def __init__(self, prog, fn, dyn, policy):
        self.prog = prog
        self.fn = fn
        self.dyn = dyn
        self.policy = policy
        self.nodes = []
        self.ninst = 0
        self.inlined = set()
        self.unresolved = []
        self.lams = {}
        self.handler = None
        self.root = self._frame(fn, dyn, None, None)
        self.entry = self._node("entry", None, self.root, fn.line)
        self.exit = self._node("exit", None, self.root, fn.line)
        self.xexit = self._node("xexit", None, self.root, fn.line)
        self.brk = []
        self.cont = []
        self.rets = [(self.root, self.exit, None)]
        cur = [(self.entry, None)]
        cur = self._ctor_inits(cur, fn, self.root)
        cur = self.stmt(cur, fn.body, self.root)
        endl = (fn.body or {}).get("e", fn.line)
        if cur:
            end = self._node("ret", None, self.root, endl)
            self._link(cur, end)
            end.extra = self.root
            self._to(end, self.exit)
        self.order()

    # -- construction helpers ------------------------------------------
    def _frame(self, fn, dyn, parent, line):
        self.ninst += 1
        return Frame(self.ninst, fn, dyn, parent, parent.depth + 1 if parent else 0, line)

    def _node(self, kind, e, frame, line):
        n = Node(len(self.nodes), kind, e, frame, line, self.handler)
        self.nodes.append(n)
        return n

    @staticmethod
    def _to(a, b, lab=None):
        a.succ.append((b, lab))
        b.pred.append(a)

    def _link(self, cur, node):
        for a, lab in cur:
            a.succ.append((node, lab))
            node.pred.append(a)

    def simple(self, cur, kind, e, frame, line):
        n = self._node(kind, e, frame, line)
        self._link(cur, n)
        return [(n, None)], n

    # -- constructors ----------------------------------------------------
    def _ctor_inits(self, cur, fn, frame):
        if not fn.rec.get("ctor"):
            return cur
        for i in fn.rec.get("inits", []):
            e = i.get("e")
            if e is None:
                continue
            if "base" in i or i.get("deleg"):
                cur, e = self.lower_args(cur, e, frame)
                fid = e.get("id") if e.get("k") == "ctor" else None
                f2 = self.prog.fns.get(fid)
                if f2 and f2.id not in frame.chain() and frame.depth < self.policy.maxdepth:
                    cur = self._splice(cur, f2, frame.dyn, frame, e["a"], {"k": "this", "l": i["l"]},
                                       i["l"], None)
                else:
                    cur, n = self.simple(cur, "baseinit", e, frame, i["l"])
                    n.extra = i
                    if e.get("copy") and not f2 and len(e.get("a", ())) == 1:
                        cur = self._memberwise(cur, e, frame, i["l"])
            elif "m" in i:
                cur, e = self.lower(cur, e, frame)
                cur, n = self.simple(cur, "minit", e, frame, i["l"] if i.get("w") else fn.line)
                n.extra = i
        return cur

    def _memberwise(self, cur, e, frame, line):
        """A base class copied by the compiler: every member from the same member of the source."""
        base = next((c for c in self.prog.linear_bases(frame.fn.cls)
                     if same_class(c, e["c"])), None)
        for m, (r, o) in (self.prog.fields_of(base).items() if base else ()):
            x = {"k": "mem", "n": m, "c": o, "b": e["a"][0], "t": r["t"], "l": line}
            cur, n = self.simple(cur, "minit", x, frame, line)
            n.extra = {"m": m, "e": x, "l": line, "w": True}
        return cur

    def _splice(self, cur, f2, dyn, frame, args, obj, line, retkey):
        """Inlines f2 with the (already lowered) argument expressions."""
        self.inlined.add(f2.id)
        fr = self._frame(f2, dyn, frame, line)
        b = self._node("bind", None, frame, line)
        b.extra = (fr, list(zip(f2.params, list(args) + [None] * len(f2.params))), obj)
        self._link(cur, b)
        cur = [(b, None)]
        cur = self._ctor_inits(cur, f2, fr)
        out = self._node("leave", None, frame, line)
        out.extra = fr
        self.rets.append((fr, out, retkey))
        sb, sc = self.brk, self.cont
        self.brk, self.cont = [], []
        cur = self.stmt(cur, f2.body, fr)
        self.brk, self.cont = sb, sc
        self.rets.pop()
        self._link(cur, out)
        return [(out, None)] if out.pred else []

    # -- expressions -------------------------------------------------------
    def resolve(self, e, frame):
        """(fn to inline, dynamic class, object expr) for a call expression, or None."""
        k = e.get("k")
        fid = e.get("id")
        if k not in ("call", "opcall") or not fid:
            return None
        prog = self.prog
        obj = e.get("o")
        args = e["a"]
        if k == "opcall" and e.get("m"):
            obj, args = e["a"][0], e["a"][1:]
        onthis = obj is not None and self.is_this(obj)
        dyn = None
        if obj is not None:
            if onthis:
                dyn = frame.dyn
            if e.get("v"):
                if onthis and dyn:
                    fid = prog.final(dyn, fid)
                else:
                    im = prog.impls(fid)
                    if len(im) != 1:
                        return None
                    fid = im[0]
                    # a pure interface with one implementation is still open
                    return None
        f = prog.fns.get(fid)
        if f is None:
            return None
        if obj is not None and not onthis:
            dyn = f.cls
        return f, dyn, obj, args, onthis

    @staticmethod
    def is_this(o):
        while o is not None:
            if o["k"] == "this":
                return True
            if o["k"] == "un" and o["op"] == "*":
                o = o["e"]
                continue
            if o["k"] == "cast":
                o = o["e"]
                continue
            return False
        return False

    def lam_of(self, e, frame):
        """The lambda a call of a local closure runs, or None."""
        if e.get("k") != "opcall" or e.get("op") != "()" or not e.get("a"):
            return None
        o = e["a"][0]
        while o.get("k") == "cast":
            o = o["e"]
        if o.get("k") != "var" or "(lambda" not in (o.get("t") or ""):
            return None
        fid = frame.fn.id
        if fid not in self.lams:
            d = self.lams[fid] = {}
            for n in walk(frame.fn.body):
                if n.get("k") != "decl":
                    continue
                for v in n["d"]:
                    i = v.get("i")
                    while isinstance(i, dict) and (i.get("k") == "cast" or i.get("k") == "ctor" and len(i.get("a", ())) == 1):
                        i = i["e"] if i["k"] == "cast" else i["a"][0]
                    if isinstance(i, dict) and i.get("k") == "lambda":
                        d[v["id"]] = i
        return self.lams[fid].get(o["id"])

    def _splice_lambda(self, cur, lam, frame, args, line, key):
        """A closure runs among the variables of the function that made it: no frame of its own."""
        for p, a in zip(lam["p"], args):
            cur, _ = self.simple(cur, "decl", dict(p, i=a, l=line), frame, line)
        out = self._node("join", None, frame, line)
        self.rets.append((frame, out, key))
        sb, sc = self.brk, self.cont
        self.brk, self.cont = [], []
        cur = self.stmt(cur, lam["b"], frame)
        self.brk, self.cont = sb, sc
        self.rets.pop()
        self._link(cur, out)
        return [(out, None)] if out.pred else []

    def has_inl(self, e, frame):
        for n in walk(e):
            if self.lam_of(n, frame) is not None:
                return True
            if n.get("k") in ("call", "opcall") and n.get("id"):
                r = self.resolve(n, frame)
                if r and self._want(r, frame):
                    return True
        return False

    def _want(self, r, frame):
        f, dyn, obj, args, onthis = r
        if frame.depth >= self.policy.maxdepth:
            return False
        if f.id in frame.chain():
            return False
        if self.prog.pure_return(f.id) is not None:
            return False     # handled as a term
        if f.body is None:
            return False
        return self.policy.want(self.prog, f, frame, onthis or obj is None)

    def lower_args(self, cur, e, frame):
        """Lowers the operands of e (not e itself)."""
        if not isinstance(e, dict):
            return cur, e
        out = dict(e)
        for key in ("o", "b", "e", "lh", "rh", "c", "x", "y", "i"):
            v = out.get(key)
            if isinstance(v, dict) and v.get("k") and e.get("k") != "lambda":
                cur, out[key] = self.lower(cur, v, frame)
        for key in ("a", "ch"):
            if isinstance(out.get(key), list):
                l = []
                for v in out[key]:
                    if isinstance(v, dict):
                        cur, v = self.lower(cur, v, frame)
                    l.append(v)
                out[key] = l
        return cur, out

    def lower(self, cur, e, frame):
        """Splices every call to inline inside e; returns the rewritten expression."""
        if not isinstance(e, dict) or not cur:
            return cur, e
        if not self.has_inl(e, frame):
            return cur, e
        k = e["k"]
        if k == "cond" or (k == "bin" and e["op"] in ("&&", "||")):
            # value of a short-circuit expression with inlined parts
            key = ("t", len(self.nodes))
            t, f = self.cond(cur, e if k == "bin" else e["c"], frame)
            j = self._node("join", None, frame, e["l"])
            for br, val in ((t, e.get("x") if k == "cond" else {"k": "lit", "l": e["l"], "v": True}),
                            (f, e.get("y") if k == "cond" else {"k": "lit", "l": e["l"], "v": False})):
                if not br:
                    continue
                br, val = self.lower(br, val, frame)
                n = self._node("settmp", val, frame, e["l"])
                n.extra = key
                self._link(br, n)
                self._to(n, j)
            return [(j, None)], {"k": "tmp", "key": key, "l": e["l"], "t": e.get("t", "?")}
        cur, e2 = self.lower_args(cur, e, frame)
        if not cur:
            return cur, e2
        lam = self.lam_of(e2, frame)
        if lam is not None:
            key = ("r", len(self.nodes))
            cur = self._splice_lambda(cur, lam, frame, e2["a"][1:], e["l"], key)
            return cur, {"k": "tmp", "key": key, "l": e["l"], "t": e.get("t", "?")}
        r = self.resolve(e2, frame)
        if r and self._want(r, frame):
            f, dyn, obj, args, onthis = r
            key = ("r", len(self.nodes))
            cur = self._splice(cur, f, dyn, frame, args, obj, e["l"], key)
            return cur, {"k": "tmp", "key": key, "l": e["l"], "t": e.get("t", "?")}
        return cur, e2

    def cond(self, cur, e, frame):
        """Branches on e: (true frontier, false frontier)."""
        if not cur:
            return [], []
        k = e["k"]
        if k == "bin" and e["op"] in ("&&", "||"):
            t1, f1 = self.cond(cur, e["lh"], frame)
            if e["op"] == "&&":
                t2, f2 = self.cond(t1, e["rh"], frame)
                return t2, f1 + f2
            t2, f2 = self.cond(f1, e["rh"], frame)
            return t1 + t2, f2
        if k == "un" and e["op"] == "!":
            t, f = self.cond(cur, e["e"], frame)
            return f, t
        if k == "cast" and e.get("t") == "bool":
            inner = e["e"]
            if isinstance(inner, dict):
                return self.cond(cur, inner, frame)
        if k == "lit" and isinstance(e.get("v"), (bool, int)):
            return (cur, []) if e["v"] else ([], cur)
        if k == "cond":
            t, f = self.cond(cur, e["c"], frame)
            t1, f1 = self.cond(t, e["x"], frame)
            t2, f2 = self.cond(f, e["y"], frame)
            return t1 + t2, f1 + f2
        if k in ("call", "opcall") and e.get("id"):
            r = self.resolve(e, frame)
            # boolean helper made of one return expression: keep the branching
            if r and r[0].rec["rt"] == "bool":
                f = r[0]
                pe = self.prog.pure_return(f.id)
                if pe is not None and pe["k"] in ("bin", "un", "cond") and f.id not in frame.chain() \
                        and f.sname not in self.policy.keep \
                        and frame.depth < self.policy.maxdepth:
                    cur, e2 = self.lower_args(cur, e, frame)
                    f, dyn, obj, args, onthis = self.resolve(e2, frame)
                    self.inlined.add(f.id)
                    fr = self._frame(f, dyn, frame, e["l"])
                    b = self._node("bind", None, frame, e["l"])
                    b.extra = (fr, list(zip(f.params, args)), obj)
                    self._link(cur, b)
                    return self.cond([(b, None)], pe, fr)
                if self._want(r, frame):
                    # boolean helper with a real body: its returns branch directly
                    cur, e2 = self.lower_args(cur, e, frame)
                    f, dyn, obj, args, onthis = self.resolve(e2, frame)
                    key = ("r", len(self.nodes))
                    cur = self._splice(cur, f, dyn, frame, args, obj, e["l"], key)
                    e = {"k": "tmp", "key": key, "l": e["l"], "t": "bool"}
                    n = self._node("branch", e, frame, e["l"])
                    self._link(cur, n)
                    return [(n, ("T",))], [(n, ("F",))]
        cur, e = self.lower(cur, e, frame)
        if not cur:
            return [], []
        n = self._node("branch", e, frame, e["l"])
        self._link(cur, n)
        return [(n, ("T",))], [(n, ("F",))]

    # -- statements --------------------------------------------------------
    def stmt(self, cur, s, frame):
        if s is None or not cur:
            return cur
        k = s["k"]
        if k == "block":
            for n, x in enumerate(s["s"]):
                d = x["d"][0] if x["k"] == "decl" and len(x["d"]) == 1 else None
                c = choice(d.get("i")) if d is not None and re.match(r"(?!const ).*[^&]&$", d.get("t") or "") else None
                if c is not None and cur:
                    # a reference to one of two things: what follows is analysed for each
                    t, f = self.cond(cur, c["c"], frame)
                    out = []
                    for br, i in ((t, c["x"]), (f, c["y"])):
                        out += self.stmt(br, {"k": "block", "l": x["l"], "s": [
                            {"k": "decl", "l": x["l"], "d": [dict(d, i=i)]}] + s["s"][n + 1:]}, frame)
                    return out
                cur = self.stmt(cur, x, frame)
            return cur
        if k == "null":
            return cur
        if k == "expr":
            e = s["e"]
            if e is None:
                return cur
            if e["k"] == "throw":
                return self._throw(cur, e, frame)
            if e["k"] == "cond":
                t, f = self.cond(cur, e["c"], frame)
                return self.stmt(t, {"k": "expr", "l": s["l"], "e": e["x"]}, frame) + \
                    self.stmt(f, {"k": "expr", "l": s["l"], "e": e["y"]}, frame)
            if e["k"] == "bin" and e["op"] in ("&&", "||"):
                t, f = self.cond(cur, e, frame)
                return t + f
            c = choice(e.get("o")) if e["k"] == "call" else choice(e.get("lh")) if e["k"] == "bin" else None
            if c is not None:
                t, f = self.cond(cur, c["c"], frame)
                key = "o" if e["k"] == "call" else "lh"
                return self.stmt(t, {"k": "expr", "l": s["l"], "e": dict(e, **{key: c["x"]})}, frame) + \
                    self.stmt(f, {"k": "expr", "l": s["l"], "e": dict(e, **{key: c["y"]})}, frame)
            cur, e = self.lower(cur, e, frame)
            if not cur:
                return cur
            if e["k"] == "tmp":
                return cur
            cur, _ = self.simple(cur, "expr", e, frame, e.get("l") or s["l"])
            return cur
        if k == "decl":
            for d in s["d"]:
                d2 = dict(d)
                if d.get("i") is not None:
                    i = d["i"]
                    cur, d2["i"] = self.lower(cur, i, frame)
                    if not cur:
                        return cur
                cur, _ = self.simple(cur, "decl", d2, frame, d["l"])
            return cur
        if k == "if":
            if s.get("init"):
                cur = self.stmt(cur, s["init"], frame)
            if s.get("cv"):
                cur = self.stmt(cur, s["cv"], frame)
            t, f = self.cond(cur, s["c"], frame)
            t = self.stmt(t, s["x"], frame)
            f = self.stmt(f, s["y"], frame) if s.get("y") else f
            return self.join(t + f, frame, s["l"])
        if k in ("for", "while", "rfor", "do"):
            return self.loop(cur, s, frame)
        if k == "switch":
            return self.switch(cur, s, frame)
        if k in ("case", "default"):
            # a label reached outside switch(): just its statement
            return self.stmt(cur, s["b"], frame)
        if k == "break":
            if self.brk:
                self.brk[-1].extend(cur)
            return []
        if k == "continue":
            if self.cont:
                self.cont[-1].extend(cur)
            return []
        if k == "ret":
            e = s.get("e")
            fr, out, key = self.rets[-1]
            if e is not None and e["k"] == "throw":
                return self._throw(cur, e, frame)
            if e is not None:
                if (frame.fn.rec["rt"] if out.kind != "join" else e.get("t")) == "bool" and e["k"] in ("bin", "un", "cond") and e.get("op") in ("&&", "||", "!", None):
                    t, f = self.cond(cur, e, frame)
                    # one node per way of getting there, so that facts are kept apart
                    for br, v in [([x], True) for x in t] + [([x], False) for x in f]:
                        n = self._node("ret" if out is self.exit else "setret",
                                       {"k": "lit", "l": s["l"], "v": v}, frame, s["l"])
                        n.extra = key if n.kind == "setret" else frame
                        self._link(br, n)
                        self._to(n, out)
                    return []
                cur, e = self.lower(cur, e, frame)
                if not cur:
                    return []
            n = self._node("ret" if out is self.exit else "setret", e, frame, s["l"])
            n.extra = key if n.kind == "setret" else frame
            self._link(cur, n)
            self._to(n, out)
            return []
        if k == "try":
            return self.try_(cur, s, frame)
        if k == "omp":
            n = self._node("omp", None, frame, s["l"])
            n.extra = s
            self._link(cur, n)
            cur = self.stmt([(n, None)], s.get("b"), frame)
            m = self._node("ompend", None, frame, s["l"])
            m.extra = s
            self._link(cur, m)
            return [(m, None)]
        n = self._node("unks", None, frame, s["l"])
        n.extra = s
        self._link(cur, n)
        return [(n, None)]

    def join(self, cur, frame, line):
        if len(cur) <= 1:
            return cur
        j = self._node("join", None, frame, line)
        self._link(cur, j)
        return [(j, None)]

    def _throw(self, cur, e, frame):
        cur2, e2 = self.lower(cur, e.get("e"), frame) if e.get("e") else (cur, None)
        if not cur2:
            return []
        n = self._node("throw", e2, frame, e["l"])
        self._link(cur2, n)
        if self.handler is None:
            self._to(n, self.xexit)
        else:
            for h in self.handler:
                self._to(n, h)
        return []

    def try_(self, cur, s, frame):
        hs = []
        outer = self.handler
        for h in s["h"]:
            hs.append(self._node("catch", None, frame, h["b"]["l"] if h["b"] else s["l"]))
        for h, rec in zip(hs, s["h"]):
            h.handler = outer
            h.extra = rec["t"]
        # a handler for std::exception or ... covers what this code base throws
        self.handler = hs
        cur = self.stmt(cur, s["b"], frame)
        self.handler = outer
        outs = list(cur)
        for h, rec in zip(hs, s["h"]):
            outs += self.stmt([(h, None)], rec["b"], frame)
        return self.join(outs, frame, s["l"])

    def switch(self, cur, s, frame):
        cur, e = self.lower(cur, s["c"], frame)
        if not cur:
            return cur
        n = self._node("switch", e, frame, s["l"])
        self._link(cur, n)
        body = s["b"]
        items = []

        def flat(x):
            if x is None:
                return
            if x["k"] in ("case", "default"):
                items.append(("L", x))
                flat(x["b"])
            else:
                items.append(("S", x))
        for x in (body["s"] if body["k"] == "block" else [body]):
            flat(x)
        vals = [x.get("iv") for t, x in items if t == "L" and x["k"] == "case"]
        self.brk.append([])
        cur = []
        hasd = False
        for t, x in items:
            if t == "L":
                if x["k"] == "case":
                    cur = cur + [(n, ("case", x.get("iv")))]
                else:
                    hasd = True
                    cur = cur + [(n, ("dflt", tuple(vals)))]
            else:
                cur = self.stmt(cur, x, frame)
        out = cur + self.brk.pop()
        if not hasd:
            # falling past every label: kept unless all enumerators are covered
            if not s.get("all"):
                out.append((n, ("dflt", tuple(vals))))
        return self.join(out, frame, s["l"])

    def loop(self, cur, s, frame):
        k = s["k"]
        line = s["l"]
        if k == "for":
            cur = self.stmt(cur, s["i"], frame) if s.get("i") else cur
        hid = None
        if k == "rfor":
            cur, r = self.lower(cur, s["r"], frame)
            hid = ("h", len(self.nodes))
            cur, n = self.simple(cur, "rinit", r, frame, line)
            n.extra = hid
        head = self._node("head", None, frame, line)
        head.extra = s
        self._link(cur, head)
        cur = [(head, None)]
        self.brk.append([])
        self.cont.append([])
        if k == "do":
            cur = self.stmt(cur, s["b"], frame)
            cur = self.join(cur + self.cont.pop(), frame, line)
            t, f = self.cond(cur, s["c"], frame)
            self._link(t, head)
            return self.join(f + self.brk.pop(), frame, line)
        if k == "rfor":
            b = self._node("rtest", None, frame, line)
            b.extra = hid
            self._link(cur, b)
            t, f = [(b, ("T",))], [(b, ("F",))]
            t, n = self.simple(t, "relem", s["v"], frame, line)
            n.extra = hid
        elif s.get("c") is not None:
            t, f = self.cond(cur, s["c"], frame)
        else:
            t, f = cur, []
        t = self.stmt(t, s["b"], frame)
        t = self.join(t + self.cont.pop(), frame, line)
        if t:
            if k == "for" and s.get("n") is not None:
                t = self.stmt(t, {"k": "expr", "l": line, "e": s["n"]}, frame)
            elif k == "rfor":
                t, n = self.simple(t, "rinc", None, frame, line)
                n.extra = hid
        self._link(t, head)
        return self.join(f + self.brk.pop(), frame, line)

    # -- order -----------------------------------------------------------
    def order(self):
        seen, post = set(), []
        st = [(self.entry, 0)]
        seen.add(self.entry.id)
        while st:
            n, i = st.pop()
            ss = [x for x, _ in n.succ]
            if n.handler and n.kind not in ("throw",):
                ss = ss + [h for h in n.handler if h not in ss]
            if i < len(ss):
                st.append((n, i + 1))
                if ss[i].id not in seen:
                    seen.add(ss[i].id)
                    st.append((ss[i], 0))
            else:
                post.append(n)
        self.rpo = list(reversed(post))
        self.rank = {n.id: i for i, n in enumerate(self.rpo)}
        self.live = set(self.rank)
