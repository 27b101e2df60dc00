"""Program model: classes, overrides, functions, mod-ref summaries."""
import re
import time

from . import frontend
from .frontend import AnalysisBroken


def short(n):
    """'crocoddyl::ActionModelAbstractTpl<double>' -> 'ActionModelAbstract'."""
    if n is None:
        return None
    n = n.replace("crocoddyl::", "")
    n = re.sub(r"Tpl<double>", "", n)
    return n


def walk(e):
    """Yields every dict node below (and including) a JSON expression/statement."""
    st = [e]
    while st:
        x = st.pop()
        if isinstance(x, dict):
            yield x
            st.extend(v for v in x.values() if isinstance(v, (dict, list)))
        elif isinstance(x, list):
            st.extend(x)


class Fn:
    __slots__ = ("rec", "id", "name", "cls", "params", "body", "file", "line",
                 "virt", "const", "tu", "sname", "_pure", "const_method")

    def __init__(self, rec):
        self.rec = rec
        self.id = rec["id"]
        self.name = rec["F"]
        self.cls = short(rec.get("c"))
        self.params = rec["p"]
        self.body = rec["b"]
        self.file = rec["file"]
        self.line = rec["l"]
        self.virt = rec.get("v", False)
        self.const = rec.get("const", False)
        self.tu = rec["tu"]
        self.sname = self.name.rsplit("::", 1)[1] if "::" in self.name else self.name
        self._pure = None

    def __repr__(self):
        return "<%s/%d %s:%d>" % (short(self.name), len(self.params), self.file, self.line)

    @property
    def label(self):
        return "%s (%s:%d)" % (short(self.name), self.file, self.line)


class Cls:
    def __init__(self, rec):
        self.rec = rec
        self.name = short(rec["R"])
        self.full = rec["R"]
        self.file = rec["file"]
        self.line = rec["l"]
        self.fields = rec["fields"]
        self.bases = [short(b["n"]) for b in rec["bases"]]
        self.methods = rec["methods"]
        self.abstract = rec["abstract"]

    def __repr__(self):
        return "<class %s>" % self.name


class Prog:
    def __init__(self, repo=None, mt=False):
        t0 = time.time()
        data = frontend.extract(repo, mt)
        self.key = data["key"]
        self.stats = data["stats"]
        self.fns = {}
        self.cls = {}
        self.enums = {}
        self.globals = {}
        for r in data["recs"]:
            if "F" in r:
                self.fns[r["id"]] = Fn(r)
            elif "R" in r:
                c = Cls(r)
                self.cls[c.name] = c
            elif "E" in r:
                self.enums[short(r["E"])] = {v["n"]: v["v"] for v in r["v"]}
            elif "G" in r:
                self.globals[r["G"]] = r
        self.derived = {}
        for c in self.cls.values():
            for b in c.bases:
                self.derived.setdefault(b, []).append(c.name)
        self.by_cls = {}
        for f in self.fns.values():
            self.by_cls.setdefault(f.cls, []).append(f)
        # method id -> declared-in class, set of overridden ids
        self.meth = {}
        self.over = {}   # id -> direct overridden ids
        self.overriders = {}  # id -> direct overriders
        for c in self.cls.values():
            for m in c.methods:
                self.meth[m["id"]] = (c.name, m)
                for o in m.get("ov", []):
                    self.over.setdefault(m["id"], []).append(o)
                    self.overriders.setdefault(o, []).append(m["id"])
        self._impls = {}
        self._called = None
        self._mod = None
        self.load_wall = time.time() - t0

    # ---- hierarchy -------------------------------------------------------
    def linear_bases(self, c):
        out, st = [], [c]
        while st:
            x = st.pop(0)
            if x in out:
                continue
            out.append(x)
            k = self.cls.get(x)
            if k:
                st.extend(k.bases)
        return out

    def is_a(self, c, base):
        return base in self.linear_bases(c)

    def subclasses(self, base, concrete=False):
        out, st = [], [base]
        while st:
            x = st.pop()
            if x in out:
                continue
            out.append(x)
            st.extend(self.derived.get(x, []))
        out = [x for x in out if x in self.cls]
        if concrete:
            out = [x for x in out if not self.cls[x].abstract]
        return sorted(out)

    def closure_over(self, mid):
        out, st = set(), [mid]
        while st:
            x = st.pop()
            if x in out:
                continue
            out.add(x)
            st.extend(self.over.get(x, []))
        return out

    def final(self, cls, mid):
        """The method that a call to mid dispatches to on an object of class cls."""
        if mid not in self.meth:
            return mid
        for c in self.linear_bases(cls):
            k = self.cls.get(c)
            if not k:
                continue
            for m in k.methods:
                if m["id"] == mid or (m.get("v") and mid in self.closure_over(m["id"])):
                    return m["id"]
        return mid

    def impls(self, mid):
        """All bodies a virtual call to mid can reach (class-hierarchy analysis)."""
        if mid in self._impls:
            return self._impls[mid]
        out, st, seen = [], [mid], set()
        while st:
            x = st.pop()
            if x in seen:
                continue
            seen.add(x)
            if x in self.fns:
                out.append(x)
            st.extend(self.overriders.get(x, []))
        self._impls[mid] = out
        return out

    def lookup(self, cls, name, nparams=None, pred=None):
        """Method bodies visible in cls (own or inherited) called `name`."""
        out, hidden = [], set()
        for c in self.linear_bases(cls):
            k = self.cls.get(c)
            if not k:
                continue
            for m in k.methods:
                if m["n"] != name or m["id"] in hidden:
                    continue
                hidden |= self.closure_over(m["id"])
                f = self.fns.get(m["id"])
                if f is None:
                    continue
                if nparams is not None and len(f.params) != nparams:
                    continue
                if pred and not pred(f):
                    continue
                if f not in out:
                    out.append(f)
        return out

    def fields_of(self, cls):
        """{name: (fieldrec, owner class)} including inherited."""
        out = {}
        for c in self.linear_bases(cls):
            k = self.cls.get(c)
            if not k:
                continue
            for f in k.fields:
                out.setdefault(f["n"], (f, c))
        return out

    def ctors(self, cls):
        return [f for f in self.by_cls.get(cls, []) if f.rec.get("ctor")]

    def helper(self, f):
        """A member only other members can call, and some do: judged where it is called."""
        if not f.rec.get("acc") or f.virt or f.rec.get("ctor") or f.rec.get("dtor"):
            return False
        if self._called is None:
            self._called = {}
            for g in self.fns.values():
                for n in walk(g.body) if g.body is not None else ():
                    if n.get("k") in ("call", "opcall") and n.get("id"):
                        self._called.setdefault(n["id"], set()).add(g.id)
        return bool(self._called.get(f.id, set()) - {f.id})

    # ---- trivially inlinable accessors ---------------------------------
    def pure_return(self, fid):
        """If the body is a single side-effect-free return, its expression."""
        f = self.fns.get(fid)
        if f is None:
            return None
        if f._pure is None:
            f._pure = (None,)
            b = f.body
            s = [x for x in (b.get("s") or []) if x and x["k"] not in ("null",)]
            if len(s) == 1 and s[0]["k"] == "ret" and s[0].get("e"):
                e = s[0]["e"]
                ok = True
                for n in walk(e):
                    k = n.get("k")
                    if k in ("new", "del", "throw", "lambda", "unk"):
                        ok = False
                    if k == "bin" and n["op"] in ASSIGN:
                        ok = False
                    if k == "un" and n["op"] in ("++", "--"):
                        ok = False
                    if k == "opcall" and n["op"] in ASSIGN:
                        ok = False
                if ok:
                    f._pure = (e,)
        return f._pure[0]


ASSIGN = {"=", "+=", "-=", "*=", "/=", "|=", "&=", "^=", "%=", "<<=", ">>="}

_cache = {}


def load(repo=None, mt=False):
    k = (repo, mt)
    if k not in _cache:
        _cache[k] = Prog(repo, mt)
    return _cache[k]
