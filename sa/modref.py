"""Type-based mod summaries: which fields, globals and parameters a function writes."""
from .prog import ASSIGN, short, walk

# Eigen/std member functions that return a view of (or a reference into) the
# object they are called on
VIEWS = {"head", "tail", "segment", "block", "topRows", "bottomRows", "leftCols",
         "rightCols", "middleCols", "middleRows", "topLeftCorner", "topRightCorner",
         "bottomLeftCorner", "bottomRightCorner", "col", "row", "diagonal",
         "transpose", "array", "matrix", "noalias", "derived", "triangularView",
         "selfadjointView", "back", "front", "at", "operator[]", "operator()",
         "operator->", "operator*", "get", "begin", "end", "find", "data",
         "const_cast_derived", "coeffRef", "adjoint", "reshaped", "rbegin", "rend",
         "static_pointer_cast", "dynamic_pointer_cast", "const_pointer_cast", "move",
         "forward", "lower_bound", "upper_bound", "cbegin", "cend", "ref"}
PASS_FNS = {"std::static_pointer_cast", "std::dynamic_pointer_cast",
            "std::const_pointer_cast", "std::move", "std::forward", "std::ref"}


def sname(fn):
    return fn.rsplit("::", 1)[1] if fn and "::" in fn else fn


def is_mut_ref(t):
    """Parameter type through which the callee can write the caller's value."""
    if t.endswith("&&"):
        return False
    if t.endswith("&"):
        return not t.startswith("const ")
    if "Eigen::Ref<" in t and not t.startswith("const ") and "Eigen::Ref<const" not in t:
        return True
    return False


def is_ptr(t):
    u = t[:-1].strip() if t.endswith("&") else t
    if u.startswith("const "):
        u = u[6:]
    return u.startswith("std::shared_ptr<") or u.endswith("*") or u.startswith("std::unique_ptr<")


def lroot(e, loc, depth=0):
    """Roots of an lvalue: yields ('fld',cls,name) | ('param',id) | ('global',n) | ('this',)."""
    while e is not None and depth < 60:
        depth += 1
        k = e["k"]
        if k == "mem":
            return [("fld", short(e["c"]), e["n"], e)]
        if k == "var":
            if e["vk"] == "param":
                return [("param", e["id"])]
            if e["vk"] in ("global", "static"):
                return [("global", e["n"])]
            d = loc.get(e["id"]) if loc else None
            if d and d.get("i") and (d["t"].endswith("&") or is_ptr(d["t"])
                                     or "iterator" in d["t"] or "Eigen::Block" in d["t"]
                                     or "Eigen::VectorBlock" in d["t"] or "Eigen::Ref" in d["t"]
                                     or "Eigen::Map" in d["t"]):
                e = d["i"]
                continue
            return []
        if k == "this":
            return [("this",)]
        if k in ("cast",):
            e = e["e"]
            continue
        if k == "un" and e["op"] in ("*", "&", "++", "--"):
            e = e["e"]
            continue
        if k == "idx":
            e = e["b"]
            continue
        if k == "cond":
            return lroot(e["x"], loc, depth) + lroot(e["y"], loc, depth)
        if k == "opcall":
            e = e["a"][0] if e["a"] else None
            continue
        if k == "call":
            if e.get("o") is not None:
                e = e["o"]
                continue
            if e.get("fn") in PASS_FNS or sname(e.get("fn")) in ("max", "min"):
                e = e["a"][0]
                continue
            return []
        if k == "ctor" and len(e.get("a", [])) >= 1:
            e = e["a"][0]
            continue
        return []
    return []


class ModRef:
    def __init__(self, prog):
        self.prog = prog
        self.fields = {}     # id -> set (cls, name)
        self.pmut = {}       # id -> set of param indices mutated (deep)
        self.globals = {}    # id -> {global: line}
        self.thismut = {}
        self.sites = {}      # id -> list of (line, root, op, expr)
        self.calls = {}
        for f in prog.fns.values():
            self._direct(f)
        self._fix()

    def _direct(self, f):
        fs, ps, gs, sites, calls = set(), set(), {}, [], []
        loc = {}
        pidx = {p["id"]: i for i, p in enumerate(f.params)}
        for n in walk(f.body):
            if n.get("k") == "decl":
                for d in n["d"]:
                    loc[d["id"]] = d
            elif n.get("k") == "rfor":
                d = dict(n["v"])
                d["i"] = n["r"]
                loc[d["id"]] = d

        def wr(e, op, line):
            for r in lroot(e, loc):
                sites.append((line, r, op, e))
                if r[0] == "fld":
                    fs.add((r[1], r[2]))
                    # a write through a field path also starts at its base
                elif r[0] == "param":
                    if r[1] in pidx:
                        ps.add(pidx[r[1]])
                elif r[0] == "global":
                    gs[r[1]] = line
        bodies = [f.body]
        for i in f.rec.get("inits", []) or []:
            if "m" in i:
                fs.add((f.cls, i["m"]))
            if i.get("e"):
                bodies.append(i["e"])
        for b in bodies:
            for n in walk(b):
                k = n.get("k")
                if k == "bin" and n["op"] in ASSIGN:
                    wr(n["lh"], n["op"], n["l"])
                elif k == "un" and n["op"] in ("++", "--"):
                    wr(n["e"], n["op"], n["l"])
                elif k == "new" and (n.get("p") or {}).get("k") == "un" and n["p"].get("op") == "&":
                    wr(n["p"]["e"], "new", n["l"])
                elif k == "opcall":
                    if n.get("id"):
                        calls.append(n)
                    op = n["op"]
                    if op in ASSIGN or op in ("++", "--"):
                        if n["a"]:
                            wr(n["a"][0], op, n["l"])
                    elif op == "<<" and "Eigen" in (n.get("fn") or ""):
                        if not n["fn"].startswith("Eigen::operator"):
                            wr(n["a"][0], "<<", n["l"])
                elif k == "call":
                    if n.get("id"):
                        calls.append(n)
                    else:
                        s = sname(n.get("fn") or "?")
                        if n.get("o") is not None and not n.get("const") and s not in VIEWS \
                                and not (n.get("fn") or "").startswith("std::basic_"):
                            wr(n["o"], "." + s, n["l"])
                        for i in n.get("mr", []):
                            if i < len(n["a"]) and s not in VIEWS and s not in ("max", "min", "abs"):
                                wr(n["a"][i], "arg:" + s, n["l"])
                        if s in ("solveInPlace", "applyOnTheLeft", "swap", "evalTo", "applyThisOnTheLeft") and n["a"]:
                            wr(n["a"][0], "arg:" + s, n["l"])
        self.fields[f.id] = fs
        self.pmut[f.id] = ps
        self.globals[f.id] = gs
        self.sites[f.id] = sites
        self.calls[f.id] = (calls, loc, pidx)

    def targets(self, n):
        """Bodies that call expression n can reach."""
        fid = n.get("id")
        if not fid:
            return []
        if n.get("v"):
            return self.prog.impls(fid)
        return [fid] if fid in self.prog.fns else []

    def arg_list(self, n):
        if n["k"] == "opcall" and n.get("m"):
            return n["a"][1:], n["a"][0]
        return n["a"], n.get("o")

    def _fix(self):
        changed = True
        while changed:
            changed = False
            for fid, (calls, loc, pidx) in self.calls.items():
                fs, ps, gs = self.fields[fid], self.pmut[fid], self.globals[fid]
                for n in calls:
                    args, obj = self.arg_list(n)
                    for t in self.targets(n):
                        new = self.fields[t] - fs
                        if new:
                            fs |= new
                            changed = True
                        for g, l in self.globals[t].items():
                            if g not in gs:
                                gs[g] = n["l"]
                                changed = True
                        tf = self.prog.fns[t]
                        for i in self.pmut[t]:
                            if i >= len(args) or i >= len(tf.params):
                                continue
                            ty = tf.params[i]["t"]
                            if not (is_mut_ref(ty) or is_ptr(ty)):
                                continue
                            for r in lroot(args[i], loc):
                                if r[0] == "fld":
                                    # deep mutation through a pointer is already
                                    # in fs as the pointee's field
                                    if is_mut_ref(ty) and (r[1], r[2]) not in fs:
                                        fs.add((r[1], r[2]))
                                        changed = True
                                elif r[0] == "param" and r[1] in pidx:
                                    if pidx[r[1]] not in ps:
                                        ps.add(pidx[r[1]])
                                        changed = True
                                elif r[0] == "global" and is_mut_ref(ty):
                                    if r[1] not in gs:
                                        gs[r[1]] = n["l"]
                                        changed = True


_c = {}


def get(prog):
    if id(prog) not in _c:
        _c[id(prog)] = ModRef(prog)
    return _c[id(prog)]
