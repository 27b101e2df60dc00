"""C01: evaluation is effect-free on models and globals (transitive mod analysis)."""
from sa import model
from sa.modref import is_mut_ref, lroot
from sa.prog import short, walk

RULE = ("Type-based transitive mod analysis over the resolved call graph (virtual calls: all overriders): "
        "no evaluation entry point of a model class may reach a write to a field of a model or state class, "
        "to a global or function-local static, or to an argument it takes by const reference.")

TECHNIQUE = "transitive type-based mod-ref (effect) analysis over the resolved call graph"
NOTE = ("Sound up to the front end's coverage (every core translation unit and all template members): decides that no "
        "evaluation entry point can reach a write to a model, state or global. Writes hidden behind raw-pointer "
        "aliases into another model's Eigen storage are out of reach.")


def check(rep):
    p, mr = model.load()
    models = model.model_classes(p)
    entries = 0
    reach_cache = {}

    def closure(fid):
        if fid in reach_cache:
            return reach_cache[fid]
        seen, st = {}, [(fid, None, 0)]
        while st:
            x, par, line = st.pop()
            if x in seen:
                continue
            seen[x] = (par, line)
            for n in mr.calls[x][0]:
                for t in mr.targets(n):
                    if t not in seen:
                        st.append((t, x, n["l"]))
        reach_cache[fid] = seen
        return seen

    # direct offending writes, per function
    direct = {}
    for f in p.fns.values():
        if f.rec.get("ctor") or f.rec.get("dtor"):
            continue
        out = []
        for line, r, op, e in mr.sites[f.id]:
            if r[0] == "fld" and r[1] in models:
                # a write into a freshly built local model is not a side effect
                if not through_local(e, mr.calls[f.id][1]):
                    out.append((line, "%s.%s" % (r[1], r[2])))
            elif r[0] == "global":
                out.append((line, "global " + r[1]))
        if out:
            direct[f.id] = out
    for c in sorted(models | {b for b in model.BASES if b in p.cls}):
        for f in p.by_cls.get(c, []):
            if f.sname not in model.EVAL:
                continue
            entries += 1
            cl = closure(f.id)
            hits = []
            for g in cl:
                gf = p.fns[g]
                if g in direct and gf.cls != "Stopwatch" and not (gf.file.endswith("stop-watch.cpp")):
                    for line, what in direct[g]:
                        hits.append((g, line, what))
            rep.ob("entry points", not hits, "%s reaches %d functions, none writes a model" % (f.label, len(cl)))
            for g, line, what in hits:
                gf = p.fns[g]
                rep.bad("evaluation writes %s" % what,
                        "%s:%d: %s writes %s during evaluation" % (gf.file, line, short(gf.name), what),
                        ["reached from evaluation entry point %s" % f.label] + path(p, cl, g))
            # const arguments
            for i in mr.pmut[f.id]:
                t = f.params[i]["t"]
                if not is_mut_ref(t) and "Eigen::Ref<const" in t:
                    rep.bad("%s mutates const argument %s" % (short(f.name), f.params[i]["n"]),
                            "%s: %s writes through its const argument %s" % (f.label, f.sname, f.params[i]["n"]))
            rep.ob("const arguments")
    rep.need("evaluation entry points", entries, 150)
    rep.need("model classes", len(models), 40)
    rep.need("functions in the call graph", len(p.fns), 900)


def through_local(e, loc):
    """The written object is a local value of the function."""
    while isinstance(e, dict):
        k = e["k"]
        if k == "var":
            if e["vk"] != "local":
                return False
            d = loc.get(e["id"])
            if d is None:
                return False
            t = d["t"]
            if t.endswith("&") or t.endswith("*"):
                e = d.get("i")
                continue
            if t.replace("const ", "").startswith("std::shared_ptr"):
                i = d.get("i")
                return bool(i) and i.get("k") == "call" and (i.get("fn") or "").endswith(
                    ("make_shared", "allocate_shared"))
            return "iterator" not in t and "Eigen::Ref" not in t and "Block" not in t and "Map<" not in t
        if k == "mem":
            e = e["b"]
        elif k in ("cast", "un"):
            e = e["e"]
        elif k == "opcall":
            e = e["a"][0] if e["a"] else None
        elif k == "call":
            e = e.get("o") or (e["a"][0] if e["a"] else None)
        elif k == "idx":
            e = e["b"]
        else:
            return False
    return False


def path(p, cl, g):
    out = []
    while g is not None:
        par, line = cl[g]
        if par is not None:
            out.append("%s called at %s:%s" % (short(p.fns[g].name), p.fns[par].file, line))
        g = par
    return list(reversed(out))
