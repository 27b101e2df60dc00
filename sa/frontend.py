"""Front end: turns /repo's current sources into an IR (JSON lines), with clang.

The pinocchio-free part of the library ("core", what the harness builds) is
parsed as a handful of generated translation units: every src/core/*.cpp plus
every src/core/**/*.cpp.in template instantiated for double (the float
instantiations come in through the cast<> members).  Nothing is compiled to
code and nothing of /repo is executed.
"""
import glob
import hashlib
import json
import os
import pickle
import re
import shutil
import subprocess
import sys
import tempfile
import time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("SA_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
CLANG = "/usr/bin/clang++-18"
IR_VERSION = "10"


class AnalysisBroken(Exception):
    """The analysis cannot give an answer (exit code 2, neither pass nor alarm)."""


def tool_path():
    src = os.path.join(VERIF, "tool", "extract.cpp")
    h = hashlib.sha256(open(src, "rb").read()).hexdigest()[:12]
    os.makedirs(BUILD, exist_ok=True)
    out = os.path.join(BUILD, "extract-" + h)
    if not os.path.exists(out):
        tmp = out + ".%d.tmp" % os.getpid()
        cmd = [CLANG, "-std=c++17", "-O1", "-fno-rtti",
               "-I/usr/lib/llvm-18/include", "-D_GNU_SOURCE",
               "-D__STDC_CONSTANT_MACROS", "-D__STDC_FORMAT_MACROS",
               "-D__STDC_LIMIT_MACROS", src, "-o", tmp,
               "/usr/lib/llvm-18/lib/libclang-cpp.so.18.1",
               "-L/usr/lib/llvm-18/lib", "-lLLVM-18"]
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                           universal_newlines=True)
        if r.returncode != 0:
            raise AnalysisBroken("extractor does not build:\n" + r.stdout[-3000:])
        os.rename(tmp, out)
    return out


def source_files(repo=None):
    repo = repo or REPO
    fs = []
    for top in ("include", "src/core"):
        for d, _, names in os.walk(os.path.join(repo, top)):
            for n in names:
                if n.endswith((".hpp", ".hxx", ".h", ".cpp", ".in", ".hh")):
                    fs.append(os.path.join(d, n))
    return sorted(fs)


def source_hash(repo=None):
    repo = repo or REPO
    h = hashlib.sha256()
    h.update(IR_VERSION.encode())
    h.update(open(os.path.join(VERIF, "tool", "extract.cpp"), "rb").read())
    h.update(open(os.path.join(VERIF, "sa", "frontend.py"), "rb").read())
    for f in source_files(repo):
        h.update(os.path.relpath(f, repo).encode())
        h.update(b"\0")
        h.update(open(f, "rb").read())
        h.update(b"\0")
    return h.hexdigest()[:20]


STATIC_IF = """#ifndef SA_STATIC_IF
#define SA_STATIC_IF
namespace pinocchio { namespace internal {
enum ComparisonOperators { LT, LE, EQ, GE, GT };
template <typename A, typename B>
B if_then_else(ComparisonOperators op, const A& l, const A& r, const B& x, const B& y) {
  switch (op) { case LT: return l < r ? x : y; case LE: return l <= r ? x : y;
    case EQ: return l == r ? x : y; case GE: return l >= r ? x : y; default: return l > r ? x : y; }
}
}}
#endif
"""

# core templates that the harness leaves out because they need packages that
# are not installed; the barrier activations only need pinocchio's
# if_then_else, which the overlay header above stands for.
SKIP = [r"/codegen/"]
EXTRA = ["include/crocoddyl/core/numdiff/%s.hpp" % n
         for n in ("actuation", "constraint", "control", "residual")]
EXTRA_CLASSES = []
for _n in ("Actuation", "Constraint", "ControlParametrization", "Residual"):
    EXTRA_CLASSES += ["class crocoddyl::%sModelNumDiffTpl" % _n,
                      "struct crocoddyl::%sDataNumDiffTpl" % _n]


def make_tus(work, repo, mt):
    ov = os.path.join(work, "ov")
    os.makedirs(os.path.join(ov, "crocoddyl/core"))
    os.makedirs(os.path.join(ov, "pinocchio/utils"))
    open(os.path.join(ov, "pinocchio/utils/static-if.hpp"), "w").write(STATIC_IF)
    open(os.path.join(ov, "crocoddyl/config.hpp"), "w").write(
        "#ifndef CROCODDYL_CONFIG_HH\n#define CROCODDYL_CONFIG_HH\n"
        "#define CROCODDYL_DLLAPI\n"
        "#define CROCODDYL_EXPLICIT_INSTANTIATION_DECLARATION_DLLAPI\n"
        "#define CROCODDYL_EXPLICIT_INSTANTIATION_DEFINITION_DLLAPI\n#endif\n")
    # numdiff/cost.hpp includes the multibody forward declarations without
    # using them; the real ones need pinocchio.
    os.makedirs(os.path.join(ov, "crocoddyl/multibody"))
    open(os.path.join(ov, "crocoddyl/multibody/fwd.hpp"), "w").write(
        "#pragma once\n#include \"crocoddyl/core/fwd.hpp\"\n"
        "namespace crocoddyl { template <typename Scalar> class CostModelNumDiffTpl;\n"
        "template <typename Scalar> struct CostDataNumDiffTpl; }\n")
    tmpl = sorted(glob.glob(os.path.join(repo, "src/core/**/*.cpp.in"), recursive=True)
                  + glob.glob(os.path.join(repo, "src/core/**/*.cpp_fptype.in"), recursive=True))
    tmpl = [t for t in tmpl if not any(re.search(s, t) for s in SKIP)]
    plain = sorted(glob.glob(os.path.join(repo, "src/core/**/*.cpp"), recursive=True))
    if not tmpl or not plain:
        raise AnalysisBroken("no sources found under %s/src/core" % repo)
    units = []
    nshard = 7
    shards = [[] for _ in range(nshard)]
    for i, t in enumerate(tmpl):
        shards[i % nshard].append(t)
    for i, s in enumerate(shards):
        p = os.path.join(work, "tu%d.cpp" % i)
        with open(p, "w") as o:
            for t in s:
                o.write("// %s\n" % os.path.relpath(t, repo))
                o.write(open(t).read().replace("@SCALAR_TYPE@", "double"))
                o.write("\n")
        units.append((p, [os.path.relpath(t, repo) for t in s]))
    # numerical-differentiation wrappers that no source file instantiates
    p = os.path.join(work, "tux.cpp")
    names = []
    with open(p, "w") as o:
        for h in EXTRA:
            f = os.path.join(repo, h)
            if not os.path.exists(f):
                raise AnalysisBroken("header %s has vanished" % h)
            names.append(h)
            o.write('#include "%s"\n' % f)
        for c in EXTRA_CLASSES:
            o.write("template %s<double>;\n" % c)
        # conversions that no source file instantiates
        for h in ("costs/cost-sum", "constraints/constraint-manager", "optctrl/shooting"):
            o.write('#include "crocoddyl/core/%s.hpp"\n' % h)
        for c in ("CostItem", "CostModelSum", "ConstraintItem", "ConstraintModelManager", "ShootingProblem"):
            o.write("template crocoddyl::%sTpl<float> crocoddyl::%sTpl<double>::cast<float>() const;\n" % (c, c))
        # members the dynamics of the multibody part use
        act = "crocoddyl::DifferentialAction%sAbstractTpl<double>* const"
        o.write('#include "crocoddyl/core/diff-action-base.hpp"\n')
        for c in ("CostDataSum", "ConstraintDataManager"):
            o.write("template void crocoddyl::%sTpl<double>::shareMemory(%s);\n" % (c, act % "Data"))
        o.write("template void crocoddyl::ConstraintDataManagerTpl<double>::resize(crocoddyl::ConstraintModelManagerTpl<double>* const, const bool);\n")
        o.write("template void crocoddyl::ConstraintDataManagerTpl<double>::resize(%s, %s, const bool);\n" % (act % "Model", act % "Data"))
    units.append((p, names))
    ps = [[], [], []]
    for i, t in enumerate(plain):
        ps[i % 3].append(t)
    for i, s in enumerate(ps):
        p = os.path.join(work, "pl%d.cpp" % i)
        with open(p, "w") as o:
            for t in s:
                o.write('#include "%s"\n' % t)
        units.append((p, [os.path.relpath(t, repo) for t in s]))
    return ov, units


def extract(repo=None, mt=False, quiet=False):
    """Returns the list of IR records for the current tree (cached by content)."""
    repo = repo or REPO
    key = source_hash(repo) + ("-mt" if mt else "")
    os.makedirs(BUILD, exist_ok=True)
    cache = os.path.join(BUILD, "ir-%s.pkl" % key)
    if os.path.exists(cache):
        try:
            return pickle.load(open(cache, "rb"))
        except Exception:
            pass
    t0 = time.time()
    tool = tool_path()
    work = tempfile.mkdtemp(prefix="sa-ir-")
    try:
        ov, units = make_tus(work, repo, mt)
        flags = ["-std=c++14", "-xc++", "-resource-dir=/usr/lib/llvm-18/lib/clang/18",
                 "-I" + ov, "-I" + os.path.join(repo, "include"),
                 "-I/usr/include/eigen3", "-DNDEBUG", "-DCROCODDYL_WITH_IPOPT",
                 "-Wno-everything", "-ferror-limit=20", "-DHAVE_CSTDDEF",
                 "-include", os.path.join(repo, "include/crocoddyl/core/pch.hpp")]
        for p in ("/usr/include/coin", "/usr/include/coin-or"):
            if os.path.isdir(p):
                flags.append("-I" + p)
        if mt:
            ompdir = os.path.join(work, "omp")
            os.makedirs(ompdir)
            open(os.path.join(ompdir, "omp.h"), "w").write(
                'extern "C" { int omp_get_max_threads(); int omp_get_thread_num();'
                ' int omp_get_num_threads(); void omp_set_num_threads(int); }\n')
            flags += ["-fopenmp", "-I" + ompdir, "-DCROCODDYL_WITH_MULTITHREADING",
                      "-DCROCODDYL_WITH_NTHREADS=2"]

        def one(u):
            p, names = u
            out = p + ".json"
            r = subprocess.run([tool, repo.rstrip("/") + "/", out, p, "--"] + flags,
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                               universal_newlines=True)
            return r, out, names

        with ThreadPoolExecutor(max_workers=8) as ex:
            res = list(ex.map(one, units))
        recs = []
        seen = set()
        stats = {"units": 0, "sources": []}
        for i, (r, out, names) in enumerate(res):
            if r.returncode != 0 or not os.path.exists(out):
                raise AnalysisBroken("front end failed on %s:\n%s"
                                     % (", ".join(names), r.stdout[-4000:]))
            stats["units"] += 1
            stats["sources"] += names
            for line in open(out):
                o = json.loads(line)
                k = (o.get("R"), o.get("id"), o.get("E"), o.get("G"))
                if k in seen:
                    continue
                seen.add(k)
                o["tu"] = i
                recs.append(o)
        stats["wall"] = time.time() - t0
        data = {"recs": recs, "stats": stats, "key": key}
        tmp = cache + ".%d.tmp" % os.getpid()
        pickle.dump(data, open(tmp, "wb"), protocol=4)
        os.rename(tmp, cache)
        # keep the cache directory small
        olds = sorted(glob.glob(os.path.join(BUILD, "ir-*.pkl")), key=lambda f: os.path.getmtime(f) if os.path.exists(f) else 0)
        for o in olds[:-6]:
            try:
                os.remove(o)
            except OSError:
                pass
        return data
    finally:
        shutil.rmtree(work, ignore_errors=True)


if __name__ == "__main__":
    t = time.time()
    d = extract(mt="--mt" in sys.argv)
    print(len(d["recs"]), "records", d["stats"]["units"], "units", "%.1fs" % (time.time() - t))
