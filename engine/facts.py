"""Builds the fact base: mirrors /repo's working tree into a scratch folder,
generates the precision variants the way the project's build does, and runs
the clang-based extractor (tool/facts.cpp) on every library source file.

Nothing of the analysed project is executed; the only thing run from /repo is
its own code generator (tools/codegen.py), which produces sources."""
import hashlib, json, os, pickle, re, runpy, shlex, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor, ProcessPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
CACHE = os.path.join(VERIF, "build")
LLVM = "/usr/lib/llvm-18"


class AnalysisBroken(Exception):
    """The analysis could not be carried out (not a verdict on the property)."""


def _sha(b):
    return hashlib.sha256(b).hexdigest()


def build_tool():
    src = os.path.join(VERIF, "tool", "facts.cpp")
    key = _sha(open(src, "rb").read())[:16]
    out = os.path.join(CACHE, "plasma-facts-" + key)
    if os.path.exists(out):
        return out
    os.makedirs(CACHE, exist_ok=True)
    tmp = out + ".%d" % os.getpid()
    cmd = ["g++", "-std=c++17", "-O1", "-fno-rtti", "-w", "-I" + LLVM + "/include",
           "-D_GNU_SOURCE", "-D__STDC_CONSTANT_MACROS", "-D__STDC_FORMAT_MACROS",
           "-D__STDC_LIMIT_MACROS", src, "-o", tmp, "-L" + LLVM + "/lib",
           "-l:libclang-cpp.so.18.1", "-l:libLLVM-18.so", "-Wl,-rpath," + LLVM + "/lib"]
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if r.returncode:
        raise AnalysisBroken("cannot build the extractor:\n" + r.stdout.decode(errors="replace")[-2000:])
    os.replace(tmp, out)
    return out


def repo_files():
    out = subprocess.run(["git", "-c", "safe.directory=*", "-C", REPO, "ls-files", "-z",
                          "--cached", "--others", "--exclude-standard"],
                         check=True, stdout=subprocess.PIPE).stdout.decode().split("\0")
    return sorted({f for f in out if f and os.path.isfile(os.path.join(REPO, f))
                   and not f.startswith(("test/", "docs/", "fortran/"))})


def library_sources(src):
    """The .c files the project's CMake targets are made of."""
    text = open(os.path.join(src, "CMakeLists.txt")).read()
    text = re.sub(r"#[^\n]*", "", text)
    names = re.findall(r"\b((?:compute|core_blas|control)/[A-Za-z0-9_]+\.c)\b", text)
    return sorted(set(names))


def mirror(dst, files):
    for f in files:
        p = os.path.join(dst, f)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        shutil.copyfile(os.path.join(REPO, f), p)
    # ask the project's own script which files it generates from which
    calls = []
    real, argv, cwd = os.system, sys.argv, os.getcwd()
    os.system = lambda c: calls.append(c) or 0
    sys.argv = ["generate_precisions.py"]
    sys.dont_write_bytecode = True
    os.chdir(dst)
    try:
        runpy.run_path("tools/generate_precisions.py", run_name="__main__")
    except SystemExit as e:
        if e.code:
            raise AnalysisBroken("generate_precisions.py: %s" % e.code)
    finally:
        os.system, sys.argv = real, argv
        os.chdir(cwd)
    jobs = {}
    for c in calls:
        w = shlex.split(c)[2:]
        for t in w[2:]:
            if t.startswith("test/"):
                continue
            jobs.setdefault(t, [])
            if w[1] not in jobs[t]:
                jobs[t].append(w[1])
    groups = {}
    for t, ps in jobs.items():
        groups.setdefault(tuple(ps), []).append(t)
    work = []
    for ps, ts in groups.items():
        n = max(1, len(ts) // 12)
        for i in range(0, len(ts), n):
            work.append((ps, ts[i:i + n]))
    templ = {}

    def run(item):
        ps, ts = item
        cmd = [sys.executable, "-B", "-W", "ignore", "tools/codegen.py", "-v"]
        for p in ps:
            cmd += ["-p", p]
        r = subprocess.run(cmd + ts, cwd=dst, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        return r.returncode, r.stdout.decode(errors="replace")
    with ThreadPoolExecutor(os.cpu_count()) as ex:
        for rc, text in ex.map(run, work):
            if rc or "Error:" in text:
                raise AnalysisBroken("codegen failed: " + text[-500:])
    open(os.path.join(dst, "include", "plasma_config.h"), "w").write("#define PLASMA_USE_LUA\n")
    return templ


FLAGS = ["-std=gnu99", "-fopenmp", "-w", "-DPLASMA_USE_LUA", "-DPLASMA_WITH_OPENBLAS",
         "-isystem", "/usr/include/x86_64-linux-gnu/openblas-pthread",
         "-isystem", "/usr/include/lua5.4",
         "-resource-dir", LLVM + "/lib/clang/18"]
GCC_OMP_H = "/usr/lib/gcc/x86_64-linux-gnu/13/include/omp.h"

HEADERS_TU = """
#include "plasma.h"
#include "plasma_context.h"
#include "plasma_descriptor.h"
#include "plasma_internal.h"
#include "plasma_internal_z.h"
#include "plasma_internal_c.h"
#include "plasma_internal_d.h"
#include "plasma_internal_s.h"
#include "plasma_internal_zc.h"
#include "plasma_internal_ds.h"
#include "plasma_core_blas.h"
#include "plasma_tree.h"
#include "plasma_tuning.h"
#include "plasma_workspace.h"
#include "plasma_barrier.h"
#include "plasma_async.h"
#include "plasma_error.h"
"""


def extract(tool, src, out, sources):
    os.makedirs(out, exist_ok=True)
    # gcc's omp.h, with the attribute form clang does not know removed
    inc = os.path.join(out + "-inc")
    os.makedirs(inc, exist_ok=True)
    omp = open(GCC_OMP_H).read()
    omp = re.sub(r"__malloc__ \(omp_free\)", "__malloc__", omp)
    omp = re.sub(r"__malloc__ \(omp_free, 1\)", "__malloc__", omp)
    open(os.path.join(inc, "omp.h"), "w").write(omp)
    flags = FLAGS + ["-isystem", inc, "-I" + src + "/include"]
    hdr = os.path.join(src, "verif_headers.c")
    open(hdr, "w").write(HEADERS_TU)
    n = 40
    chunks = [sources[i::n] for i in range(n)]
    jobs = [["--headers", hdr]] + [[os.path.join(src, f) for f in c] for c in chunks if c]

    def run(fs):
        r = subprocess.run([tool, src, out] + fs + ["--"] + flags, cwd=src,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        return r.returncode, r.stdout.decode(errors="replace")
    with ThreadPoolExecutor(os.cpu_count()) as ex:
        for rc, text in ex.map(run, jobs):
            if rc:
                raise AnalysisBroken("a source file does not parse:\n" + text[-2000:])


def _load(path):
    items, types = [], None
    with open(path) as f:
        for line in f:
            d = json.loads(line)
            if d["k"] == "types":
                types = d["types"]
            else:
                items.append(d)
    for d in items:
        d["types"] = types
    return items


class Facts:
    pass


def _digest(files):
    h = hashlib.sha256()
    for f in files:
        h.update(f.encode() + b"\0")
        h.update(open(os.path.join(REPO, f), "rb").read() + b"\0")
    h.update(open(os.path.join(VERIF, "tool", "facts.cpp"), "rb").read())
    h.update(open(os.path.abspath(__file__), "rb").read())
    return h.hexdigest()[:24]


def load(keep_cache=True):
    files = repo_files()
    key = _digest(files)
    os.makedirs(CACHE, exist_ok=True)
    pk = os.path.join(CACHE, "facts-%s.pickle" % key)
    if os.path.exists(pk):
        try:
            return pickle.load(open(pk, "rb"))
        except Exception:
            pass
    tool = build_tool()
    tmp = tempfile.mkdtemp(prefix="vfacts-", dir=CACHE)
    try:
        src = os.path.join(tmp, "src")
        os.makedirs(src)
        mirror(src, files)
        sources = library_sources(src)
        missing = [s for s in sources if not os.path.exists(os.path.join(src, s))]
        if missing:
            raise AnalysisBroken("sources named by CMake are missing: %s" % missing[:5])
        out = os.path.join(tmp, "json")
        extract(tool, src, out, sources)
        F = Facts()
        F.funcs, F.protos, F.gvars, F.enums, F.records, F.hdecls = {}, {}, {}, {}, {}, {}
        F.units, F.dups, F.local = [], [], {}
        F.repo_files = files
        F.texts = {f: open(os.path.join(src, f), errors="replace").read()
                   for f in sources + [x for x in files if x.endswith(".lua")]
                   + ["include/" + h for h in os.listdir(src + "/include")]}
        names = sorted(os.listdir(out))
        with ProcessPoolExecutor(os.cpu_count()) as ex:
            loaded = list(ex.map(_load, [os.path.join(out, n) for n in names], chunksize=8))
        for name, items in zip(names, loaded):
            unit = name[:-5].replace("@", "/")
            F.units.append(unit)
            for d in items:
                k = d["k"]
                if k == "error":
                    raise AnalysisBroken("errors while parsing " + unit)
                if k == "func":
                    d["unit"] = unit
                    if d["static"]:
                        F.local[(unit, d["name"])] = d
                        F.local.setdefault(("*", d["name"]), d)
                    elif d["name"] in F.funcs:
                        F.dups.append((d["name"], unit, F.funcs[d["name"]]["unit"]))
                    else:
                        F.funcs[d["name"]] = d
                elif k == "proto":
                    d["params"] = [(n, d["types"][t]) for n, t in d["params"]]
                    d["ret"] = d["types"][d["ret"]]
                    del d["types"]
                    F.protos[d["name"]] = d
                elif k == "gvar":
                    F.gvars[(unit, d["name"])] = d
                elif k == "enumdef":
                    F.enums[d["name"] or "anon@" + d["file"] + d["items"][0][0]] = d["items"]
                elif k == "record":
                    F.records[d["types"][d["type"]]] = [(n, d["types"][t]) for n, t in d["fields"]]
                elif k == "hdecl":
                    F.hdecls.setdefault(d["name"], d["file"])
        F.sources = sources
        F.key = key
        if len(F.funcs) < 1000:
            raise AnalysisBroken("only %d functions were found" % len(F.funcs))
        tmpk = pk + ".%d" % os.getpid()
        pickle.dump(F, open(tmpk, "wb"), protocol=4)
        os.replace(tmpk, pk)
        # keep the cache small
        olds = sorted((os.path.getmtime(os.path.join(CACHE, f)), f) for f in os.listdir(CACHE)
                      if f.startswith("facts-") and f.endswith(".pickle"))
        for _, f in olds[:-4]:
            try:
                os.remove(os.path.join(CACHE, f))
            except OSError:
                pass
        return F
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


if __name__ == "__main__":
    import time
    t = time.time()
    F = load()
    print("%d units, %d functions, %d static, %d protos, %.1fs" %
          (len(F.units), len(F.funcs), len(F.local), len(F.protos), time.time() - t))
    print(F.dups[:5])
