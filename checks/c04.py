"""C04: numerical failures reach the caller with the right global index."""
import facts, interp, re
from client import *
from common import *
from predicates import infeasible, show_row
import blocking, c01

RULE = ("(a) every nonzero result of a fallible tile kernel, in every task, is followed by plasma_request_fail with a "
        "nonzero status before the task ends, on every path; with an index base (iinfo, or the offset of the panel view) "
        "the status is exactly base + result; (b) kernels return the LAPACK result unchanged; the panel records the first "
        "zero pivot as column + 1; (c) the index base passed is the offset of the tile passed; (d) blocking routines return "
        "the status of their sequence; (e) no tile algorithm fails a sequence that it has found failed; only plasma_request_fail / plasma_sequence_init write a sequence's status")

# xHEGST reports illegal arguments only; parfb/pamm/pemv check arguments only
INFALLIBLE = {"hegst", "sygst"}
LAPACK = re.compile(r"^LAPACKE_[sdcz](potrf|trtri|lauum|lag2c|lag2s|getrf|hegst|sygst)(_work)?$")
NUMERICAL = re.compile(r"^plasma_core_[sdcz](potrf|trtri|lag2c|lag2s)$")
DRIVER = re.compile(r"^LAPACKE_[sdcz](bdsdc|gesdd|stein|hetrd|steqr|stedc)(_work)?$")


def fallible(F):
    out = set()
    for n, f in F.funcs.items():
        if n.startswith("plasma_core_") and not n.startswith("plasma_core_omp_") and f["types"][f["ret"]] == "int":
            if n[len("plasma_core_") + 1:] not in INFALLIBLE:
                out.add(n)
    return out


class Task(Base):
    """cs: (depth, frozenset of (pending result, base))"""
    def __init__(self, fal, F):
        self.fal, self.F = fal, F
        self.fails = []
        self.lost = []
        self.ncalls = 0
        self.bases = []

    def init(self):
        return (0, frozenset(), frozenset())

    def pend(self, st, add):
        d, p, k = st.cs
        return interp.State(st.env, st.heap, st.pc, (d, p | {add}, k))

    def merge_cs(self, a, b):
        return None

    def drop(self, st):
        """results known to be zero on this path are no longer pending"""
        d, p, k = st.cs
        if not p:
            return st
        pc = pathcond(st)
        keep = frozenset(x for x in p if not infeasible(and_(pc, not_(eq(x[0], ZERO))))[0])
        if keep is p or keep == p:
            return st
        return interp.State(st.env, st.heap, st.pc, (d, keep, k))

    def branch(self, ex, st, cond):
        return self.drop(st)

    def task_begin(self, ex, st, kind, clauses, node):
        return interp.State(st.env, st.heap, st.pc, (st.cs[0] + 1, frozenset(), st.cs[2]))

    def task_end(self, ex, before, states, kind, clauses, node):
        for s in states:
            for v, base in self.drop(s).cs[1]:
                self.lost.append((ex.where(node[4]), v))
        return before

    def call(self, ex, st, name, args, e):
        line = e[4]
        # kernels that can only find illegal arguments matter in their own wrapper
        if name in self.fal and (NUMERICAL.match(name) or ex.fn["name"] == name.replace("_core_", "_core_omp_")) \
                or DRIVER.match(name):
            self.ncalls += 1
            s, v = ex.opaque(name, args, e, st)
            return [(self.pend(s, (v, None)), v)]
        if re.match(r"^plasma_core_[sdcz]getrf$", name):
            self.ncalls += 1
            s, v = ex.opaque(name, args, e, st)
            for i, a in enumerate(args):
                if a.op == "addr" and self.F.protos[name]["params"][i][0] == "info":
                    view = args[0]
                    s = self.pend(s, (ex.read(s, ex.deref(a, ())), view))
            return [(s, v)]
        if name in ("malloc", "calloc"):
            # a failed allocation is a failure as well
            v = mk("heapmem", ex.site(e))
            bad = ite(eq(v, ZERO), ONE, ZERO)
            return [(st, v)]
        if name == "plasma_request_fail":
            self.fails.append((st, args, ex.where(line), st.cs[1]))
            d, p, k = st.cs
            st = interp.State(st.env, st.heap, st.pc, (d, frozenset(), k))
            return [(st, args[2])]
        if re.match(r"^plasma_core_omp_[sdcz](potrf|trtri)$", name):
            self.bases.append((st, name, args, ex.where(line)))
        return None

    def ret(self, ex, st, val, line):
        for v, base in self.drop(st).cs[1]:
            if val is not None and val is v:
                continue
            self.lost.append(("%s:%d (%s)" % (ex.fn["file"], line, ex.fn["name"]), v))


class Kern(Base):
    """results of LAPACK must be returned"""
    def __init__(self):
        self.rets = []
        self.n = 0

    def init(self):
        return frozenset()

    def call(self, ex, st, name, args, e):
        if LAPACK.match(name):
            self.n += 1
            s, v = ex.opaque(name, args, e, st)
            return [(interp.State(s.env, s.heap, s.pc, s.cs | {v}), v)]
        return None

    def ret(self, ex, st, val, line):
        self.rets.append((st, val, line))


class Panel(Base):
    """the LU panel: cs = set of flags"""
    def __init__(self):
        self.stores = []
        self.bars = []

    def init(self):
        return ()

    def call(self, ex, st, name, args, e):
        if name.startswith("cblas_"):
            return [(st, ZERO)]
        if name == "plasma_barrier_wait":
            self.bars.append((st, ex.where(e[4])))
            return [(interp.State(st.env, st.heap, st.pc, ()), ZERO)]
        return None

    def store(self, ex, st, loc, val, node):
        if loc[0] == "mem":
            r = root(loc[1])
            if r is sym("info"):
                self.stores.append((st, val, ex.where(ex.cur()["line"]), ex.read(st, ("mem", sym("info"), ()))))
            if r is sym("ipiv") and node[0] == "asg" and node[1] == "=":
                # the candidate that was chosen is at the place of its index
                p = {x.args[2] if x.op == "phi" and len(x.args) > 3 and x.args[1] == "heap" else x.args[0] for x in subterms(val)
                     if x.op in ("load", "clob") or x.op == "phi" and len(x.args) > 3 and x.args[1] == "heap"}
                p = [pofs(x, sym("max_idx")) for x in p if isinstance(x, Term) and root(x) is sym("max_idx")]
                at = padd(sym("max_val"), p[0]) if len(p) == 1 and p[0] is not None else sym("max_val")
                mv = ex.read(st, ("mem", at, ()))
                return interp.State(st.env, st.heap, st.pc, (("piv", loc[1], mv),))
        return st


def view_offsets(v):
    """(row, column) offsets of a plasma_desc_view term relative to its base"""
    while v.op == "upd":
        v = v.args[0]
    if v.op == "call" and v.args[0] == "plasma_desc_view":
        return v.args[1], v.args[2], v.args[3]
    return None


def same(pc, a, b):
    return a is b or infeasible(and_(pc, not_(eq(a, b))))[0]


def square(t):
    """tiles are square: mb and nb are the same number"""
    return T.subst(t, {x.uid: mk("fld", x.args[0], "nb") for x in subterms(t) if x.op == "fld" and x.args[1] == "mb"})


def implied_failed(pc, s):
    """the path has seen the sequence failed"""
    return infeasible(and_(pc, eq(mk("load", s, ("status",)), ZERO)))[0] and \
        mk("load", s, ("status",)) in set(subterms(pc))


def run(F):
    rep = Report("C04", RULE)
    fal = fallible(F)
    E = consts(F)
    # (a), (c)
    for f in sorted(F.funcs.values(), key=lambda f: (f["file"], f["line"])):
        n = f["name"]
        if not f["file"].startswith(("compute/", "core_blas/")):
            continue
        isseq = any("plasma_sequence_t" in f["types"][t] for _, _, t in f["params"])
        if not isseq or not (n.startswith(("plasma_core_omp_", "plasma_p", "plasma_omp_"))):
            continue
        cl = Task(fal, F)
        ex = interp.Exec(F, cl)
        ex.run(f)
        fw = "%s (%s)" % (f["file"], n)
        iinfo = any(p == "iinfo" for _, p, _ in f["params"])
        for w, v in sorted({(w, v) for w, v in cl.lost}, key=str):
            rep.bad("result", "C04:%s:lost" % n, w, "drops the failure reported by %s" % str(v.args[0]))
        if cl.ncalls:
            rep.ok("result", fw, "%d kernel calls" % cl.ncalls, cl.ncalls)
        for st, args, w, pend in cl.fails:
            pc = pathcond(st)
            val = args[2]
            for s in [sym(p) for _, p, t in f["params"] if "plasma_sequence_t" in f["types"][t]]:
                rep.check(not implied_failed(pc, s), "keeps", "C04:%s:overwrites" % n, w,
                          "replaces the failure already recorded in the sequence")
            for v, base in pend:
                pcv = and_(pc, not_(eq(v, ZERO)))
                if infeasible(pcv)[0]:
                    continue
                if iinfo:
                    rep.check(same(pcv, val, add(sym("iinfo"), v)), "index", "C04:%s:index" % n, w,
                              "fails with %s instead of iinfo + result" % show(val)[:80])
                elif base is not None:
                    off = view_offsets(base)
                    good = off is not None and (any(
                        same(square(pcv), square(val), square(add(off[i], v))) for i in (1, 2)))
                    rep.check(good, "index", "C04:%s:index" % n, w,
                              "fails with %s, not with the panel's offset plus the index in the panel" % show(val)[:80])
                else:
                    pos = and_(pcv, lt(ZERO, v))
                    rep.check(infeasible(and_(pos, eq(val, ZERO)))[0], "nonzero", "C04:%s:zero" % n, w,
                              "a failing kernel may leave the status %s successful" % show(val)[:80])
            if not pend:
                rep.check(infeasible(and_(pc, eq(val, ZERO)))[0] if not is_const(val) else val is not ZERO, "nonzero",
                          "C04:%s:zero" % n, w, "plasma_request_fail with a successful status")
        for st, name, args, w in cl.bases:
            pars = [p[0] for p in F.protos[name]["params"]]
            A, base = args[pars.index("A")], args[pars.index("iinfo")]
            good = A.op == "call" and A.args[0] == "plasma_tile_addr" and A.args[2] is A.args[3]
            k = A.args[2] if good else None
            if good:
                desc = A.args[1]
                good = base in (mul(fld(desc, "nb"), k), mul(fld(desc, "mb"), k))
            elif iinfo:
                good = base is sym("iinfo")
            rep.check(good, "base", "C04:%s:base" % n, w,
                      "%s gets the index base %s for tile %s" % (name, show(base)[:60], show(A)[:60]))
    # (b)
    for f in sorted(F.funcs.values(), key=lambda f: f["name"]):
        n = f["name"]
        if not n.startswith("plasma_core_") or n.startswith("plasma_core_omp_"):
            continue
        if re.match(r"^plasma_core_[sdcz]getrf$", n):
            panel(F, f, rep)
            continue
        cl = Kern()
        ex = interp.Exec(F, cl)
        ex.run(f)
        if not cl.n:
            continue
        for st, val, line in cl.rets:
            for v in st.cs:
                pc = and_(pathcond(st), not_(eq(v, ZERO)))
                good = val is not None and (val is v or infeasible(and_(pc, not_(eq(val, v))))[0])
                rep.check(good, "kernel", "C04:%s:return" % n, "%s:%d (%s)" % (f["file"], line, n),
                          "does not return the result of %s" % str(v.args[0]))
    # (d)
    for n, f in c01.routines(F):
        if f["types"][f["ret"]] != "int" or n.endswith("stevx2"):
            continue
        cl = blocking.Blk()
        ex = interp.Exec(F, cl)
        ex.run(f)
        for st, val, line in cl.rets:
            if ("run",) not in st.cs and not any(x[0] in ("in", "out") for x in st.cs):
                continue
            w = "%s:%d (%s)" % (f["file"], line, n)
            js = [v for k, v in st.env.items() if k[0] == "v" and k[-1] == "sequence"]
            if not js or val is None:
                rep.bad("status", "C04:%s:status" % n, w, "has no sequence")
                continue
            s = fld(js[0], "status")
            pc = pathcond(st)
            good = val is s or all(infeasible(and_(pc, c, not_(eq(leaf, s)), not_(eq(s, ZERO))))[0] and
                                   infeasible(and_(pc, c, not_(eq(leaf, s)), not_(eq(leaf, ZERO)), eq(s, ZERO)))[0] or
                                   infeasible(and_(pc, c, eq(leaf, ZERO)))[0]
                                   for c, leaf in leaves(val))
            rep.check(good, "status", "C04:%s:status" % n, w,
                      "returns %s after the computation, not the status of the sequence" % show(val)[:80])
    # (e)
    for f in F.funcs.values():
        for lhs, line in status_stores(f):
            rep.check(f["name"] in ("plasma_request_fail", "plasma_sequence_init", "plasma_request_init"), "writer",
                      "C04:%s:writes" % f["name"], "%s:%d (%s)" % (f["file"], f["line"], f["name"]),
                      "writes the status of a sequence or request")
    return finish(rep, {"result": 90, "index": 16, "base": 20, "kernel": 10, "status": 150, "writer": 3, "panel": 16, "keeps": 90})


def status_stores(f):
    out = []

    def w(x):
        if isinstance(x, list):
            if x and (x[0] == "asg" or x[0] == "un" and x[1] in ("++", "--", "p++", "p--")):
                l = x[2]
                if isinstance(l, list) and l and l[0] == "mem" and l[2] == "status":
                    out.append((l, 0))
            for y in x:
                if isinstance(y, list):
                    w(y)
    w(f["body"])
    return out


def panel(F, f, rep):
    n = f["name"]
    cl = Panel()
    ex = interp.Exec(F, cl)
    ex.run(f)
    info = sym("info")
    for st, val, w, old in cl.stores:
        pc = pathcond(st)
        piv = [x for x in st.cs if x[0] == "piv"]
        good = False
        if piv:
            # the pivot of column j is stored at ipiv + j
            j = pofs(piv[0][1], sym("ipiv"))
            good = j is not None and val is add(j, ONE)
        rep.check(good, "panel", "C04:%s:value" % n, w, "records %s instead of the column of the zero pivot" % show(val))
        rep.check(infeasible(and_(pc, not_(eq(old, ZERO))))[0], "panel", "C04:%s:first" % n, w,
                  "overwrites an earlier failure of the panel")
        rep.check(bool(piv) and infeasible(and_(pc, not_(eq(piv[0][2], ZERO))))[0], "panel", "C04:%s:cond" % n, w,
                  "reports a failure although the pivot is not zero")
    k = 0
    for st, w in cl.bars:
        for x in st.cs:
            if x[0] != "piv":
                continue
            k += 1
            now = ex.read(st, ("mem", info, ()))
            j = pofs(x[1], sym("ipiv"))
            rep.check(infeasible(and_(pathcond(st), le(ZERO, j), eq(x[2], ZERO), eq(now, ZERO)))[0], "panel", "C04:%s:missed" % n, w,
                      "a zero pivot is not recorded")
    rep.check(k > 0 and bool(cl.stores), "panel", "C04:%s:recorded" % n, "%s (%s)" % (f["file"], n),
              "zero pivots are never recorded")


def pofs(p, base):
    if p is base:
        return ZERO
    if p.op == "padd" and p.args[0] is base:
        return p.args[1]
    return None
