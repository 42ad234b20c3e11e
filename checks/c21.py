"""C21: the calling thread waits before it touches, or lets new tasks reuse,
what unfinished tasks still use.

 host      outside tasks, a value, vector or matrix that tasks still to run
           read or write is not accessed by the calling thread; kernels called
           directly, without a task, run only when every task created before
           has finished
 reuse     scratch that a task not waited for may still read is not given to
           another task to write unless both name the same address (which the
           dependences order) or different parts of it; and a task reading a
           whole vector of partial results is created only after those writing
           its parts have finished, or names the same address"""
import re

import interp, facts
from client import *
from common import *
from predicates import *
import dataflow

RULE = ("on every path of every asynchronous routine and tile algorithm, with the tasks not yet waited for as typestate "
        "(cleared by taskwait, barrier and the end of a parallel region): no host access to what a pending task uses, "
        "no direct kernel call on matrices while tasks may be pending, no task reading (writing) an auxiliary vector at "
        "one address while a pending task writes (reads) it at another")

# the reduction to bidiagonal form by bulge chasing and its back transformation
# synchronise by barriers and progress tables, not by dependences: C13
STATIC = re.compile(r"gbbrd_static|larft_blgtrd|unmqr_blgtrd")
INLINED = re.compile(r"plasma_p(dz|sc|[sdcz])(lan(ge|gb|he|sy|tr)|amax|tbsm)$")
SYNC = re.compile(r"plasma_p[sdcz]gbbrd_static$")      # its own parallel region
AMAX = re.compile(r"plasma_p(dz|sc|[sdcz])amax$")
DIRECT = re.compile(r"(plasma_core_(?!omp_)|cblas_|LAPACKE_)")
PUREK = re.compile(r"LAPACKE_[sd]lamch|plasma_core_[sd]cabs1")
SKIP = ("plasma_sequence_t", "plasma_request_t", "plasma_workspace_t", "plasma_barrier_t", "plasma_context_t")
LD = re.compile(r"ld[a-z]*\d*$")


class C(Base):
    peel = True

    """cs = (quiet, frozenset of (root, address, mode, extent, where))
    quiet: no task created here or by the caller can be unfinished"""

    def __init__(self, F, fn, ob):
        self.F, self.f, self.ob = F, fn, ob
        self.eff = dataflow.Effects(F)
        self.keep = frozenset(n for n in F.funcs if INLINED.match(n))
        self.seen = 0
        self.ext = {}

    def init(self):
        return (False, frozenset(), 0)

    def going(self, st):
        """a failed sequence runs no kernels (C05): only the others matter"""
        st.heap[(sym("sequence"), ("status",))] = ZERO
        return st

    def merge_cs(self, a, b):
        if a[2] != b[2]:
            return None
        return (a[0] and b[0], a[1] | b[1], a[2])

    @staticmethod
    def put(st, cs):
        return interp.State(st.env, st.heap, st.pc, cs)

    def wait(self, st):
        return self.put(st, (True, frozenset(), st.cs[2]))

    def omp(self, ex, st, kind, clauses, node):
        if kind in ("taskwait", "barrier") and not st.cs[2]:
            return self.wait(st)
        return st

    def omp_end(self, ex, st, kind, clauses, node):
        if kind in ("parallel", "taskgroup") and not st.cs[2]:
            return self.wait(st)
        return st

    # -- tasks -----------------------------------------------------------
    def task_begin(self, ex, st, kind, clauses, node):
        return self.put(st, (st.cs[0], st.cs[1], st.cs[2] + 1))

    def task_end(self, ex, before, states, kind, clauses, node):
        if before.cs[2]:
            return before
        items = set()
        for c in clauses:
            if c[0] == "depend":
                for p, x in c[2]:
                    if self.aux(p):
                        items.add((root(p), p, {"in": "r"}.get(c[1], "rw"), None, ex.where(node[4])))
        return self.put(before, (False, before.cs[1] | items, 0))

    def aux(self, p):
        """memory that tasks use besides matrices: a vector, a scalar"""
        if not isinstance(p, Term):
            return False
        r = root(p)
        if r.op == "addr":
            return True
        return r.op in ("sym", "load", "ret", "fld", "heapmem")

    def pointee(self, name, i):
        ts = self.eff.ptypes(name)
        if ts is None or i >= len(ts):
            return None
        t = ts[i]
        if "*" not in t or any(s in t for s in SKIP) or t.replace(" ", "").endswith("void*"):
            return None
        return t

    def extent(self, name, args, i):
        """elements used from the address: leading dimension times columns"""
        f = self.eff.proto(name)
        names = [p[1] if len(p) == 3 else p[0] for p in f["params"]]
        if i + 1 < len(names) and LD.match(names[i + 1]) and "n" in names:
            return mul(args[i + 1], args[names.index("n")])
        return None

    def call(self, ex, st, name, args, e):
        if st.cs[2]:
            return None
        line = e[4]
        w = ex.where(line)
        if name.startswith("plasma_core_omp_"):
            new = set()
            for i, a in enumerate(args):
                if self.pointee(name, i) is None or not self.aux(a):
                    continue
                mode = self.eff.mode(name, i)
                if not mode:
                    continue
                wr = "w" in mode
                ext = self.extent(name, args, i)
                r = root(a)
                for (r2, a2, m2, x2, w2) in st.cs[1]:
                    if r2 is not r or a2 is a:
                        continue
                    # a write of a part of which another part is being written
                    # is fine; the parts are told apart by C10 and C06
                    if not (wr and mode == "w" and "r" in m2 or not wr and "w" in m2 or wr and m2 == "r"):
                        continue
                    good = self.apart(st, a, ext, a2, x2)
                    self.obl(good, "reuse", name, r, w,
                             "%s %s at an address other than the one a task not waited for (%s) %s it through" %
                             ("writes" if wr else "reads", show(r), w2, "reads" if m2 == "r" else "writes"))
                self.obl(True, "reuse", name, r, w, "")
                new.add((r, a, mode, ext, w))
            self.seen += 1
            return [(self.put(st, (False, st.cs[1] | frozenset(new), 0)), ZERO)]
        if name in self.keep and ex.find(name) is not None:
            if AMAX.match(name):
                A = args[1]
                self.ext[args[2]] = [mul(fld(A, "mt"), fld(A, "n")), mul(fld(A, "nt"), fld(A, "m"))][
                    args[0] is not const(consts(self.F)["PlasmaColumnwise"])]
            return None
        if SYNC.match(name):
            self.seen += 1
            out = ex.opaque(name, args, e, st)
            return [(self.put(self.going(out[0]), (False, st.cs[1], 0)), out[1])]
        if re.match(r"plasma_(p[sdcz]|pdz|psc|pzc|pcl|pds|psd|omp_)", name):
            new = set()
            for i, a in enumerate(args):
                t = self.pointee(name, i)
                if t is not None and self.aux(a):
                    new.add((root(a), a, self.eff.mode(name, i) and "rw", None, w))
            self.seen += 1
            out = ex.opaque(name, args, e, st)
            return [(self.put(self.going(out[0]), (False, st.cs[1] | frozenset(new), 0)), out[1])]
        if self.inline(name) and ex.find(name) is not None:
            return None
        if DIRECT.match(name) and not PUREK.match(name):
            ts = self.eff.ptypes(name) or []
            for i, a in enumerate(args):
                if i < len(ts) and ts[i] == "plasma_desc_t":
                    self.obl(st.cs[0], "host", name, a, w,
                             "%s works on %s directly while tasks may not have finished with it" % (name, show(a)[:60]))
                if self.pointee(name, i) is None or not isinstance(a, Term):
                    continue
                mode = self.eff.mode(name, i)
                self.touch(ex, st, a, mode, w, name)
        return None

    def apart(self, st, a, x, b, y):
        """[a, a+x) and [b, b+y) do not meet"""
        (a, ia), (b, ib) = self.split(a), self.split(b)
        if a is b:
            return False
        oa = a.args[1] if a.op == "padd" else ZERO
        ob = b.args[1] if b.op == "padd" else ZERO
        # parts inside a loop stay within what was registered for their base
        x = self.ext.get(a) if ia is not ZERO else x
        y = self.ext.get(b) if ib is not ZERO else y
        return x is not None and sub(ob, oa) is x or y is not None and sub(oa, ob) is y

    @staticmethod
    def split(p):
        """(address without loop variables, the part with them)"""
        if p.op != "padd":
            return p, ZERO
        base, var = ZERO, ZERO
        for m, c in T._poly(p.args[1]).items():
            t = T._unpoly({m: c})
            if any(z.op == "iv" for z in subterms(t)):
                var = add(var, t)
            else:
                base = add(base, t)
        return (padd(p.args[0], base) if base is not ZERO else p.args[0]), var

    def obl(self, good, kind, what, r, w, msg):
        self.ob(good, kind, "%s:%s:%s" % (self.f["name"], what, show(r)[:40]), w, msg)

    # -- the calling thread ----------------------------------------------
    def touch(self, ex, st, p, mode, w, what):
        """a direct access; matrices need quiet, everything else no pending task"""
        r = root(p)
        if r.op == "call" or r.op not in ("sym", "addr", "load", "ret"):
            self.obl(st.cs[0], "host", what, r, w,
                     "%s accesses a tile directly while tasks may not have finished with it" % what)
            return
        self.var(ex, st, r, mode, w, what)

    def var(self, ex, st, r, mode, w, what):
        hit = [x for x in st.cs[1] if x[0] is r and ("w" in mode or x[2] != "r")]
        if hit or r in {x[0] for x in st.cs[1]} or r.op != "addr":
            self.obl(not hit, "host", what, r, w, hit and
                     "%s %s %s while a task not waited for (%s) %s it" %
                     (what, "writes" if "w" in mode else "reads", show(r), hit[0][4], "reads" if hit[0][2] == "r" else "writes"))

    def loc(self, ex, st, loc, mode, node, what):
        if st.cs[2]:
            return st
        if loc[0] == "mem" and not loc[2]:
            p = loc[1]
            r = root(p)
            if r in (sym("sequence"), sym("request"), sym("plasma")):
                return st
            if r.op == "call":
                if r.args and str(r.args[0]).startswith("plasma_tile_addr"):
                    self.touch(ex, st, p, mode, ex.where(ex.cur()["line"]), what)
                return st
            self.var(ex, st, r, mode, ex.where(ex.cur()["line"]), what)
        elif loc[0] == "loc" and loc[1][0] == "v":
            r = [x for x in st.cs[1] if x[0].op == "addr" and x[0].args[0] == loc[1]]
            hit = [x for x in r if "w" in mode or x[2] != "r"]
            if hit:
                self.obl(False, "host", what, hit[0][0], ex.where(ex.cur()["line"]),
                         "%s of %s while a task not waited for (%s) uses it" % (what, loc[1][3], hit[0][4]))
        return st

    def store(self, ex, st, loc, val, node):
        return self.loc(ex, st, loc, "w", node, "a store")

    def load(self, ex, st, loc, node):
        return self.loc(ex, st, loc, "r", node, "a load")


def run(F):
    rep = Report("C21", RULE)
    for n in sorted(F.funcs):
        f = F.funcs[n]
        if not f["file"].startswith("compute/") or not re.match(r"plasma_(p|omp_)", n) or STATIC.search(n):
            continue
        if not any("plasma_sequence_t" in f["types"][t] for _, _, t in f["params"]):
            continue
        seen = {}

        def ob(good, kind, key, where, msg):
            k = (kind, key)
            if k not in seen or seen[k][0] and not good:
                seen[k] = (good, where, msg)
        cl = C(F, f, ob)
        ex = interp.Exec(F, cl)
        # empty matrices need no order
        cl.pre = {eq(mk("load", sym("sequence"), ("status",)), ZERO)}
        cl.pre |= {lt(ZERO, fld(sym(p), x)) for _, p, t in f["params"] if f["types"][t] == "plasma_desc_t"
                   for x in ("mt", "nt")}
        if n.startswith("plasma_omp_"):
            cl.pre |= {not_(eq(sym(p), ZERO)) for _, p, t in f["params"] if f["types"][t].replace(" ", "") == "int*"}
        ex.run(f)
        if ex.unsupported:
            raise AnalysisBroken("%s: unsupported construct %s" % (n, ex.unsupported[0]))
        rep.ok("routine", "%s (%s)" % (f["file"], n), "%d task creating calls" % cl.seen)
        for (kind, key), (good, where, msg) in seen.items():
            rep.check(good, kind, "C21:%s:%s" % (kind, key), where, msg)
    return finish(rep, {"routine": 400})
