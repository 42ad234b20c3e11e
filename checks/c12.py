"""C12: quick returns skip only work that changes nothing."""
import facts, interp
from client import *
from common import *
from predicates import *
from spec_args import spec_of
from c01 import scope, prec_of, routines, E
from c09 import key
from c11 import Tr, Set, okey, oscope, ALIAS
from blocking import *
import compose, tilework

RULE = ("on every path of a blocking or asynchronous routine that returns success without having started a computation "
        "(no tile algorithm or asynchronous routine called), the path condition excludes the documented conditions "
        "under which the routine has something to compute; a norm returned early is zero")


class Zero(Blk):
    def __init__(self):
        Blk.__init__(self)
        self.stores, self.sets = [], []

    def store(self, ex, st, loc, val, node):
        if loc[0] == "mem":
            self.stores.append((st, loc[1], val))
        return st

    def other(self, ex, st, name, args, e, line):
        if "laset" in name:
            self.sets.append((st, name, args))
        return Blk.other(self, ex, st, name, args, e, line)


def must_of(table, k):
    return table.get(k, table.get(ALIAS.get(k, k)))


def run(F):
    rep = Report("C12", RULE)
    rep.assumptions = ["a solver called with no right-hand sides has nothing to compute"]
    for n, f in routines(F):
        k = key(n)
        if k is None:
            continue
        m = must_of(compose.MUST, k)
        fw = "%s (%s)" % (f["file"], n)
        if m is None:
            rep.bad("spec", "C12:%s:nospec" % n, fw, "no table of quick returns for " + n)
            continue
        sp = spec_of(n)
        params = [p[1] for p in f["params"]]
        sc = scope(F, prec_of(n), dict(zip([a for a, _ in sp], params)))
        cond = eval(m, {"__builtins__": {}}, sc).t
        cl = Zero()
        ex = interp.Exec(F, cl)
        ex.run(f)
        if ex.unsupported:
            raise AnalysisBroken("%s: unsupported construct %s" % (n, ex.unsupported[0]))
        isnorm = k.startswith("lan") or n.endswith("amax") and False
        for st, val, line in cl.rets:
            if ("run",) in st.cs or val is None:
                continue
            w = "%s:%d (%s)" % (f["file"], line, n)
            pc = pathcond(st)
            # pointers the caller must provide (an illegal pointer is refused with a code)
            good, wit = infeasible(and_(pc, cond, eq(val, ZERO)), TRUE)
            rep.check(good, "blocking", "C12:%s:skips" % n, w, "returns success without computing although there is "
                      "something to compute (%s)" % (show_row(wit) if wit else ""))
            for c, leaf in leaves(val):
                if infeasible(and_(pc, c), TRUE)[0]:
                    continue
                if isnorm:
                    good = infeasible(and_(pc, c), not_(le(leaf, ZERO)))[0] or leaf.op in ("err", "out")
                    rep.check(good, "norm", "C12:%s:norm" % n, w, "returns %s for an empty matrix" % show(leaf))
        if k == "gels":
            # the solution of an empty problem is zero
            c2 = and_(lt(ZERO, sym("nrhs")), or_(and_(eq(sym("m"), ZERO), lt(ZERO, sym("n"))),
                                                 and_(eq(sym("n"), ZERO), lt(ZERO, sym("m")))))
            good = False
            for st, p, val in cl.stores:
                ivs = [t for t in subterms(p) if t.op == "iv"]
                if root(p) is not sym("pB") or val is not ZERO or len(ivs) != 2:
                    continue
                pc = st.pc
                own = [c for c in pc if any(i in list(subterms(c)) for i in ivs)]
                rest = and_(*[c for c in pc if c not in own])
                for i, j in (ivs, ivs[::-1]):
                    at = padd(sym("pB"), add(mul(j, sym("ldb")), i))
                    if at is not p or infeasible(and_(rest, c2), TRUE)[0]:
                        continue
                    dom = and_(le(ZERO, i), lt(i, T.mnmx("max", sym("m"), sym("n"))), le(ZERO, j), lt(j, sym("nrhs")))
                    starts = all(ex.loops.get(t.uid, {}).get("init") is ZERO for t in ivs)
                    good = good or starts and infeasible(and_(rest, c2, dom), not_(and_(*own)))[0]
            for st, name, args in cl.sets:
                good = good or sym("pB") in args and not infeasible(and_(pathcond(st), c2), TRUE)[0]
            rep.check(good, "set", "C12:%s:zero" % n, fw, "returns without setting the solution of an empty problem to zero")
    for n in sorted(F.funcs):
        f = F.funcs[n]
        if not (n.startswith("plasma_omp_") and f["file"].startswith("compute/")):
            continue
        k, pr = okey(n)
        m = must_of(compose.OMUST, k)
        fw = "%s (%s)" % (f["file"], n)
        if m is None:
            rep.bad("spec", "C12:%s:nospec" % n, fw, "no table of quick returns for " + n)
            continue
        sc = oscope(F, n, f, FALSE)
        sc.setdefault("A", sc.get("AB"))
        cond = eval(m, {"__builtins__": {}}, sc).t
        cl = Set()
        ex = interp.Exec(F, cl)
        ex.run(f)
        given = []
        for p in f["params"]:
            if f["types"][p[2]].endswith("*"):
                given.append(not_(eq(sym(p[1]), ZERO)))
        for st, line in cl.rets:
            if st.cs[0] or st.cs[1]:
                continue
            w = "%s:%d (%s)" % (f["file"], line, n)
            pc = and_(pathcond(st), *given)
            good, wit = infeasible(pc, cond)
            rep.check(good, "asynchronous", "C12:%s:skips" % n, w, "returns without computing although there is "
                      "something to compute (%s)" % (show_row(wit) if wit else ""))
            if k.startswith("lan") and not infeasible(pc, TRUE)[0]:
                v = st.heap.get((sym("value"), ()))
                rep.check(v is ZERO, "norm", "C12:%s:norm" % n, w, "leaves the norm of an empty matrix unset")
    for n, f, short in tilework.algorithms(F):
        if short in tilework.RANKK:
            bad = tilework.nothing(F, f, short, True)
            rep.check(not bad, "scales", "C12:%s:scale" % n, "%s (%s)" % (f["file"], n),
                      bad and "line %d: leaves C unscaled (%s)" % bad[0])
    return finish(rep, {"blocking": 1500, "set": 4, "norm": 120, "asynchronous": 180, "scales": 16})
