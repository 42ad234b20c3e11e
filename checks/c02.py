"""C02: asynchronous routines turn invalid arguments into a failed sequence."""
import facts, interp
from client import *
from common import *
from predicates import *
from spec_args import spec_of
from c01 import scope, prec_of

RULE = ("for every plasma_omp_ routine and every abstract path: a call that does work implies that the library is "
        "initialised, sequence and request are given, every descriptor passed the check and every option is legal; "
        "every path that returns without failing the sequence implies the same; a failure recorded before any work "
        "implies that something is invalid")


class Async(Base):
    def __init__(self, seq, req):
        self.seq, self.req = seq, req
        self.work, self.fails, self.derefs, self.bad = [], [], [], []

    def init(self):
        return "start"

    def call(self, ex, st, name, args, node):
        if name in ERRFN or name in interp.PURE or name in ("plasma_context_self", "printf", "fprintf") \
                or name.startswith("__builtin"):
            return None
        line = node[4] if len(node) > 4 else 0
        if name == "plasma_request_fail":
            if st.cs == "start":
                self.fails.append((pathcond(st), line, args))
            st = interp.State(st.env, st.heap, st.pc, "failed" if st.cs != "work" else "work")
            return [(st, args[2] if len(args) > 2 else ZERO)]
        if self.inline(name) and ex.find(name) is not None:
            return None
        if st.cs == "failed":
            self.bad.append((name, line))
        if st.cs == "start":
            self.work.append((pathcond(st), name, line))
            st = interp.State(st.env, st.heap, st.pc, "work")
        return [ex.opaque(name, args, node, st)]

    def deref(self, ex, st, loc, node):
        if loc[0] == "mem":
            r = root(loc[1])
            if r is self.seq or r is self.req:
                self.derefs.append((pathcond(st), r))

    def load(self, ex, st, loc, node):
        self.deref(ex, st, loc, node)
        return st

    def store(self, ex, st, loc, val, node):
        self.deref(ex, st, loc, node)
        if loc[0] == "mem" and st.cs == "start":
            r = root(loc[1])
            if r.op != "sym":
                self.work.append((pathcond(st), "a store through " + show(r), 0))
                st = interp.State(st.env, st.heap, st.pc, "work")
        return st


def run(F):
    rep = Report("C02", RULE)
    rep.assumptions = ["a descriptor is invalid when plasma_desc_check rejects it (the check itself is the subject of "
                       "another property)"]
    for n in sorted(F.funcs):
        f = F.funcs[n]
        if not (n.startswith("plasma_omp_") and f["file"].startswith("compute/")):
            continue
        names = [p[1] for p in f["params"]]
        tys = [f["types"][p[2]] for p in f["params"]]
        seqs = [a for a, t in zip(names, tys) if "plasma_sequence_t" in t]
        reqs = [a for a, t in zip(names, tys) if "plasma_request_t" in t]
        if len(seqs) != 1 or len(reqs) != 1:
            raise AnalysisBroken("%s: no sequence or request parameter" % n)
        seq, req = sym(seqs[0]), sym(reqs[0])
        where = "%s (%s)" % (f["file"], n)
        req_ok = []
        for a, t in zip(names, tys):
            if t.replace("struct ", "") == "plasma_desc_t":
                req_ok.append((a, "an invalid descriptor " + a, eq(mk("call", "plasma_desc_check", sym(a)), ZERO)))
        blocking = "plasma_" + n[len("plasma_omp_"):]
        sp = spec_of(blocking)
        if sp:
            sc = scope(F, prec_of(blocking), {a: a for a in names})
            for a, cond in sp:
                if a in names and cond and (cond.startswith("one(")):
                    try:
                        req_ok.append((a, "an illegal value of " + a, eval(cond, {"__builtins__": {}}, sc).t))
                    except NameError:
                        pass
        cl = Async(seq, req)
        ex = interp.Exec(F, cl)
        rets = ex.run(f)
        if ex.unsupported:
            raise AnalysisBroken("%s: unsupported construct %s" % (n, ex.unsupported[0]))
        ctx = not_(eq(mk("ret", "plasma_context_self", "%s#0" % n), ZERO))
        given = [("sequence", "a NULL sequence", not_(eq(seq, ZERO))), ("request", "a NULL request", not_(eq(req, ZERO)))]
        # the context test may have any call ordinal: look for it in the path conditions
        for pc, what, line in cl.work:
            has = any(t.op == "ret" and t.args[0] == "plasma_context_self" for t in subterms(pc))
            ctxs = [t for t in subterms(pc) if t.op == "ret" and t.args[0] == "plasma_context_self"]
            good = any(infeasible(pc, eq(t, ZERO))[0] for t in ctxs)
            rep.check(good, "initialised", "C02:%s:context" % n, where,
                      "calls %s (line %d) without having established that the library is initialised" % (what, line))
        quiet = []
        for s, v, line in rets:
            if s.cs == "start":
                quiet.append((pathcond(s), "returns without failing the sequence", line))
        for a, what, L in req_ok + given:
            bad = None
            for pc, w, line in cl.work:
                good, wit = infeasible(pc, not_(L))
                if not good:
                    bad = ("calls %s (line %d)" % (w, line), wit)
                    break
            if bad is None and (a, what, L) not in given:
                for pc, w, line in quiet:
                    good, wit = infeasible(and_(pc, *[g[2] for g in given]), not_(L))
                    if not good:
                        bad = (w + " (line %d)" % line, wit)
                        break
            rep.check(bad is None, "rejected", "C02:%s:%s" % (n, a), where,
                      bad and "%s with %s: %s" % (bad[0], what, show_row(bad[1])), what + " is rejected before any work")
        # a user array passed by address may also be refused when it is NULL
        ptrs = [not_(eq(sym(a), ZERO)) for a, t in zip(names, tys) if t.endswith("*")]
        legal = and_(*([L for _, _, L in req_ok + given] + ptrs))
        fps = sp and any(c and c.startswith("fp(") for _, c in sp)
        for pc, line, args in cl.fails:
            w = "%s:%d (%s)" % (f["file"], line, n)
            ctxs = [t for t in subterms(pc) if t.op == "ret" and t.args[0] == "plasma_context_self"]
            good, wit = infeasible(and_(pc, *[not_(eq(t, ZERO)) for t in ctxs]), legal)
            if not good and fps and any(x.op in ("call", "ret") and "isnan" in str(x.args[0]) or x is sym("cfrom")
                                        for x in subterms(pc)):
                good = True
            rep.check(good, "justified", "C02:%s:fail" % n, w,
                      "fails the sequence although nothing is invalid: %s" % (show_row(wit) if wit else ""))
            rep.check(args[0] is seq and args[1] is req, "recorded", "C02:%s:fail-args" % n, w,
                      "the failure is not recorded in the caller's sequence and request")
            rep.check(not (is_const(args[2]) and args[2].args[0] == 0), "recorded", "C02:%s:fail-code" % n, w,
                      "the failure is recorded with the success code")
        for name, line in cl.bad:
            rep.bad("recorded", "C02:%s:after-fail" % n, "%s:%d (%s)" % (f["file"], line, n),
                    "calls %s after failing the sequence" % name)
        for pc, r in cl.derefs:
            good, wit = infeasible(pc, eq(r, ZERO))
            rep.check(good, "deref", "C02:%s:deref" % n, where, "dereferences %s before testing it" % show(r))
    # the recording function itself
    f = F.funcs.get("plasma_request_fail")
    if f is None:
        raise AnalysisBroken("plasma_request_fail is gone")
    names = [p[1] for p in f["params"]]
    a0, a1, a2 = [sym(x) for x in names]

    class Rec(Base):
        """cs: the set of objects whose status now holds the given code"""
        def __init__(self):
            self.unsafe = []

        def init(self):
            return frozenset()

        def load(self, ex, st, loc, node):
            if loc[0] == "mem" and loc[1] in (a0, a1):
                if not infeasible(pathcond(st), eq(loc[1], ZERO))[0]:
                    self.unsafe.append(loc)
            return st

        def store(self, ex, st, loc, val, node):
            self.load(ex, st, loc, node)
            if loc[0] == "mem" and loc[1] in (a0, a1) and loc[2] == ("status",):
                cs = (st.cs | {loc[1]}) if val is a2 else (st.cs - {loc[1]})
                st = interp.State(st.env, st.heap, st.pc, cs)
            return st
    cl = Rec()
    rets = interp.Exec(F, cl).run(f)
    rep.check(not cl.unsafe, "recorder", "C02:plasma_request_fail:null", f["file"] + " (plasma_request_fail)",
              "dereferences a NULL sequence or request")
    for s, v, line in rets:
        for a in (a0, a1):
            good = a in s.cs or infeasible(pathcond(s), not_(eq(a, ZERO)))[0]
            rep.check(good, "recorder", "C02:plasma_request_fail:status", f["file"] + " (plasma_request_fail)",
                      "does not set the status of %s to the given code" % show(a))
    return finish(rep, {"initialised": 250, "rejected": 1200, "justified": 1200, "recorded": 2400, "recorder": 2})
