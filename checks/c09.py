"""C09: user matrices are translated in and out exactly as documented."""
import facts, interp
from client import *
from common import *
from predicates import *
from spec_args import spec_of
from spec_io import IO
from c01 import scope, prec_of, routines, E
from blocking import *

RULE = ("typestate of every descriptor on every path of every blocking routine: an input is translated from the "
        "user's array and leading dimension before the computation receives the descriptor; an output is translated "
        "back to it after the last computation and before a return that follows the computation; an array that is "
        "input only is never written; translator and descriptor agree in storage, precision and dimensions")


def suffix(n):
    s = n[len("plasma_"):]
    return s[2:] if s == "dzamax" or s == "scamax" else (s[1:] if s not in ("damax", "samax") else "amax")


def key(n):
    s = suffix(n)
    if s in IO:
        return s
    return None


PREC = {"s": "PlasmaRealFloat", "d": "PlasmaRealDouble", "c": "PlasmaComplexFloat", "z": "PlasmaComplexDouble"}


def run(F):
    rep = Report("C09", RULE)
    C = consts(F)
    for n, f in routines(F):
        k = key(n)
        if k is None:
            if any(x in n for x in ("laneg2", "laebz2", "stevx2", "stein", "gbset")):
                continue
            rep.bad("spec", "C09:%s:nospec" % n, n, "no table of matrix arguments for %s" % n)
            continue
        sp = spec_of(n)
        params = [p[1] for p in f["params"]]
        pmap = dict(zip([a for a, _ in sp], params))
        sc = scope(F, prec_of(n), pmap)
        sc["max"] = lambda a, b: E(T.mnmx("max", a.t, b.t))
        mats = []
        for slot, p, ld, dr, rows, cols in IO[k]:
            ev_ = lambda s: eval(s, {"__builtins__": {}}, sc).t
            mats.append((slot, sym(pmap[p]), sym(pmap[ld]), dr, ev_(rows), ev_(cols), p))
        cl = Blk()
        ex = interp.Exec(F, cl)
        ex.run(f)
        if ex.unsupported:
            raise AnalysisBroken("%s: unsupported construct %s" % (n, ex.unsupported[0]))
        fw = "%s (%s)" % (f["file"], n)
        byp = {m[1]: m for m in mats}
        runs = [e for e in cl.events if e[0] == "run"]
        rep.check(bool(runs), "runs", "C09:%s:norun" % n, fw, "never starts the computation")
        # link descriptors with user arrays
        link = {}
        for kind, st, d, line in cl.events:
            if kind not in ("in", "out"):
                continue
            w = "%s:%d (%s)" % (f["file"], line, n)
            m = byp.get(d["p"])
            K = "C09:%s:%s" % (n, show(d["p"]))
            if not rep.check(m is not None, "array", K + ":array", w,
                             "%s does not start at a documented matrix argument: %s" % (d["name"], show(d["p"]))):
                continue
            b = base_desc(d["d"])
            D = cl.desc.get(b)
            if not rep.check(D is not None, "desc", K + ":desc", w, "%s of something that is not a descriptor" % d["name"]):
                continue
            link.setdefault(m[1], set()).add(b)
            rep.check(d["ld"] is m[2], "ld", K + ":ld:" + kind, w,
                      "translates %s with the leading dimension %s instead of %s" % (m[6], show(d["ld"]), show(m[2])))
            kk = d["kind"]
            rep.check(kk == D.kind or kk == "gb" and D.kind in ("band", "ge"), "storage", K + ":storage:" + kind, w,
                      "translates %s storage with %s" % (D.kind, d["name"]))
            pr = D.args["precision"]
            rep.check(pr is const(C[PREC[d["prec"]]]), "precision", K + ":prec:" + kind, w,
                      "%s on a descriptor of another precision" % d["name"])
            if "uplo" in D.args and D.kind == "tr":
                rep.check(D.args["uplo"] is sym(pmap["uplo"]), "storage", K + ":uplo", w,
                          "the triangular descriptor of %s does not have the caller's uplo" % m[6])
            rep.check(root(d["seq"]).op == "addr" and d["seq"] is not d["req"], "sequence", K + ":seq:" + kind, w,
                      "the translation is not submitted to the routine's sequence")
            # dimensions: equal on every feasible case of the path condition
            for what, got, want, big, off in (("rows", D.args["m"], m[4], D.args["lm"], D.args["i"]),
                                              ("columns", D.args["n"], m[5], D.args["ln"], D.args["j"])):
                pc = pathcond(st)
                good, wit = infeasible(pc, not_(eq(got, want)))
                rep.check(good, "dims", K + ":" + what, D.where,
                          "the descriptor of %s has %s %s, documented %s" % (m[6], show(got), what, show(want)))
                rep.check(off is ZERO, "dims", K + ":off:" + what, D.where, "the descriptor of %s has an offset" % m[6])
                if D.kind != "band" or what == "columns":
                    good, wit = infeasible(pc, lt(big, got))
                    rep.check(good, "dims", K + ":alloc:" + what, D.where,
                              "the descriptor of %s allocates fewer %s than it uses" % (m[6], what))
            if kind == "out":
                rep.check(m[3] != "in", "readonly", K + ":written", w,
                          "writes %s, which is documented as input only" % m[6])
                rep.check(("run",) in st.cs, "order", K + ":early", w,
                          "copies %s back before the computation" % m[6])
            else:
                rep.check(not any(x[0] == "dirty" and x[1] is b for x in st.cs), "order", K + ":late", w,
                          "translates %s again after the computation has started: results are overwritten" % m[6])
        for p, ds in link.items():
            rep.check(len(ds) == 1, "desc", "C09:%s:%s:twodescs" % (n, show(p)), fw,
                      "translates %s through different descriptors" % show(p))
        seen = set()
        for ds in link.values():
            for d in ds:
                rep.check(d not in seen, "desc", "C09:%s:shared" % n, fw, "two user arrays share one descriptor")
                seen.add(d)
        for slot, p, ld, dr, rows, cols, pn in mats:
            K = "C09:%s:%s" % (n, pn)
            ds = link.get(p)
            if not dr.startswith("out"):
                rep.check(any(e[0] == "in" and e[2]["p"] is p for e in cl.events), "input", K + ":in", fw,
                          "never translates the input %s" % pn)
            if not ds:
                if dr == "out":
                    rep.bad("output", K + ":out", fw, "never copies the output %s back" % pn)
                continue
            d = next(iter(ds))
            for kind, st, dd, line in runs:
                used = [a for a in dd["args"] if base_desc(a) is d]
                if not dr.startswith("out") and used:
                    rep.check(any(x[0] == "in" and x[1] is d for x in st.cs), "input", K + ":before", "%s:%d (%s)" %
                              (f["file"], line, n), "computes with %s before it is translated" % pn)
            if dr in ("out", "inout"):
                for st, val, line in cl.rets:
                    if ("run",) not in st.cs:
                        continue
                    failed = infeasible(pathcond(st), TRUE)[0]
                    good = any(x[0] == "out" and x[1] is d for x in st.cs)
                    if not good and val is not None and all(
                            infeasible(and_(pathcond(st), c, eq(leaf, ZERO)))[0] for c, leaf in leaves(val)):
                        good = True       # a failed computation need not deliver its result
                    rep.check(good, "output", K + ":out", "%s:%d (%s)" % (f["file"], line, n),
                              "returns after the computation without copying %s back" % pn)
    return finish(rep, {"input": 400, "output": 250, "dims": 1500, "ld": 500})
