"""C11: options, scalars and matrices reach the tile algorithms unchanged."""
import facts, interp
from client import *
from common import *
from predicates import *
from spec_args import spec_of
from spec_io import IO
from c01 import scope, prec_of, routines, E
from c09 import key
from blocking import *
import compose, tilework

RULE = ("the blocking routine calls the asynchronous routine of the same name exactly once, with its own options and "
        "scalars and with the descriptors of its own matrices in their places; on every path on which the asynchronous "
        "routine computes, the tile algorithms it calls, their order and all their arguments equal the documented "
        "composition under the path condition")

HL = {"zc": ("z", "c"), "ds": ("d", "s")}
REALN = {"hemm": "symm", "unmqr": "ormqr", "unmlq": "ormlq", "ungqr": "orgqr", "unglq": "orglq", "lanhe": "lansy",
         "unmqr_tree": "ormqr_tree", "unmlq_tree": "ormlq_tree", "ungqr_tree": "orgqr_tree", "unglq_tree": "orglq_tree",
         "hetrf_aasen": "sytrf_aasen"}
ALIAS = {"ormqr": "unmqr", "ormlq": "unmlq", "orgqr": "ungqr", "orglq": "unglq", "lag2s": "lag2c", "lag2d": "lag2z"}
MIXEDK = ("cgesv", "cgbsv", "cposv", "sgesv", "sgbsv", "sposv")
ANY = object()


class D(E):
    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        return E(fld(self.t, n))


def okey(n):
    """routine key of a full name plasma_omp_..."""
    b = n[len("plasma_omp_"):]
    if b in ("dzamax", "scamax", "damax", "samax"):
        return "amax", b[:-4][-1] if len(b) == 6 else b[0]
    return b[1:], b[0]


def oscope(F, n, f, tree):
    k, pr = okey(n)
    sc = scope(F, pr, {})
    for p in f["params"]:
        t = f["types"][p[2]].replace("struct ", "")
        sc[p[1]] = D(sym(p[1])) if t == "plasma_desc_t" else E(sym(p[1]))
    sc["T"] = sc.get("T", E(TRUE))
    sc["TREE"] = E(tree)
    sc["ANY"] = ANY
    sc["view"] = lambda a, *r: E(mk("call", "plasma_desc_view", a.t, *[x.t if isinstance(x, E) else const(x) for x in r]))
    return sc


class Calls(dict):
    """evaluates a composition string: unknown names are tile algorithms"""
    def __init__(self, sc, name):
        dict.__init__(self, sc)
        self.name = name

    def __missing__(self, k):
        return lambda *a: (self.name(k), [x if x is ANY else (x.t if isinstance(x, E) else const(x)) for x in a])


def namer(prec, hi=None, lo=None):
    def f(k):
        if hi:
            if k == "RHamax":
                return "plasma_pdzamax" if hi == "z" else "plasma_pdamax"
            p = hi if k[0] == "H" else lo
            k = k[1:].replace("lagZL", "lag2" + lo).replace("lagZH", "lag2" + hi)
        else:
            p = prec
        if p in ("s", "d"):
            k = REALN.get(k, k)
        return "plasma_p%s%s" % (p, k)
    return f


def same(a, b, real=False):
    """condition under which two argument terms are equal"""
    if a is b or b is ANY:
        return TRUE
    if a.op == "call" and b.op == "call" and a.args[0] == b.args[0] == "plasma_desc_view":
        return and_(*[same(x, y) for x, y in zip(a.args[1:], b.args[1:])])
    if a.op == "call" and a.args[0] == "plasma_desc_view" or b.op == "call" and b.args[0] == "plasma_desc_view":
        return FALSE
    r = eq(a, b)
    if real and all(is_const(x) for _, x in leaves(b)):
        # for real matrices Trans and ConjTrans are the same
        tc = lambda x: or_(eq(x, const(112)), eq(x, const(113)))
        r = or_(r, and_(tc(a), tc(b)))
    return r


def matches(seq, want, real=False):
    """condition under which the calls made are the calls wanted"""
    if [s[0] for s in seq] != [w[0] for w in want]:
        return FALSE
    cs = []
    for (n, args), (_, wargs) in zip(seq, want):
        if len(args) != len(wargs) + 2:
            return FALSE
        cs += [same(a, b, real) for a, b in zip(args, wargs)]
    return and_(*cs)


class Tr(Base):
    """cs: (failed, (calls...)), a call being (name, args)"""
    def __init__(self):
        self.rets = []

    def init(self):
        return (False, ())

    def call(self, ex, st, name, args, e):
        if name == "plasma_request_fail":
            return [(interp.State(st.env, st.heap, st.pc, (True, st.cs[1])), args[2])]
        if (name.startswith("plasma_p") or name.startswith("plasma_omp_")) and name in KNOWN:
            s, v = ex.opaque(name, args, e, st)
            item = (name, tuple(args))
            return [(interp.State(s.env, s.heap, s.pc, (s.cs[0], s.cs[1] + (item,))), v)]
        return None

    def ret(self, ex, st, val, line):
        self.rets.append((st, line))


class Set(Tr):
    """for routines with loops over calls: a call that occurred is not repeated"""
    def call(self, ex, st, name, args, e):
        r = Tr.call(self, ex, st, name, args, e)
        if r is not None:
            out = []
            for s, v in r:
                c = s.cs[1]
                if len(c) > len(st.cs[1]) and c[-1] in st.cs[1]:
                    s = interp.State(s.env, s.heap, s.pc, (s.cs[0], st.cs[1]))
                out.append((s, v))
            return out
        return None


def householder(pc):
    for t in subterms(pc):
        if t.op == "load" and t.args[1] == ("householder_mode",):
            return t
    return None


def asynchronous(F, rep):
    C = consts(F)
    for n in sorted(F.funcs):
        f = F.funcs[n]
        if not (n.startswith("plasma_omp_") and f["file"].startswith("compute/")):
            continue
        k, pr = okey(n)
        if k in ("gesdd",):
            continue
        fw = "%s (%s)" % (f["file"], n)
        mixed = k in MIXEDK
        cl = Set() if mixed else Tr()
        ex = interp.Exec(F, cl)
        ex.run(f)
        if ex.unsupported:
            raise AnalysisBroken("%s: unsupported construct %s" % (n, ex.unsupported[0]))
        params = [p[1] for p in f["params"]]
        sq = [sym(params[-2]), sym(params[-1])]
        any_ = False
        for st, line in cl.rets:
            failed, seq = st.cs
            if not seq:
                continue
            any_ = True
            w = "%s:%d (%s)" % (f["file"], line, n)
            pc = pathcond(st)
            for name, args in seq:
                good = len(args) >= 2 and args[-2] is sq[0] and args[-1] is sq[1]
                rep.check(good, "sequence", "C11:%s:%s:sequence" % (n, name), w,
                          "%s is not given the caller's sequence and request" % name)
            h = householder(pc)
            tree = eq(h, const(C["PlasmaTreeHouseholder"])) if h is not None else sym("TREE")
            sc = oscope(F, n, f, tree)
            if mixed:
                mixed_rows(rep, n, k, pr, sc, seq, pc, w, f)
                continue
            ka = ALIAS.get(k, k)
            rows = compose.ROWS.get(k, compose.ROWS.get(ka))
            if rows is None:
                rows = (("T", ["%s(%s)" % (k if k != "amax" else "AMAX", ", ".join(params[:-2]))]),)
            nm = namer(pr)
            if k == "amax":
                nm = lambda q: "plasma_p" + n[len("plasma_omp_"):]
            sc2 = Calls(sc, nm)
            for i, row in enumerate(rows):
                cond = eval(row[0], {"__builtins__": {}}, sc2).t
                good, wit = False, None
                alts = [[eval(c, {"__builtins__": {}}, sc2) for c in alt] for alt in row[1:]]
                m = or_(*[matches(seq, a, pr in REAL) for a in alts])
                good, wit = infeasible(and_(pc, cond), not_(m))
                # name the first call that differs
                msg = "computes %s instead of %s" % (describe(seq), " or ".join(describe(a) for a in alts))
                rep.check(good, "composition", "C11:%s:row%d" % (n, i), w,
                          "%s (when %s)%s" % (msg, row[0], ": " + show_row(wit) if wit else ""))
        rep.check(any_, "composition", "C11:%s:none" % n, fw, "never calls a tile algorithm")


def describe(seq):
    return "; ".join("%s(%s)" % (n.replace("plasma_p", ""), ", ".join("_" if a is ANY else show(a)[:40] for a in
                                                                 (args[:-2] if isinstance(args, tuple) else args)))
                     for n, args in seq)


def mixed_rows(rep, n, k, pr, sc, seq, pc, w, f):
    hi, lo = ("z", "c") if n[len("plasma_omp_")] == "z" else ("d", "s")
    sc2 = Calls(sc, namer(None, hi, lo))
    pre, it, full = [[eval(c, {"__builtins__": {}}, sc2) for c in x] for x in compose.MIXED[k[1:]]]
    # repeated calls are recorded once
    it = [c for c in it if not any(c[0] == p[0] and all(a is b for a, b in zip(c[1], p[1])) for p in pre)]
    conds = []
    for alt in (pre, pre + it, pre + full, pre + it + full):
        conds.append(matches(seq, alt, hi == "d"))
    good, wit = infeasible(pc, not_(or_(*conds)))
    rep.check(good, "refinement", "C11:%s:refine" % n, w,
              "computes %s, which is neither the iterative refinement nor the full precision solution" % describe(seq))


def blocking(F, rep):
    for n, f in routines(F):
        k = key(n)
        if k is None:
            continue
        sp = spec_of(n)
        params = [p[1] for p in f["params"]]
        pmap = dict(zip([a for a, _ in sp], params))
        on = "plasma_omp_" + n[len("plasma_"):]
        of = F.funcs.get(on)
        fw = "%s (%s)" % (f["file"], n)
        if of is None:
            rep.bad("delegates", "C11:%s:omp" % n, fw, "there is no " + on)
            continue
        oparams = [p[1] for p in of["params"]]
        optypes = [of["types"][p[2]].replace("struct ", "") for p in of["params"]]
        byproduct = {slot for slot, p, ld, dr, rows, cols in IO[k] if dr == "out?"}
        slots = {slot: sym(pmap[p]) for slot, p, ld, dr, rows, cols in IO[k]}
        cl = Blk()
        ex = interp.Exec(F, cl)
        ex.run(f)
        link = {}
        for kind, st, d, line in cl.events:
            if kind in ("in", "out"):
                link.setdefault(d["p"], set()).add(base_desc(d["d"]))
        runs = [e for e in cl.events if e[0] == "run"]
        rep.check(bool(runs), "delegates", "C11:%s:none" % n, fw, "never calls " + on)
        for kind, st, d, line in runs:
            w = "%s:%d (%s)" % (f["file"], line, n)
            if not rep.check(d["name"] == on, "delegates", "C11:%s:name" % n, w,
                             "calls %s instead of %s" % (d["name"], on)):
                continue
            rep.check(("run",) not in st.cs, "delegates", "C11:%s:twice" % n, w, "computes twice")
            pc = pathcond(st)
            for q, ty, a in zip(oparams, optypes, d["args"]):
                K = "C11:%s:arg:%s" % (n, q)
                sl = {"AB": "A"}.get(q, q) if q not in slots and ty == "plasma_desc_t" else q
                if ty == "plasma_desc_t" and sl in slots:
                    good = base_desc(a) in link.get(slots[sl], ()) or slots[sl] not in link and sl in byproduct \
                        and base_desc(a) in cl.desc
                    rep.check(good, "matrix", K, w, "argument %s is not the descriptor of %s" % (q, show(slots[sl])))
                elif q in params or q in pmap:
                    p = sym(pmap.get(q, q))
                    if q == "T" and ty == "plasma_desc_t":
                        good = a is p or a is mk("load", p, ()) or base_desc(a).op in ("descT", "clob", "phi")
                    else:
                        good = a is p or infeasible(pc, not_(eq(a, p)))[0]
                    rep.check(good, "argument", K, w, "argument %s is %s instead of the caller's %s" %
                              (q, show(a)[:80], q))


def run(F):
    rep = Report("C11", RULE)
    asynchronous(F, rep)
    blocking(F, rep)
    for n, f, short in tilework.algorithms(F):
        if short in tilework.SKIP:
            continue
        bad = tilework.nothing(F, f, short)
        rep.check(not bad, "handles", "C11:%s:nothing" % n, "%s (%s)" % (f["file"], n),
                  bad and "line %d: submits no work although operands and options are legal (%s)" % bad[0])
    return finish(rep, {"sequence": 900, "composition": 800, "refinement": 24, "delegates": 700, "argument": 550, "matrix": 480, "handles": 150})
