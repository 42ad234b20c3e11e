"""C06: task dependences cover every tile a task reads or writes.

 wrappers  every kernel wrapper's task: what it hands to its kernel is declared
           at exactly the address the caller passed (other tasks name the same
           address), as out or inout when the kernel may write it
 inline    tasks written out inside tile algorithms: every tile, tile column
           and pivot vector they access is declared on the same tile column,
           written ones as out or inout, and the declared tiles are those the
           neighbouring steps of the algorithm declare as well
 bridges   where a task accesses a whole column of tiles but declares only some
           of them, dummy tasks tie every other tile of the column to the
           declared one"""
import re

import facts, interp
from client import *
from common import *
from predicates import *
from c10 import TILE, VIEW, callis, kernel, combos
import dataflow

RULE = ("each pointer a task body may read or write appears in its depend clauses at the identical address, with mode "
        "out/inout if the body (transitively) may write through it; columns accessed through views are declared by the "
        "tiles that order the neighbouring steps, and bridged to their other tiles")

SCRATCH = re.compile(r"plasma_core_omp_[sdcz]lan(ge|he|sy|tr)$")
DATA = ("_Complex", "double", "float", "int")
SKIPTY = ("plasma_sequence_t", "plasma_request_t", "plasma_workspace_t", "plasma_barrier_t", "plasma_context_t")


def ptrparam(f, t):
    ty = f["types"][t]
    return "*" in ty and not any(s in ty for s in SKIPTY) and not ty.strip().endswith("void *")


class Task:
    def __init__(self, fn, line, deps, shared):
        self.fn, self.line, self.deps, self.shared = fn, line, deps, shared
        self.acc = []         # (pointer term, mode, what, where, pc)
        self.kernels = []
        self.parent = None
        self.pc = None


class C(Base):
    """collects the tasks of a function with their accesses"""

    def __init__(self, F):
        self.F = F
        self.tasks = {}
        self.eff = dataflow.Effects(F)
        self.pend = []        # wrapper calls outside tasks

    def init(self):
        return ()

    def deps(self, clauses):
        out = []
        for c in clauses:
            if c[0] == "depend":
                for loc, x in c[2]:
                    out.append((c[1], loc))
        return out

    def task_begin(self, ex, st, kind, clauses, node):
        d = self.deps(clauses)
        sh = [v for c in clauses if c[0] == "shared" for v in c[2]]
        key = (ex.fn["name"], node[4], tuple((m, str(l)) for m, l in d), st.cs)
        t = self.tasks.get(key)
        if t is None:
            t = self.tasks[key] = Task(ex.fn["name"], node[4], d, sh)
            t.parent = self.tasks.get(st.cs[-1]) if st.cs else None
            t.pc = pathcond(st)
            t.where = ex.where(node[4])
        return interp.State(st.env, st.heap, st.pc, st.cs + (key,))

    def task_end(self, ex, before, states, kind, clauses, node):
        return before

    def cur(self, st):
        t = self.tasks[st.cs[-1]]
        while t.parent is not None:
            t = t.parent
        return t

    def access(self, ex, st, p, mode, what, line):
        if st.cs:
            self.cur(st).acc.append((p, mode, what, ex.where(line), st))

    def call(self, ex, st, name, args, e):
        line = e[4]
        if self.inline(name) and ex.find(name) is not None:
            return None
        if st.cs:
            self.cur(st).kernels.append((name, args, st, ex.where(line)))
        for i, a in enumerate(args):
            mode = self.eff.mode(name, i)
            if mode and isinstance(a, Term):
                self.access(ex, st, a, mode, name, line)
        return None

    def store(self, ex, st, loc, val, node):
        if loc[0] == "mem":
            self.access(ex, st, loc[1], "w", "a store", ex.cur()["line"])
        return st

    def load(self, ex, st, loc, node):
        if loc[0] == "mem":
            self.access(ex, st, loc[1], "r", "a load", ex.cur()["line"])
        return st


def addrterm(loc):
    """the address a depend item names, as the pointer term it starts at"""
    return loc


def wrappers(F, rep):
    for n in sorted(F.funcs):
        f = F.funcs[n]
        if not n.startswith("plasma_core_omp_") or n == "plasma_core_omp_dummy":
            continue
        cl = C(F)
        ex = interp.Exec(F, cl)
        ex.run(f)
        if ex.unsupported:
            raise AnalysisBroken("%s: unsupported construct %s" % (n, ex.unsupported[0]))
        params = {sym(p): p for _, p, t in f["params"] if ptrparam(f, t)}
        for t in cl.tasks.values():
            if t.parent is not None:
                continue
            dep = {}
            for m, a in t.deps:
                dep.setdefault(a, set()).add(m)
            need = {}
            for p, mode, what, where, st in t.acc:
                r = root(p)
                if r in params:
                    need.setdefault(r, set()).update(mode)
            for p, mode in sorted(need.items(), key=lambda x: params[x[0]]):
                got = dep.get(p, set())
                name = params[p]
                if not got and name == "work" and SCRATCH.match(n):
                    # scratch within one norm; C21 decides who may reuse it
                    rep.ok("scratch", t.where)
                    continue
                rep.check(bool(got), "declared", "C06:%s:%s:undeclared" % (n, name), t.where,
                          "the task %s %s but no depend clause names its first element" %
                          ("writes" if "w" in mode else "reads", name))
                if got and "w" in mode:
                    rep.check(bool(got & {"out", "inout"}), "written", "C06:%s:%s:in" % (n, name), t.where,
                              "the task writes %s, which it declares as in only" % name)


INLINE = ("getrf", "gbtrf", "geswp", "hetrf_aasen", "sytrf_aasen")
SWAP = ("geswp", "heswp", "syswp")


class N:
    """square tiles; descriptors changed in fields other than their geometry"""

    def __init__(self):
        self.memo = {}

    def __call__(self, t):
        m = {}
        for x in subterms(t):
            if x.op == "fld" and x.args[1] in ("mb", "nb"):
                m[x.uid] = NB
        return subst(t, m, self.memo) if m else t


def quot(t):
    """t / NB when exact"""
    q = subst(t, {NB.uid: ONE})
    for c in (q,):
        if mul(c, NB) is t:
            return c
    # coefficients may hide in sums of several monomials: NB -> 1 is exact only then
    return None


def strip(d):
    while isinstance(d, Term) and d.op == "upd":
        d = d.args[0]
    return d


def tile(n, p):
    off = ZERO
    if p.op == "padd":
        p, off = p.args
    if callis(p, TILE):
        return n(strip(p.args[1])), n(p.args[2]), n(p.args[3]), off
    return None


def tok(d, r, c):
    return (d, r, c, ZERO)


class Inline:
    """the tasks of one tile algorithm for one combination of options"""

    def __init__(self, F, f, short, args, o, rec):
        self.F, self.f, self.short, self.o, self.rec = F, f, short, o, rec
        self.n = N()
        self.cl = C(F)
        ex = interp.Exec(F, self.cl)
        ex.run(f, args)
        if ex.unsupported:
            raise AnalysisBroken("%s: unsupported construct %s" % (f["name"], ex.unsupported[0]))
        self.A = sym("A")
        self.mt, self.nt = fld(self.A, "mt"), fld(self.A, "nt")
        self.last = sub(self.mt, ONE)
        self.tasks = [t for t in self.cl.tasks.values() if t.parent is None]
        for t in self.tasks:
            t.tok = []
            for m, a in t.deps:
                k = tile(self.n, a)
                t.tok.append((m, k if k else self.n(a)))
            t.names = {kernel(x[0]) for x in t.kernels if kernel(x[0])}
            t.dummy = not t.names and not [a for a in t.acc if root(a[0]).op == "sym" and tile(self.n, a[0]) is None
                                           and root(a[0]) is not sym("sequence")]
            outer = {x for x in subterms(t.pc) if x.op == "iv"} | {x for _, a in t.deps for x in subterms(a) if x.op == "iv"}
            t.inner = lambda iv, o=outer: iv.op == "iv" and iv not in o

    # -- every access is declared on its own tile, or for inner loops on its column
    def coverage(self):
        for t in self.tasks:
            for p, mode, what, where, st in t.acc:
                r = root(p)
                k = tile(self.n, p)
                if k is None and (r.op != "sym" or r is sym("sequence") or r is sym("request")):
                    continue
                w = "w" in mode
                if k is not None:
                    inner = mentions(k[1], t.inner) or mentions(k[2], t.inner)
                    hit = [m for m, d in t.tok if isinstance(d, tuple) and d[0] is k[0] and d[2] is k[2] and
                           (d[1] is k[1] or inner)]
                    what2 = "tile (%s, %s) of %s" % (show(k[1])[:30], show(k[2])[:30], show(k[0])[:20])
                else:
                    hit = [m for m, d in t.tok if not isinstance(d, tuple) and root(d) is r]
                    what2 = show(r)
                good = bool(hit) and (not w or any(m in ("out", "inout") for m in hit))
                self.rec(good, "inline", "%s:%s" % (what, what2), where,
                         "the task %s %s through %s, which is not declared%s" %
                         ("writes" if w else "reads", what2, what, " as out or inout" if hit else ""))

    def want(self, t, role, reqs):
        for w, k, txt in reqs:
            hit = [m for m, d in t.tok if d == k or not isinstance(k, tuple) and d is k]
            good = bool(hit) and (not w or any(m in ("out", "inout") for m in hit))
            self.rec(good, "order", "%s:%s" % (role, txt), t.where,
                     "the %s task must declare %s%s, which orders it with the neighbouring steps" %
                     (role, txt, " as out or inout" if w else ""))

    def one(self, t, name):
        return [(self.args(a), st) for x, a, st, wh in t.kernels if kernel(x) == name]

    def args(self, a):
        return [self.n(x) if isinstance(x, Term) else x for x in a]

    def view(self, d):
        """(tile row, tile column) at which a view starts"""
        d = strip(d)
        if callis(d, VIEW):
            return quot(d.args[2]), quot(d.args[3])
        return ZERO, ZERO

    def roles(self):
        A, last, ip = self.A, self.last, sym("ipiv")
        s = "hetrf_aasen" if self.short.endswith("aasen") else self.short
        for t in self.tasks:
            ks = t.names
            if "getrf" in ks:
                a = self.one(t, "getrf")[0][0]
                r, c = self.view(a[0])
                if s == "gbtrf":
                    r = c
                if r is None or c is None:
                    raise AnalysisBroken("%s: panel at %s" % (self.f["name"], show(a[0])))
                req = [(True, tok(A, r, c), "the first tile of the panel"),
                       (True, padd(ip, mul(r, NB)), "its part of ipiv")]
                if s != "gbtrf":
                    req.append((True, tok(A, last, c), "the last tile of the panel"))
                self.want(t, "panel", req)
            elif "geswp" in ks and "gemm" in ks:
                sw, tr = self.one(t, "geswp")[0][0], self.one(t, "trsm")[0][0]
                n = self.view(sw[1])[1]
                k = tile(self.n, tr[7])[2]
                req = [(False, tok(A, k, k), "the first tile of the panel"),
                       (False, padd(ip, mul(k, NB)), "the pivots of the panel"),
                       (True, tok(A, k, n), "the first tile of the column"),
                       (True, tok(A, add(k, ONE), n), "the second tile of the column")]
                if s != "gbtrf":
                    req += [(True, tok(A, last, n), "the last tile of the column"),
                            (False, tok(A, last, k), "the last tile of the panel")]
                self.want(t, "update", req)
            elif "geswp" in ks and s != "geswp":
                sw = self.one(t, "geswp")[0][0]
                n, k1 = self.view(sw[1])[1], sub(sw[2], ONE)
                r = quot(k1)
                piv = ip if s == "getrf" else padd(ip, k1)
                self.want(t, "left swap", [(False, piv, "the pivots"),
                                           (True, tok(A, r, n), "the first tile of the column"),
                                           (True, tok(A, last, n), "the last tile of the column")])
            elif "geswp" in ks:
                v = strip(self.one(t, "geswp")[0][0][1])
                r, c = self.view(v)
                if self.o["colrow"] == "Rowwise":
                    req = [(True, tok(A, ZERO, c), "the first tile of the column"),
                           (True, tok(A, last, c), "the last tile of the column")]
                else:
                    req = [(True, tok(A, r, ZERO), "the first tile of the row"),
                           (True, tok(A, r, sub(self.nt, ONE)), "the last tile of the row")]
                self.want(t, "swap", [(False, ip, "the pivots")] + req)
            elif ks & {"heswp", "syswp"}:
                nm = (ks & {"heswp", "syswp"}).pop()
                a = self.one(t, nm)[0][0]
                k1 = sub(a[4], ONE)
                r = quot(k1)
                self.want(t, "symmetric swap", [(False, padd(ip, k1), "the pivots"),
                                                (True, tok(A, r, r), "the first diagonal tile"),
                                                (True, tok(A, last, r), "the last tile of its column")])
            elif "gemm" in ks and s == "hetrf_aasen":
                for a, st in self.one(t, "gemm"):
                    x, c = tile(self.n, a[6]), tile(self.n, a[11])
                    self.above(t, x, st, "the column of L", False)
                    if c[0] is A:
                        self.above(t, c, st, "the updated column", False)
                        self.want(t, "update", [(True, tok(A, add(c[2], ONE), c[2]), "the first updated tile"),
                                                (False, tok(A, last, c[2]), "the last updated tile"),
                                                (False, tok(A, last, x[2]), "the last tile of the column of L")])
                    else:
                        self.first(t, c, st, "the block column of the workspace", True)
            elif "geadd" in ks and s == "hetrf_aasen":
                for a, st in self.one(t, "geadd"):
                    x, c = tile(self.n, a[4]), tile(self.n, a[7])
                    self.first(t, x, st, "the block column of the workspace", False)
                    if c[0] is A:
                        self.above(t, c, st, "the updated column", False)
                        self.want(t, "update", [(True, tok(A, add(c[2], ONE), c[2]), "the first updated tile"),
                                                (False, tok(A, last, c[2]), "the last updated tile")])
                    else:
                        self.first(t, c, st, "the block column of the workspace", True)

    def bound(self, t, k, st):
        """the loop variable of a row index and the row at its first value"""
        ivs = [x for x in subterms(k[1]) if t.inner(x)]
        if len(set(ivs)) != 1:
            return None, None
        return ivs[0], pathcond(st)

    def above(self, t, k, st, txt, w):
        """the tile right above the first accessed one of the column is declared"""
        iv, pc = self.bound(t, k, st)
        good = False
        for m, d in t.tok:
            if iv is not None and isinstance(d, tuple) and d[0] is k[0] and d[2] is k[2]:
                nx = add(d[1], ONE)
                if infeasible(self.n(pc), lt(k[1], nx))[0] and not infeasible(self.n(pc), eq(k[1], nx))[0]:
                    good = good or not w or m != "in"
        self.rec(good, "order", "above:%s" % txt, t.where, "the tile above the first accessed one of %s is not declared" % txt)

    def first(self, t, k, st, txt, w):
        iv, pc = self.bound(t, k, st)
        good = False
        for m, d in t.tok:
            if iv is not None and isinstance(d, tuple) and d[0] is k[0] and d[2] is k[2]:
                dl = sub(k[1], d[1])
                if infeasible(self.n(pc), lt(dl, ZERO))[0] and not infeasible(self.n(pc), eq(dl, ZERO))[0]:
                    good = good or not w or m != "in"
        self.rec(good, "order", "first:%s" % txt, t.where, "the first accessed tile of %s is not declared" % txt)

    # -- dummy tasks
    def bridges(self):
        A, mt, nt = self.A, self.mt, self.nt
        m, n, k = sym("#m"), sym("#n"), sym("#k")
        mm = mnmx("min", mt, nt)
        kl, ku = fld(A, "klt"), fld(A, "kut")
        rng = lambda x, lo, hi: and_(le(lo, x), lt(x, hi))
        s = "hetrf_aasen" if self.short.endswith("aasen") else self.short
        ip = sym("ipiv")
        B = []       # (text, before/after, token tied, token declared by the big tasks, domain)
        if s == "getrf":
            B = [("each tile of a column to its first tile, before the factorisation", True, tok(A, m, n), tok(A, ZERO, n),
                  and_(rng(n, ZERO, nt), rng(m, ONE, self.last))),
                 ("each tile of a pivoted column to the tile below the diagonal, afterwards", False, tok(A, m, k),
                  tok(A, add(k, ONE), k), and_(rng(k, ZERO, sub(mm, ONE)), rng(m, add(k, const(2)), self.last))),
                 ("each tile of the last panel to its first tile, afterwards", False, tok(A, m, k), tok(A, k, k),
                  and_(eq(k, sub(mm, ONE)), le(ZERO, k), rng(m, add(k, ONE), self.last))),
                 ("each part of ipiv to its first element", True, padd(ip, mul(m, NB)), ip, rng(m, ZERO, mm))]
        elif s == "gbtrf":
            f0 = mnmx("max", ZERO, add(sub(n, ku), ONE))
            B = [("each tile of a column of the band to the first updated one, before the factorisation", True,
                  tok(A, m, n), tok(A, f0, n),
                  and_(rng(n, ZERO, nt), rng(m, add(f0, ONE), mnmx("min", add(n, kl), mt)))),
                 ("each tile of a panel to its first tile, afterwards", False, tok(A, m, k), tok(A, k, k),
                  and_(rng(k, ZERO, mm), rng(m, add(k, ONE), mnmx("min", add(k, kl), mt))))]
        elif s == "geswp" and self.o["colrow"] == "Rowwise":
            d = and_(rng(n, ZERO, nt), rng(m, ONE, self.last))
            B = [("each tile of a column to its first tile, before the swap", True, tok(A, m, n), tok(A, ZERO, n), d),
                 ("each tile of a column to its first tile, after the swap", False, tok(A, m, n), tok(A, ZERO, n), d)]
        elif s == "geswp":
            d = and_(rng(m, ZERO, mt), rng(n, ONE, sub(nt, ONE)))
            B = [("each tile of a row to its first tile, before the swap", True, tok(A, m, n), tok(A, m, ZERO), d),
                 ("each tile of a row to its first tile, after the swap", False, tok(A, m, n), tok(A, m, ZERO), d)]
        elif s == "hetrf_aasen":
            B = [("each tile to the first panel, before the factorisation", True, tok(A, m, n), tok(A, ONE, ZERO),
                  and_(rng(n, ZERO, nt), eq(mt, nt), rng(m, n, mt), le(const(2), m)))]
        real = [i for i, t in enumerate(self.tasks) if not t.dummy]
        for txt, before, tied, decl, dom in B:
            good, why = False, "no dummy task ties %s" % txt
            for i, t in enumerate(self.tasks):
                if not t.dummy or len(t.tok) < 2:
                    continue
                if txt.startswith("each part of ipiv"):
                    if any(j < i for j in real if "getrf" in self.tasks[j].names) is False:
                        continue
                elif before and any(j < i for j in real) or not before and any(j > i and not self.later(j, i) for j in real):
                    continue
                ok, w = self.ties(t, tied, decl, dom, before)
                if ok:
                    good = True
                    break
                why = w or why
            self.rec(good, "bridge", txt, self.f["file"] + " (" + self.f["name"] + ")", why)

    def later(self, j, i):
        return False

    def ties(self, t, tied, decl, dom, before):
        """does the dummy task t tie the two addresses for every point of the
        domain?  Its loop variables are matched with those of the domain."""
        for (m1, a) in t.tok:
            for (m2, b) in t.tok:
                if a is b:
                    continue
                sigma = {}
                if not (self.unify(tied, a, sigma) and self.unify(decl, b, sigma)):
                    continue
                # the tile ordered before must not be touched later, the one
                # ordered after must wait
                pre, post = (m1, m2) if before else (m2, m1)
                w = None
                if before and m1 == "in" and not isinstance(tied, Term):
                    w = "pending readers of the tied tile are not waited for (in)"
                if post == "in":
                    w = "the dependence ends in an address declared in only"
                pc = self.n(t.pc)
                d = subst(dom, {x.uid: y for x, y in sigma.items()})
                if w is None:
                    for lit in (pc.args if pc.op == "and" else (pc,)):
                        iv = [x for x in subterms(lit) if x.op == "iv"]
                        # conditions of finished loops do not restrict the domain
                        if not iv or not all(x in sigma.values() for x in iv):
                            continue
                        if not infeasible(and_(d, le(ZERO, self.mt), le(ZERO, self.nt)), not_(lit))[0]:
                            w = "the dummy task at line %d is skipped unless %s" % (t.line, show(lit)[:80])
                            break
                if w is None:
                    return True, None
                return False, w
        return False, None

    def unify(self, p, a, sigma):
        if isinstance(p, tuple) != isinstance(a, tuple):
            return False
        if not isinstance(p, tuple):
            p, a = (p,), (a,)
        vs = [sym("#m"), sym("#n"), sym("#k")]
        for x, y in zip(p, a):
            if x in vs and x not in sigma:
                if y.op not in ("iv",) and not (x is sym("#k") and y is sub(mnmx("min", self.mt, self.nt), ONE)):
                    return False
                sigma[x] = y
            elif x.op == "padd" and y.op == "padd" and x.args[0] is y.args[0]:
                q = quot(y.args[1])
                if q is None or q.op != "iv":
                    return False
                sigma[sym("#m")] = q
            elif subst(x, {v.uid: z for v, z in sigma.items()}) is not y:
                return False
        return True


def inline(F, rep):
    for n in sorted(F.funcs):
        f = F.funcs[n]
        if not n.startswith("plasma_p") or n[9:] not in INLINE or not f["file"].startswith("compute/"):
            continue
        seen = {}

        def rec(good, kind, key, where, msg):
            k = (kind, key)
            if k not in seen:
                seen[k] = [good, where, msg]
            elif not good and seen[k][0]:
                seen[k] = [False, where, msg]
        for o, args in combos(F, f, n[9:]):
            x = Inline(F, f, n[9:], args, o, rec)
            x.coverage()
            x.roles()
            x.bridges()
        for (kind, key), (good, where, msg) in seen.items():
            rep.check(good, kind, "C06:%s:%s:%s" % (n, kind, key), where, msg, key)


NB = sym("#NB")


def run(F):
    rep = Report("C06", RULE)
    wrappers(F, rep)
    inline(F, rep)
    return finish(rep, {"declared": 300})
