"""C01: blocking routines reject exactly the documented illegal arguments."""
import facts, interp
from client import *
from common import *
from predicates import *
from spec_args import SPEC, spec_of

RULE = ("for every blocking routine and every path of its abstract execution: a return of -k implies that argument k "
        "is illegal under the documented condition; a path that reaches any effect, or returns success, implies that "
        "every argument is legal (difference-bound feasibility of the path condition with each legality predicate)")


class E:
    """legality expressions over terms"""
    def __init__(self, t):
        self.t = t

    def _o(self, o):
        return o.t if isinstance(o, E) else const(o)

    def __lt__(self, o): return E(lt(self.t, self._o(o)))
    def __gt__(self, o): return E(lt(self._o(o), self.t))
    def __le__(self, o): return E(le(self.t, self._o(o)))
    def __ge__(self, o): return E(le(self._o(o), self.t))
    def __eq__(self, o): return E(eq(self.t, self._o(o)))
    def __ne__(self, o): return E(not_(eq(self.t, self._o(o))))
    def __and__(self, o): return E(and_(self.t, o.t))
    def __or__(self, o): return E(or_(self.t, o.t))
    def __invert__(self): return E(not_(self.t))
    def __sub__(self, o): return E(sub(self.t, self._o(o)))
    def __neg__(self): return E(sub(ZERO, self.t))
    def __add__(self, o): return E(add(self.t, self._o(o)))
    __radd__ = __add__
    __hash__ = None


def scope(F, prec, params):
    en = {k[6:]: E(const(v)) for k, v in consts(F).items() if k.startswith("Plasma")}
    real = prec in ("s", "d")
    en["_ConjTrans"] = en["Trans"] if real else en["ConjTrans"]
    d = dict(en)
    d.update({p: E(sym(q)) for p, q in params.items()})
    d["one"] = lambda x, *v: E(or_(*[eq(x.t, y.t) for y in v]))
    d["sel"] = lambda c, a, b: E(ite(c.t, a.t, b.t))
    return d


class Args(Base):
    """cs = 0 before the first effect, 1 after it"""
    def __init__(self):
        self.accept = []
        self.keep = frozenset()

    def init(self):
        return 0

    def effect(self, ex, st, what, node):
        if st.cs == 0:
            line = node[4] if node and node[0] == "call" and len(node) > 4 else 0
            self.accept.append((pathcond(st), what, line))
            st = interp.State(st.env, st.heap, st.pc, 1)
        return st

    def call(self, ex, st, name, args, node):
        if name in ERRFN or name in interp.PURE or name in ("plasma_context_self", "printf", "fprintf"):
            return None
        if name.startswith("__builtin"):
            return None
        if self.inline(name) and ex.find(name) is not None:
            return None
        st = self.effect(ex, st, name, node)
        return [ex.opaque(name, args, node, st)]

    def store(self, ex, st, loc, val, node):
        if loc[0] == "mem":
            r = root(loc[1])
            return self.effect(ex, st, "a store through " + show(r), node)
        if loc[0] == "loc" and loc[1][0] == "g":
            return self.effect(ex, st, "a store to " + loc[1][1], node)
        return st


def prec_of(name):
    return name[len("plasma_")]


def routines(F):
    for n in sorted(F.funcs):
        f = F.funcs[n]
        if n in F.hdecls and f["file"].startswith("compute/") and n.startswith("plasma_") and \
                not n.startswith("plasma_omp_") and f["types"][f["ret"]] != "void":
            yield n, f


def run(F):
    rep = Report("C01", RULE)
    rep.assumptions = ["floating-point arguments: NaN tests are opaque atoms",
                       "documented limitations (transposed copies of non-square matrices, Upper in the "
                       "indefinite solver, jobu == jobvt) count as illegal arguments"]
    for n, f in routines(F):
        sp = spec_of(n)
        if sp is None:
            ret = f["types"][f["ret"]]
            if "laneg2" in n or "laebz2" in n:
                continue
            rep.bad("spec", "C01:%s:nospec" % n, n, "no legality table for the public routine %s" % n)
            continue
        params = [p[1] for p in f["params"]]
        if len(params) != len(sp):
            rep.bad("spec", "C01:%s:arity" % n, n, "the parameter list of %s no longer has %d arguments" % (n, len(sp)))
            continue
        sc = scope(F, prec_of(n), dict(zip([a for a, _ in sp], params)))
        legal = []
        for a, cond in sp:
            if cond is None:
                legal.append(TRUE)
            elif cond == "late" or cond.startswith("fp("):
                legal.append(None)
            else:
                legal.append(eval(cond, {"__builtins__": {}}, sc).t)
        cl = Args()
        ex = interp.Exec(F, cl)
        rets = ex.run(f)
        if ex.unsupported:
            raise AnalysisBroken("%s: unsupported construct %s" % (n, ex.unsupported[0]))
        where = "%s (%s)" % (f["file"], n)
        rejected = set()
        goods = list(cl.accept)
        for s, v, line in rets:
            if v is None:
                continue
            for c, leaf in leaves(v):
                pc = and_(pathcond(s), c)
                if pc is FALSE:
                    continue
                if is_const(leaf) and -100 < leaf.args[0] < 0:
                    k = -leaf.args[0]
                    w = "%s:%d (%s)" % (f["file"], line, n)
                    if k > len(sp):
                        rep.bad("reject", "C01:%s:reject:%d" % (n, k), w,
                                "returns -%d but the routine has %d arguments" % (k, len(sp)))
                        continue
                    rejected.add(k)
                    L = legal[k - 1]
                    if L is None:
                        rep.ok("reject", w, "argument %d (%s) is checked" % (k, sp[k - 1][0]))
                        continue
                    good, wit = infeasible(pc, L)
                    rep.check(good, "reject", "C01:%s:reject:%d" % (n, k), w,
                              "returns -%d although argument %d (%s) can be legal there: %s" %
                              (k, k, sp[k - 1][0], show_row(wit) if wit else ""),
                              "-%d only when %s" % (k, sp[k - 1][1]))
                elif s.cs == 0 and not (is_const(leaf) and leaf.args[0] <= -100) and \
                        not (leaf.op in ("flt",) or is_const(leaf) and leaf.args[0] != 0):
                    goods.append((pc, "a return", line))
                elif is_const(leaf) and leaf.args[0] in (consts(F)["PlasmaErrorIllegalValue"],):
                    rep.bad("reject", "C01:%s:generic" % n, "%s:%d (%s)" % (f["file"], line, n),
                            "an illegal argument is reported by a code that does not name its position")
        for k, L in enumerate(legal):
            a, cond = sp[k]
            if L is TRUE:
                continue
            if L is None:
                if cond.startswith("fp("):
                    rep.check(k + 1 in rejected, "accept", "C01:%s:accept:%d" % (n, k + 1), where,
                              "argument %d (%s) is never rejected" % (k + 1, a))
                continue
            bad = None
            for pc, what, line in goods:
                good, wit = infeasible(pc, not_(L))
                if not good:
                    bad = (what, line, wit)
                    break
            rep.check(bad is None, "accept", "C01:%s:accept:%d" % (n, k + 1), where,
                      bad and "reaches %s (line %d) although argument %d (%s) is illegal: %s" %
                      (bad[0], bad[1], k + 1, a, show_row(bad[2])),
                      "%s before any effect" % cond)
    return finish(rep, {"reject": 900, "accept": 900})
