"""C03: library life cycle and settings.

 guard      a routine called while the library is not initialised does nothing
            and says so
 lifecycle  init, finalize, set and get as transition functions over the state
            (initialised, inside a parallel region, parameter, value)
 defaults   what initialisation stores
 preserve   computational routines leave every setting as they found it, apart
            from the tuner, which runs only when tuning is enabled
 tuner      a tuning query asks for its own parameters with its own precision
            and sizes, before they are used, and leaves the Lua stack as found"""
import re

import interp, facts
from client import *
from common import *
from predicates import *
import spec_args

RULE = ("abstract execution of every routine with no context: returns PlasmaErrorNotInitialized (asynchronous: fails the "
        "sequence) with no other effect; init/finalize/set/get equal their transition tables on every path; at every return "
        "of every routine the context fields for settings hold their entry values; tuning calls under plasma->tuning, with "
        "the routine's own precision, before any setting is read; the Lua stack is empty at every return of the tuner")

HELPER = re.compile(r"plasma_([sdcz](gbset|stein|laebz2|laneg2|stelg|stmv|stepe)|omp_[sdcz]stevx2)$")
NAME = re.compile(r"plasma_(omp_)?(zc|ds|dz|sc|[sdcz])(?=[a-z])[a-z0-9_]+$")
LETTER = {"z": "PlasmaComplexDouble", "c": "PlasmaComplexFloat", "d": "PlasmaRealDouble", "s": "PlasmaRealFloat"}
SETTINGS = ("tuning", "nb", "ib", "inplace_outplace", "max_threads", "max_panel_threads", "householder_mode")
CTX = ("g", "plasma_context_g")
INIT = ("g", "plasma_initialized_g")


def routines(F):
    for n in sorted(F.funcs):
        f = F.funcs[n]
        if f["file"].startswith("compute/") and NAME.match(n) and not n.startswith("plasma_p") and not HELPER.match(n):
            yield n, f


class Null(Base):
    def __init__(self):
        self.effects, self.failed, self.rets = [], [], []

    def init(self):
        return False

    def call(self, ex, st, name, args, e):
        if name == "plasma_context_self":
            return [(st, ZERO)]
        if name in ERRFN or name in interp.PURE or name in ("printf", "fprintf"):
            return None
        if name == "plasma_request_fail":
            return [(interp.State(st.env, st.heap, st.pc, True), args[2])] if args[2] is not ZERO else None
        if self.inline(name) and ex.find(name) is not None:
            return None
        if ex.feasible(st):
            self.effects.append(("calls " + name, e[4]))
        return None

    def store(self, ex, st, loc, val, node):
        # a constant in a scalar output (*iter = 0) tells the caller nothing wrong
        status = loc[0] == "mem" and loc[1].op == "sym" and not loc[2] and val is not None and is_const(val)
        if (loc[0] == "mem" or loc[1][0] == "g") and not status:
            if ex.feasible(st):
                self.effects.append(("stores", ex.cur()["line"]))
        return st

    def ret(self, ex, st, val, line):
        self.rets.append((st, val, line))


def guards(F, rep, C):
    for n, f in routines(F):
        cl = Null()
        ex = interp.Exec(F, cl)
        ex.run(f)
        where = "%s (%s)" % (f["file"], n)
        rep.check(not cl.effects, "guard", "C03:%s:effect" % n, where,
                  cl.effects and "%s (line %d) although the library is not initialised" % cl.effects[0])
        for st, val, line in cl.rets:
            if infeasible(pathcond(st), TRUE)[0]:
                continue
            if n.startswith("plasma_omp_"):
                rep.check(st.cs, "guard", "C03:%s:silent" % n, where,
                          "returns at line %d without failing the sequence although the library is not initialised" % line)
            else:
                good = val is not None and val is const(C["PlasmaErrorNotInitialized"])
                rep.check(good, "guard", "C03:%s:code" % n, where,
                          "returns %s at line %d when the library is not initialised" % (val is not None and show(val), line))


class Life(Base):
    keep = frozenset(("plasma_context_init", "plasma_context_finalize"))

    def __init__(self, pre):
        self.pre = pre
        self.calls = []
        self.derefs = []

    def init(self):
        return frozenset()

    def merge_cs(self, a, b):
        return None

    def call(self, ex, st, name, args, e):
        if name == "omp_in_parallel":
            return [(st, sym("#parallel"))]
        if name == "omp_get_max_threads":
            return [(st, sym("#threads"))]
        if name in ("plasma_tuning_init", "plasma_tuning_finalize"):
            return [(interp.State(st.env, st.heap, st.pc, st.cs | {name, (name, args[0])}), ZERO)]
        return None


def field(st, f):
    v = st.env.get(CTX)
    return fld(v if v is not None else mk("gvar", CTX[1]), f)


def inits(st):
    v = st.env.get(INIT)
    return v if v is not None else mk("gvar", INIT[1])


def lifecycle(F, rep, C):
    g0 = mk("gvar", INIT[1])
    par = sym("#parallel")
    ready = {not_(eq(g0, ZERO)), eq(par, ZERO)}

    def runs(name, pre, args=None):
        f = F.funcs[name]
        ex = interp.Exec(F, Life(pre))
        for st, val, line in ex.run(f, args):
            for c, leaf in leaves(val if val is not None else ZERO):
                pc = and_(pathcond(st), c)
                if not infeasible(pc, TRUE)[0]:
                    yield st, leaf, line, pc, f

    def same(st, but=()):
        return [x for x in SETTINGS if x not in but and field(st, x) is not fld(mk("gvar", CTX[1]), x)]

    def rec(good, name, key, f, line, msg):
        rep.check(bool(good), "lifecycle", "C03:%s:%s" % (name, key), "%s:%d (%s)" % (f["file"], line, name), msg)

    refuse = {"plasma_init": ("initialised", [{not_(eq(g0, ZERO))}, {eq(g0, ZERO), not_(eq(par, ZERO))}]),
              "plasma_finalize": ("not initialised", [{eq(g0, ZERO)}, {not_(eq(g0, ZERO)), not_(eq(par, ZERO))}]),
              "plasma_set": ("not initialised", [{eq(g0, ZERO)}, {not_(eq(g0, ZERO)), not_(eq(par, ZERO))}]),
              "plasma_get": ("not initialised", [{eq(g0, ZERO)}])}
    for name, (txt, pres) in refuse.items():
        for i, pre in enumerate(pres):
            for st, val, line, pc, f in runs(name, pre):
                t = "inside a parallel region" if i else "when the library is %s" % txt
                rec(is_const(val) and val is not ZERO, name, "refuse%d" % i, f, line, "succeeds " + t)
                if not i and name != "plasma_init":
                    rec(val is const(C["PlasmaErrorNotInitialized"]), name, "code", f, line, "does not report PlasmaErrorNotInitialized")
                rec(inits(st) is g0 and not same(st) and not st.cs and not st.heap, name, "effect%d" % i, f, line,
                    "changes the state although it is refused " + t)
    start = [d.get("init") for (_, x), d in F.gvars.items() if x == INIT[1]]
    rep.check(len(start) == 1 and (not start[0] or start[0][:2] == ["int", 0]), "lifecycle", "C03:start", "control/context.c",
              "the library does not start as not initialised")
    n = 0
    for st, val, line, pc, f in runs("plasma_init", {eq(g0, ZERO), eq(par, ZERO)}):
        n += 1
        rec(val is ZERO, "plasma_init", "ok", f, line, "fails when it is allowed")
        rec(is_const(inits(st)) and inits(st) is not ZERO, "plasma_init", "state", f, line, "does not become initialised")
        rec(("plasma_tuning_init", mk("addr", CTX, ())) in st.cs, "plasma_init", "tuning", f, line, "does not start the tuner")
        want = {"tuning": const(C["PlasmaEnabled"]), "nb": const(256), "ib": const(64), "max_threads": sym("#threads"),
                "inplace_outplace": const(C["PlasmaOutplace"]), "max_panel_threads": ONE,
                "householder_mode": const(C["PlasmaFlatHouseholder"])}
        for x, w in want.items():
            rep.check(field(st, x) is w, "defaults", "C03:default:" + x, "%s:%d (plasma_init)" % (f["file"], line),
                      "%s starts as %s instead of %s" % (x, show(field(st, x)), show(w)))
    for st, val, line, pc, f in runs("plasma_finalize", ready):
        n += 1
        rec(val is ZERO, "plasma_finalize", "ok", f, line, "fails when it is allowed")
        rec(inits(st) is ZERO, "plasma_finalize", "state", f, line, "stays initialised")
        rec(("plasma_tuning_finalize", mk("addr", CTX, ())) in st.cs, "plasma_finalize", "tuning", f, line,
            "does not release the tuner")
    v = sym("value")
    one = lambda *xs: or_(*[eq(v, const(C[x])) for x in xs])
    table = {"PlasmaTuning": ("tuning", one("PlasmaEnabled", "PlasmaDisabled")), "PlasmaNb": ("nb", lt(ZERO, v)),
             "PlasmaIb": ("ib", lt(ZERO, v)), "PlasmaNumPanelThreads": ("max_panel_threads", lt(ZERO, v)),
             "PlasmaHouseholderMode": ("householder_mode", one("PlasmaFlatHouseholder", "PlasmaTreeHouseholder"))}
    for p, (x, valid) in table.items():
        k = const(C[p])
        for st, val, line, pc, f in runs("plasma_set", ready, [k, v]):
            n += 1
            if val is ZERO:
                rec(infeasible(pc, not_(valid))[0], "plasma_set", p + ":accept", f, line, "accepts an invalid value of " + p)
                rec(field(st, x) is v and not same(st, (x,)), "plasma_set", p + ":store", f, line,
                    "does not store exactly the value of " + p)
            else:
                rec(infeasible(pc, valid)[0], "plasma_set", p + ":reject", f, line, "rejects a valid value of " + p)
                rec(not same(st), "plasma_set", p + ":kept", f, line, "changes a setting although it rejects the value of " + p)
        for st, val, line, pc, f in runs("plasma_get", {not_(eq(g0, ZERO))}, [k, v]):
            n += 1
            rec(val is ZERO and st.heap.get((v, ())) is fld(mk("gvar", CTX[1]), x), "plasma_get", p, f, line,
                "does not return the value of " + p)
    k = sym("param")
    other = {not_(eq(k, const(C[p]))) for p in table}
    for name in ("plasma_set", "plasma_get"):
        for st, val, line, pc, f in runs(name, ready | other, [k, v]):
            n += 1
            rec(is_const(val) and val is not ZERO and not same(st) and not st.heap, name, "unknown", f, line,
                "accepts an unknown parameter")
    for st, val, line, pc, f in runs("plasma_context_self", {eq(g0, ZERO)}):
        rec(val is ZERO, "plasma_context_self", "null", f, line, "hands out a context although the library is not initialised")
    for st, val, line, pc, f in runs("plasma_context_self", {not_(eq(g0, ZERO))}):
        rec(val is mk("addr", CTX, ()), "plasma_context_self", "context", f, line, "does not hand out the context")
    return n


class Keep(Base):
    """settings through the context pointer; callees are checked on their own"""

    def __init__(self, f, ctx):
        self.f, self.ctx = f, ctx
        self.rets, self.tunes, self.late = [], [], []

    def init(self):
        return False           # a setting was read

    def call(self, ex, st, name, args, e):
        if name == "plasma_context_self":
            return [(st, self.ctx)]
        if name.startswith("plasma_tune_"):
            self.tunes.append((name, args, st, e[4]))
            if st.cs:
                self.late.append((name, e[4]))
            return [(st, ZERO)]
        if self.inline(name) and ex.find(name) is not None:
            return None
        keep = {k: x for k, x in st.heap.items() if root(k[0]) is self.ctx}
        s, v = ex.opaque(name, args, e, st)
        for k in list(s.heap):
            if root(k[0]) is self.ctx:
                del s.heap[k]
        s.heap.update(keep)
        return [(s, v)]

    def load(self, ex, st, loc, node):
        if loc[0] == "mem" and root(loc[1]) is self.ctx and loc[2][:1] in (("nb",), ("ib",), ("max_panel_threads",)):
            return interp.State(st.env, st.heap, st.pc, True)
        return st

    def merge_cs(self, a, b):
        return a or b

    def ret(self, ex, st, val, line):
        self.rets.append((st, line))


def preserve(F, rep, C):
    for n in sorted(F.funcs):
        f = F.funcs[n]
        if not f["file"].startswith("compute/"):
            continue
        ctx = sym("#context")
        params = [p for _, p, t in f["params"] if "plasma_context_t" in f["types"][t]]
        cl = Keep(f, ctx)
        cl.pre = {not_(eq(ctx, ZERO))}
        ex = interp.Exec(F, cl)
        ex.run(f, [ctx if p in params else sym(p) for _, p, t in f["params"]])
        where = "%s (%s)" % (f["file"], n)
        for st, line in cl.rets:
            for x in SETTINGS:
                v = st.heap.get((ctx, (x,)))
                if v is None or v is mk("load", ctx, (x,)):
                    continue
                same = all(l is mk("load", ctx, (x,)) or infeasible(and_(pathcond(st), c), TRUE)[0] for c, l in leaves(v))
                rep.check(same, "preserve", "C03:%s:%s" % (n, x), "%s:%d (%s)" % (f["file"], line, n),
                          "returns with the setting %s changed to %s" % (x, show(v)[:60]))
        rep.ok("preserve", where, n=len(cl.rets))
        for name, args, st, line in cl.tunes:
            w = "%s:%d (%s)" % (f["file"], line, n)
            t = mk("load", ctx, ("tuning",))
            rep.check(infeasible(pathcond(st), eq(t, ZERO))[0] if C["PlasmaDisabled"] == 0 else True, "tuner",
                      "C03:%s:tuning" % n, w, "tunes although tuning may be disabled")
            m = NAME.match(n)
            own = [const(C[LETTER[x]]) for x in (m.group(2) if m else n[7:8]) if x in LETTER]
            rep.check(args[1] in own, "tuner", "C03:%s:precision" % n, w, "tunes for another precision")
            mine = {sym(p) for _, p, _ in f["params"]}
            rep.check(all(not any(x.op == "sym" and x not in mine for x in subterms(a)) for a in args[2:]), "tuner",
                      "C03:%s:sizes" % n, w, "tunes for sizes that are not its own")
            rep.check(not any(a.op == "sym" and re.match(r"ld[a-z]+$", str(a.args[0])) for a in args[2:]), "tuner",
                      "C03:%s:sizes" % n, w, "tunes for a leading dimension instead of a size")
        rep.check(not cl.late, "tuner", "C03:%s:late" % n, where,
                  cl.late and "tunes at line %d after it has used the settings" % cl.late[0][1])


class Lua(Base):
    """cs: number of values on the Lua stack, None when it depends on a loop"""
    PUSH = {"lua_getglobal", "lua_pushstring", "lua_pushinteger", "lua_pushnumber", "lua_pushnil", "lua_getfield",
            "lua_pushboolean", "lua_newtable"}

    def __init__(self):
        self.rets, self.over = [], []

    def init(self):
        return 0

    def merge_cs(self, a, b):
        return None

    def put(self, st, n):
        return interp.State(st.env, st.heap, st.pc, n)

    def call(self, ex, st, name, args, e):
        n = st.cs
        if name in self.PUSH:
            # a call made once per loop iteration: as many as the loop runs
            return [(self.put(st, "many" if n == "many" or n > 6 else n + 1), ex.opaque(name, args, e, st)[1])]
        if name == "lua_pcallk":
            # takes the function and its arguments, leaves the result or a message
            return [(self.put(st, 1), ex.opaque(name, args, e, st)[1])]
        if name == "lua_settop":
            a = args[1]
            if not is_const(a):
                raise AnalysisBroken("lua_settop(%s)" % show(a))
            k = a.args[0]
            if k >= 0:
                return [(self.put(st, k), ZERO)]
            return [(self.put(st, "many" if n == "many" else n + k + 1), ZERO)]
        if self.inline(name) and ex.find(name) is not None:
            return None
        return None

    def ret(self, ex, st, val, line):
        self.rets.append((st, line))


def tuner(F, rep, C):
    f = None
    for (_, n), g in list(F.local.items()) + [((g["file"], n), g) for n, g in F.funcs.items()]:
        if n == "plasma_tune":
            f = g
    if f is None:
        raise AnalysisBroken("plasma_tune not found")
    cl = Lua()
    ex = interp.Exec(F, cl)
    ex.run(f)
    for st, line in cl.rets:
        rep.check(st.cs == 0, "stack", "C03:plasma_tune:stack", "%s:%d (plasma_tune)" % (f["file"], line),
                  "returns with %s values left on the Lua stack, which overflows after enough calls" % st.cs)
    for n in sorted(F.funcs):
        g = F.funcs[n]
        if not n.startswith("plasma_tune_"):
            continue
        seen = []

        class Q(Base):
            def call(self, ex, st, name, args, e):
                if name == "plasma_tune":
                    seen.append((args, st, e[4]))
                    return [(st, ZERO)]
                return None
        ctx = sym("#context")
        cl = Q()
        ex = interp.Exec(F, cl)
        ps = [p for _, p, _ in g["params"]]
        ex.run(g, [ctx if "plasma_context_t" in g["types"][t] else sym(p) for _, p, t in g["params"]])
        where = "%s (%s)" % (g["file"], n)
        short = n[12:]
        rep.check(bool(seen), "query", "C03:%s:asks" % n, where, "asks for nothing")
        for args, st, line in seen:
            w = "%s:%d (%s)" % (g["file"], line, n)
            s = args[2].args[0] if args[2].op == "str" else "?"
            s = s.strip('"')
            out = args[3]
            path = out.args[1] if out.op == "faddr" and out.args[0] is ctx else None
            rep.check(s.startswith(short + "_") and path == (s[len(short) + 1:],), "query", "C03:%s:%s" % (n, s), w,
                      "stores the answer to %s in %s" % (s, path and path[0]))
            rep.check(args[1] is sym(ps[1]), "query", "C03:%s:%s:type" % (n, s), w, "asks for another precision")
            rep.check(is_const(args[4]) and len(args) == 5 + args[4].args[0] and
                      args[5:] == [sym(p) for p in ps[2:]], "query", "C03:%s:%s:sizes" % (n, s), w,
                      "does not hand over exactly its sizes")
            rep.check(infeasible(pathcond(st), eq(mk("load", ctx, ("L",)), ZERO))[0], "query", "C03:%s:state" % n, w,
                      "asks a tuner that was not set up")


def run(F):
    rep = Report("C03", RULE)
    C = consts(F)
    guards(F, rep, C)
    lifecycle(F, rep, C)
    preserve(F, rep, C)
    tuner(F, rep, C)
    return finish(rep, {"guard": 800, "lifecycle": 50, "defaults": 7, "preserve": 1500, "tuner": 900, "stack": 4, "query": 150})
