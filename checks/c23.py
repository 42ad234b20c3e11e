"""C23: the threads that share one tile kernel synchronise.

 collective  every barrier of a kernel is passed by all ranks, equally often,
             with the same count: neither its condition nor the loops around it
             depend on the rank or on data that the kernel changes
 race        two ranks never access the same element, at least one writing,
             without a barrier between: for every pair of accesses that may fall
             between the same two barriers, the regions are disjoint or the two
             ranks are the same (elimination in linear arithmetic)
 crew        the tasks that run such a kernel are one per rank, 0 to N-1, N
             being also the count of the barrier and the length of the arrays
             with one slot per rank; the barrier is set up before, and the arrays
             are released after all have finished
 barrier     the barrier itself: the arrival is counted atomically after the old
             round number is read, the last one resets the count before it
             announces the new round, the others wait for the announcement"""
import re

import interp, facts
from client import *
from common import *
from predicates import *
import dataflow

RULE = ("phases between barriers as control-flow regions of a rank-parametric kernel: barriers are collective, accesses of two "
        "different ranks in one phase do not conflict, and the tasks running the ranks are exactly as many as the barrier counts")
WAIT = "plasma_barrier_wait"
TILE = ("plasma_tile_addr",)

# regions of BLAS/LAPACK calls: (argument, rows, columns, mode); rows/columns by argument index, "1" = one
V = "v"     # vector: (V, argument, length, increment, mode)
REGIONS = {
    "swap": [(V, 1, 0, 2, "rw"), (V, 3, 0, 4, "rw")],
    "scal": [(V, 2, 0, 3, "rw")],
    "copy": [(V, 1, 0, 2, "r"), (V, 3, 0, 4, "w")],
    "axpy": [(V, 2, 0, 3, "r"), (V, 4, 0, 5, "rw")],
    "geru": [(V, 4, 1, 5, "r"), (V, 6, 2, 7, "r"), (8, 1, 2, "rw")],
    "ger": [(V, 4, 1, 5, "r"), (V, 6, 2, 7, "r"), (8, 1, 2, "rw")],
    "gerc": [(V, 4, 1, 5, "r"), (V, 6, 2, 7, "r"), (8, 1, 2, "rw")],
    "lacgv": [(V, 1, 0, 2, "rw")],
}
# symmetric pivoting: which elements of a round a rank touches depends on the
# pivots in ways linear arithmetic does not follow; only the rounds are judged
SWP = re.compile(r"core_[sdcz](he|sy)swp$")
LEFT, NOTRANS = 141, 111


def op(name):
    m = re.match(r"(?:cblas_|LAPACKE_|plasma_core_)([sdcz])([a-z0-9]+?)(_work)?$", name)
    return m.group(2) if m else None


def cases_of(name, a):
    """regions of a call that depend on its options"""
    k = op(name)
    if k in REGIONS:
        return REGIONS[k]
    if k == "gemm":
        na = is_const(a[1]) and a[1] is const(NOTRANS)
        nb = is_const(a[2]) and a[2] is const(NOTRANS)
        return [(7, 3 if na else 5, 5 if na else 3, "r"), (9, 5 if nb else 4, 4 if nb else 5, "r"), (12, 3, 4, "rw")]
    if k in ("trsm", "trmm"):
        t = 5 if a[1] is const(LEFT) else 6
        return [(8, t, t, "r"), (10, 5, 6, "rw")]
    if k == "gemv":
        return None
    return None


class Acc(Base):
    def __init__(self, me, own, ranked):
        self.me, self.own, self.ranked = me, own, ranked
        self.acc, self.waits, self.unknown = [], [], []

    def init(self):
        return None

    def inline(self, name):
        return name in self.own or Base.inline(self, name)

    def add(self, ex, st, kind, p, extra, line):
        e = dict(kind=kind, p=p, pc=st.pc, nest=list(ex.nest), line=line, pos=ex.pos((kind, ex.frame, line, str(p), str(extra))),
                 extra=extra, file=ex.stack[-1][0]["file"])
        (self.waits if kind == "wait" else self.acc).append(e)

    def load(self, ex, st, loc, node):
        if loc[0] == "mem":
            self.add(ex, st, "r", loc[1], (ONE, ONE, loc[2]), line_of(node))
        return st

    def store(self, ex, st, loc, val, node):
        if loc[0] == "mem":
            self.add(ex, st, "w", loc[1], (ONE, ONE, loc[2]), line_of(node))
        return st

    def call(self, ex, st, name, args, node):
        a = [ex.read(st, ("loc", x.args[0], x.args[1])) if isinstance(x, Term) and x.op == "addr" and name.startswith("cblas") else x
             for x in args]
        if name == WAIT:
            self.add(ex, st, "wait", a[0], tuple(a), node[4])
        elif re.match(r"(cblas_|LAPACKE_)", name) or name.startswith("plasma_core_") and not self.inline(name):
            if name.endswith("cabs1") or "lamch" in name:
                return None
            r = cases_of(name, a)
            if r is None:
                if any(isinstance(x, Term) and root(x).op == "sym" and x.op == "padd" for x in a):
                    self.unknown.append((name, node[4]))
                return None
            for x in r:
                if x[0] is V:
                    _, at, n, inc, mode = x
                    self.add(ex, st, mode, a[at], ("v", a[n], a[inc]), node[4])
                else:
                    at, m, n, mode = x
                    self.add(ex, st, mode, a[at], (a[m], a[n], ()), node[4])
        return None


def line_of(node):
    return next((x for x in reversed(node) if isinstance(x, int)), 0) if isinstance(node, list) else 0


class Region:
    """array, tile (row, column) or None, first and last row and column (None: unbounded)"""

    def __init__(self, e):
        p, x = e["p"], e["extra"]
        b, off = (p.args[0], p.args[1]) if p.op == "padd" else (p, ZERO)
        self.tile = self.base = None
        ld = None
        if b.op == "call" and b.args[0] in TILE:
            self.base, self.tile = b.args[1], b.args[2:4]
        elif b.op == "sym":
            self.base = b
        else:
            raise Unclear(str(b)[:80])
        if self.tile is None:
            self.r0, self.r1 = off, off
            self.c0 = self.c1 = ZERO
            if x[0] == "v":
                self.r1 = add(off, sub(x[1], ONE)) if x[2] is ONE else None
            self.path = x[2] if x[0] != "v" else ()
            return
        self.path = ()
        row = col = ZERO
        want = ("call", "plasma_tile_mmain", self.base, self.tile[0])
        d = off.args[0] if off.op == "poly" else () if off is ZERO else (((off,), 1),) if not is_const(off) else (((), off.args[0]),)
        for mon, k in d:
            y, inld = const(k), False
            for z in mon:
                if not inld and z.op == "call" and z.args[0] == "plasma_tile_mmain" and z.args[1] is self.base and z.args[2] is self.tile[0]:
                    inld = True
                else:
                    y = mul(y, z)
            if inld:
                col = add(col, y)
            else:
                row = add(row, y)
        self.r0, self.c0 = row, col
        if x[0] == "v":
            n = sub(x[1], ONE)
            if x[2] is ONE:
                self.r1, self.c1 = add(row, n), col
            elif x[2].op == "call" and x[2].args[0] == "plasma_tile_mmain":
                self.r1, self.c1 = row, add(col, n)
            else:
                self.r1 = self.c1 = None
        else:
            self.r1, self.c1 = add(row, sub(x[0], ONE)), add(col, sub(x[1], ONE))


class Unclear(Exception):
    pass


def over(a0, a1, b0, b1):
    c = []
    if a1 is not None:
        c.append(le(b0, a1))
    if b1 is not None:
        c.append(le(a0, b1))
    return c


class Kernel:
    def __init__(self, F, f, rep, rank, size):
        self.F, self.f, self.rep = F, f, rep
        self.rank, self.size = sym(rank), sym(size)
        own = {n for u, n in F.local if u == f["unit"]}
        self.cl = Acc(f["name"], own, rank)
        self.ex = interp.Exec(F, self.cl)
        self.ex.run(f, None)
        self.W = self.cl.waits
        # one access per site, region and condition
        seen, self.A = set(), []
        for a in self.cl.acc:
            k = (a["kind"], a["p"], a["extra"], a["line"], tuple(a["nest"]))
            if k not in seen:
                seen.add(k)
                self.A.append(a)
            else:
                for b in self.A:
                    if (b["kind"], b["p"], b["extra"], b["line"], tuple(b["nest"])) == k:
                        b["pc"] = b["pc"] & a["pc"]
        self.collective = {s for w in self.W for _, s in w["nest"]}
        self.written = {str(root_(a["p"])) for a in self.A if "w" in a["kind"]}

    def where(self, e):
        return "%s:%d (%s)" % (e["file"].split("/repo/")[-1], e["line"], self.f["name"])

    # -- collective
    def uniform(self, t, nestivs):
        for x in subterms(t):
            if x is self.rank:
                return "the rank"
            if x.op in ("load", "clob", "phi", "heapmem") and self.changes(x):
                return "%s, which the kernel changes" % str(x)[:50]
            if x.op == "iv" and x not in nestivs:
                l = self.ex.loops.get(x.uid)
                if l and isinstance(l["init"], Term) and self.rank in set(subterms(l["init"])):
                    return "the rank"
        return None

    def changes(self, x):
        return any(w in str(x) for w in self.written)

    def ivs(self, nest):
        out = {}
        for _, s in nest:
            for l in self.ex.loops.values():
                if l["site"] == s:
                    out[l["iv"]] = l
        return out

    def atoms(self, e):
        """conditions of a barrier other than what is left of finished loops"""
        mine = self.ivs(e["nest"])
        out = []
        for c in e["pc"]:
            if any(x.op == "iv" and x not in mine for x in subterms(c)):
                continue
            out.append(c)
        return out, mine

    def check_collective(self):
        ks = sorted({str(w["extra"][1]) for w in self.W})
        for i, w in enumerate(self.W):
            at, mine = self.atoms(w)
            why = None
            for c in at:
                why = why or self.uniform(c, mine)
            for l in mine.values():
                for t in (l["init"], l["stride"]):
                    if isinstance(t, Term):
                        why = why or self.uniform(t, mine)
            # a rank that left earlier does not come
            key = "%s:wait%d" % (self.f["name"], i)
            self.rep.check(why is None, "collective", key, self.where(w), "whether a rank reaches this barrier depends on " + str(why))
            self.rep.check(w["extra"][1] is self.size and w["extra"][0].op == "sym", "collective", key + ":count", self.where(w),
                           "the barrier counts %s ranks instead of %s" % (w["extra"][1], self.size))

    # -- phases
    def at(self, e, d):
        return e["nest"][d][0] if d < len(e["nest"]) else e["pos"]

    def must(self, w, x, y, facts_):
        """the barrier is passed whenever both accesses take place"""
        at, mine = self.atoms(w)
        loops = set()
        for c in at:
            if c in x["pc"] or c in y["pc"]:
                continue
            if not infeasible(and_(facts_, not_(c)))[0]:
                return False
        return True

    def depth(self, x, y):
        d = 0
        while d < len(x["nest"]) and d < len(y["nest"]) and x["nest"][d] == y["nest"][d] and x["nest"][d][1] in self.collective:
            d += 1
        return d

    def separated(self, x, y, d, same, facts_):
        """a barrier lies on every way from x to y, which share d loops; in the same or a later iteration of the next"""
        for w in self.W:
            e = len(w["nest"])
            if same:
                if e >= d and w["nest"] == x["nest"][:e] and w["pos"] > self.at(x, e) and (e > d or w["pos"] < self.at(y, e)) or \
                        e >= d and w["nest"] == y["nest"][:e] and w["pos"] < self.at(y, e) and (e > d or w["pos"] > self.at(x, e)):
                    if self.must(w, x, y, facts_):
                        return True
            else:
                if e > d and (w["nest"] == x["nest"][:e] and w["pos"] > self.at(x, e) or
                              w["nest"] == y["nest"][:e] and w["pos"] < self.at(y, e)):
                    if self.must(w, x, y, facts_):
                        return True
        return False

    def local_(self, e, tag, shared, rank):
        """terms of an access with the variables of one rank"""
        m = {self.rank.uid: rank}
        own = []
        mine = self.ivs(e["nest"])
        region = Region(e)
        ts = [c for c in e["pc"]] + [t for t in (region.r0, region.r1, region.c0, region.c1) + tuple(region.tile or ()) if t is not None]
        for t in ts:
            for x in subterms(t):
                if x.op == "iv" and x not in shared and x.uid not in m:
                    m[x.uid] = mk("iv", x.args[0], x.args[1] + tag)
                elif x.op in ("load", "clob", "phi") and self.changes(x) and x.uid not in m:
                    m[x.uid] = mk("sym", "val%d%s" % (x.uid, tag))
        for x, l in mine.items():
            if x.uid in m and isinstance(l["init"], Term) and self.rank in set(subterms(l["init"])):
                own.append((m[x.uid], l))
        f = lambda t: None if t is None else subst(t, m)
        pc = and_(*[f(c) for c in e["pc"]])
        for x, l in mine.items():
            if x.uid in m and l["stride"] is self.size and l["init"] is self.rank:
                pc = and_(pc, le(rank, m[x.uid]))
        for x, l in mine.items():
            if x.uid in m and isinstance(l["stride"], Term) and l["stride"].op == "sym" and l["stride"] is not self.size and l["stride"] is l["init"]:
                own.append((m[x.uid], l))
                b = mk("mod", m[x.uid], l["stride"])
                if b in set(subterms(pc)):
                    pc = and_(pc, eq(b, ZERO))
        region.r0, region.r1, region.c0, region.c1 = map(f, (region.r0, region.r1, region.c0, region.c1))
        if region.tile:
            region.tile = tuple(map(f, region.tile))
        return pc, region, own

    def conflict(self, x, y, shared, more):
        """a situation in which two different ranks access the same element"""
        r, s = mk("sym", "rank#1"), mk("sym", "rank#2")
        pa, A, oa = self.local_(x, "~1", shared, r)
        pb, B, ob = self.local_(y, "~2", shared, s)
        if A.base is not B.base:
            return None if A.base.op == "sym" and B.base.op == "sym" else TRUE
        c = [pa, pb, not_(eq(r, s)), le(ZERO, r), le(ZERO, s), lt(r, self.size), lt(s, self.size)] + more
        for u, l in oa:
            for v, k in ob:
                if l["init"] is k["init"] is self.rank and l["stride"] is k["stride"] is self.size:
                    c.append(not_(eq(u, v)))        # different ranks never have the same multiple
                elif l is k and l["stride"] is not self.size:
                    b = l["stride"]                 # the same or a block apart
                    c.append(or_(eq(u, v), le(add(u, b), v), le(add(v, b), u)))
        if A.tile and B.tile:
            c += [eq(A.tile[0], B.tile[0]), eq(A.tile[1], B.tile[1])]
        elif A.tile or B.tile:
            return TRUE
        if A.path[:len(B.path)] != B.path and B.path[:len(A.path)] != A.path:
            return None
        c += over(A.r0, A.r1, B.r0, B.r1) + over(A.c0, A.c1, B.c0, B.c1)
        c = and_(*c)
        ok, w = infeasible(c)
        return None if ok else (w or TRUE)

    def check_races(self):
        done = {}
        A = [a for a in self.A if self.shared_(a)]
        for i, x in enumerate(A):
            for y in A[i:]:
                if "w" not in x["kind"] and "w" not in y["kind"]:
                    continue
                if root_(x["p"]) is not root_(y["p"]):
                    continue
                self.pair(x, y, done)
        for key, (where, msg) in sorted(done.items()):
            self.rep.check(msg is None, "race", key, where, msg)

    def shared_(self, a):
        r = root_(a["p"])
        return r.op in ("sym", "call") or r.op == "fld"

    def pair(self, x, y, done):
        d = self.depth(x, y)
        key = "%s:%s:%s" % (self.f["name"], self.name(x), self.name(y))
        # the same iterations of all common loops that hold barriers, or a later one of loop e
        bad = None
        both = and_(*(x["pc"] | y["pc"]))
        r1 = and_(lt(ONE, self.size))
        common = [self.ivs(x["nest"][:e]) for e in range(d + 1)]
        for e in range(d, -1, -1):
            same = e == d
            for p, q in ((x, y), (y, x)):
                if same and SWP.search(self.f["name"]):
                    continue
                if same and self.separated(p, q, d, True, r1):
                    continue
                if not same and self.separated(p, q, e, False, r1):
                    continue
                if same and self.at(p, d) > self.at(q, d):
                    continue        # the other order
                w = self.conflict(p, q, set(common[e]), [])
                if w is not None:
                    bad = (p, q, same, w)
        old = done.get(key)
        msg = None
        if bad:
            p, q, same, w = bad
            msg = "no barrier orders %s at line %d and %s at line %d%s, which two ranks may make to the same element of %s" % (
                self.verb(p), p["line"], self.verb(q), q["line"], "" if same else " in a later round", self.name(p).split("@")[0])
        if old is None or old[1] is None and msg is not None:
            done[key] = (self.where(x), msg)

    def verb(self, a):
        return {"r": "the reading", "w": "the writing", "rw": "the update"}[a["kind"]]

    def name(self, a):
        b = root_(a["p"])
        s = b.args[1] if b.op == "call" and b.args[0] in TILE else b
        return "%s@%s" % (s, a["kind"])


class Crew(Base):
    """the tasks that run the ranks: cs = (enclosing tasks, barriers set up)"""

    def __init__(self, names, own):
        self.names, self.own = names, own
        self.calls, self.joins, self.alloc = [], [], {}

    def init(self):
        return ((), frozenset())

    def inline(self, name):
        return name in self.own or Base.inline(self, name)

    def merge_cs(self, a, b):
        return (a[0], a[1] & b[1]) if a[0] == b[0] else interp.Client.merge_cs(self, a, b)

    def task_begin(self, ex, st, kind, clauses, node):
        shared = frozenset(v for c in clauses if c[0] == "shared" for v in c[2])
        num = tuple((c[0], c[2][0] if c[2] else None) for c in clauses if c[0] in ("num_tasks", "grainsize"))
        t = (kind, shared, num, len(ex.nest), frozenset(st.env), node[4])
        return interp.State(st.env, st.heap, st.pc, (st.cs[0] + (t,), st.cs[1]))

    def task_end(self, ex, before, states, kind, clauses, node):
        return before

    def omp(self, ex, st, kind, clauses, node):
        if kind in ("taskwait", "barrier"):
            self.joins.append((ex.pos(("join", ex.frame, node[4])), len(st.cs[0]), list(ex.nest)))
        return st

    def call(self, ex, st, name, args, node):
        if name == "plasma_barrier_init" and args[0].op == "addr":
            return st.with_cs((st.cs[0], st.cs[1] | {args[0].args[0]})) if hasattr(st, "with_cs") else \
                [(interp.State(st.env, st.heap, st.pc, (st.cs[0], st.cs[1] | {args[0].args[0]})), mk("ret", name))]
        if name == "malloc":
            self.num = getattr(self, "num", 0) + 1
            r = mk("ret", name, const(self.num), const(node[4]))
            self.alloc[r] = args[0]
            return [(st, r)]
        if name in self.names:
            self.calls.append(dict(name=name, a=args, pc=st.pc, nest=list(ex.nest), tasks=st.cs[0], ready=st.cs[1],
                                   where=ex.where(node[4]), pos=ex.pos(("call", name, ex.frame, node[4]))))
        return None


def show_(t):
    return t.args[0][-1] if t.op == "addr" else str(t)


def crews(F, rep, kernels):
    """{kernel: (index of the rank, of the count)}"""
    for name, f in sorted(F.funcs.items()):
        f = f[0] if isinstance(f, list) else f
        if not f.get("body") or f["name"] in kernels or not any(c in kernels for c in facts_calls(f["body"])):
            continue
        cl = Crew(kernels, {n for u, n in F.local if u == f["unit"]})
        ex = interp.Exec(F, cl)
        ex.run(f, None)
        for i, c in enumerate(cl.calls):
            ri, si, pi = kernels[c["name"]]
            rank, N = c["a"][ri], c["a"][si]
            key = "%s:%s%d" % (f["name"], c["name"], i)
            w = "%s (%s)" % (c["where"], f["name"])
            l = ex.loops.get(rank.uid)
            rep.check(l is not None and l["init"] is ZERO and l["step"] == 1, "crew", key + ":from", w,
                      "the ranks are not 0, 1, 2, ... (%s)" % show_(rank))
            if l is None:
                continue
            at = [x for x in c["pc"] if rank in set(subterms(x))]
            full = and_(le(ZERO, rank), lt(rank, N))
            rep.check(infeasible(and_(*at), le(N, rank))[0] and infeasible(and_(full, not_(and_(*at))))[0], "crew", key + ":count", w,
                      "the ranks that run are not those below %s, the number that the barrier counts" % show_(N))
            # one task for each rank
            depth = next((d for d, (p, s) in enumerate(c["nest"]) if s == l["site"]), None)
            inner = [t for t in c["tasks"] if depth is not None and (t[0] == "task" and t[3] == depth + 1 or t[0] == "taskloop" and t[3] == depth)]
            ok = len(inner) == 1 and (inner[0][0] == "task" or any(
                k == "num_tasks" and v is N or k == "grainsize" and v is ONE for k, v in inner[0][2]))
            rep.check(ok, "crew", key + ":task", w, "the ranks do not run in a task each")
            if not inner:
                continue
            t = inner[0]
            for x in c["a"]:
                if isinstance(x, Term) and x.op == "addr" and x.args[0] in t[4]:
                    rep.check(x.args[0] in t[1], "crew", "%s:shared:%s" % (key, show_(x)), w,
                              "each task has its own %s instead of the common one" % show_(x))
            for x in c["a"]:
                if isinstance(x, Term) and x in cl.alloc:
                    d = cl.alloc[x]
                    z = [y for y in subterms(d) if y.op == "sizeof"]
                    n = None
                    if len(z) == 1 and d.op == "poly" and all(z[0] in mon for mon, k in d.args[0]):
                        n = ZERO
                        for mon, k in d.args[0]:
                            y = const(k)
                            for v in mon:
                                y = y if v is z[0] else mul(y, v)
                            n = add(n, y)
                    elif len(z) == 1 and d is z[0]:
                        n = ONE
                    rep.check(n is not None and infeasible(and_(*c["pc"], lt(n, N)))[0], "crew", "%s:slots:%s" % (key, x.args[1]), w,
                              "an array with a slot for each rank has %s bytes" % d)
            b = c["a"][pi]
            rep.check(b.op == "addr" and b.args[0] in c["ready"], "crew", key + ":init", w, "the barrier is not set up before")
            outer = len(c["tasks"]) - 1
            rep.check(any(p > c["pos"] and d == outer and n == c["nest"][:len(n)] and (depth is None or len(n) <= depth)
                          for p, d, n in cl.joins), "crew", key + ":join", w,
                      "the task that set up the barrier may end, and with it the barrier, before all ranks have finished")


def root_(p):
    b = p.args[0] if p.op == "padd" else p
    if b.op == "call" and b.args[0] in TILE:
        return b.args[1]
    return b


def kernels_(F):
    out = []
    for name, f in sorted(F.funcs.items()):
        if isinstance(f, list):
            f = f[0]
        if name == WAIT or not f.get("body") or not name.startswith("plasma_core_"):
            continue
        if any(c == WAIT for c in facts_calls(f["body"])) or any("plasma_barrier_t" in f["types"][p[2]] for p in f["params"]):
            out.append(f)
    return out


def facts_calls(body):
    out = []

    def walk(x):
        if isinstance(x, list):
            if x[:1] == ["call"] and isinstance(x[1], str):
                out.append(x[1])
            for y in x:
                walk(y)
    walk(body)
    return out


class Wait(Base):
    def __init__(self):
        self.ev = []

    def init(self):
        return None

    def put(self, ex, st, what, loc, val, node):
        self.ev.append(dict(what=what, loc=loc, val=val, pc=st.pc, nest=list(ex.nest), line=line_of(node),
                            pos=ex.pos((what, ex.frame, line_of(node), str(loc), str(val)))))

    def load(self, ex, st, loc, node):
        if loc[0] == "mem":
            self.put(ex, st, "load", loc[2], node[0] != "mem" or "volatile" in ex.tyname(node[4]), node)
        return st

    def store(self, ex, st, loc, val, node):
        if loc[0] == "mem":
            self.put(ex, st, "store", loc[2], val, node)
        return st

    def call(self, ex, st, name, args, node):
        if name.startswith(("__sync", "__atomic", "atomic", "__c11_atomic")):
            p = args[0]
            self.put(ex, st, name, p.args[1] if p.op == "faddr" else str(p), tuple(args[1:]), node)
            return [(st, mk("ret", name, const(len(self.ev))))]
        return None


def barrier(F, rep):
    """round number and count of the barrier, by what is done to them"""
    f = F.funcs[WAIT]
    f = f[0] if isinstance(f, list) else f
    cl = Wait()
    ex = interp.Exec(F, cl)
    ex.run(f, None)
    size = sym(f["params"][1][1])
    w = "%s (%s)" % (f["file"], WAIT)
    loops = [e for e in cl.ev if e["nest"]]
    rnd = {e["loc"] for e in loops if e["what"] == "load" or "load" in e["what"]}
    ok = rep.check(len(rnd) == 1, "barrier", "spin", w, "the waiting threads do not watch one variable")
    if not ok:
        return
    rnd, = rnd
    adds = [e for e in cl.ev if re.search(r"fetch_add|add_and_fetch|add_fetch|fetch_and_add", e["what"]) and e["loc"] != rnd]
    rep.check(len(adds) == 1 and not adds[0]["nest"] and adds[0]["val"][:1] == (ONE,) and not adds[0]["pc"], "barrier", "count", w,
              "not every thread counts itself once, atomically")
    if len(adds) != 1:
        return
    a = adds[0]
    first = [e for e in cl.ev if e["loc"] == rnd and "load" in e["what"] and not e["nest"] and e["pos"] < a["pos"]]
    rep.check(bool(first), "barrier", "before", w, "the round is not read before the thread is counted, so that a round that ends in between is waited for")
    rep.check(all(e["val"] is True or e["what"] != "load" for e in loops), "barrier", "volatile", w,
              "the round that the waiting threads watch is not volatile")
    news = [e for e in cl.ev if e["loc"] == rnd and (e["what"] == "store" or "add" in e["what"])]
    rep.check(len(news) == 1 and not news[0]["nest"], "barrier", "announce", w, "the end of a round is not announced exactly once")
    cas = [e for e in cl.ev if "compare" in e["what"] and e["loc"] == a["loc"]]
    reset = [e for e in cl.ev if e["what"] == "store" and e["loc"] == a["loc"]]
    for n in news:
        last = [c for c in n["pc"] if any(x.op == "ret" for x in subterms(c))]
        if cas:
            rep.check(len(cas) == 1 and cas[0]["val"][:2] == (size, ZERO) and cas[0]["pos"] > a["pos"], "barrier", "last", w,
                      "the count does not go back to zero when, and only when, all have come")
            rep.check(bool(last) and all(not infeasible(and_(c, eq(x, ZERO)))[1] or infeasible(and_(c, eq(x, ZERO)))[0] for c in last
                                         for x in subterms(c) if x.op == "ret" and "compare" in x.args[0]), "barrier", "who", w,
                      "the end of a round is announced by another thread than the last one")
        else:
            rep.check(bool(reset) and all(r["val"] is ZERO and r["pos"] < n["pos"] for r in reset), "barrier", "last", w,
                      "the count is not back at zero before the end of the round is announced")
            rep.check(bool(last), "barrier", "who", w, "the end of a round is announced by other threads than the last one")
    g = F.funcs["plasma_barrier_init"]
    g = g[0] if isinstance(g, list) else g
    cl = Wait()
    ex = interp.Exec(F, cl)
    ex.run(g, None)
    zero = {e["loc"] for e in cl.ev if e["what"] == "store" and e["val"] is ZERO}
    rep.check(a["loc"] in zero, "barrier", "init", "%s (plasma_barrier_init)" % g["file"], "the count does not start at zero")


def which(f):
    """the parameters of a kernel with a barrier: rank, count, barrier"""
    cl = Acc(f["name"], set(), None)
    cl.own = OWN(f)
    ex = interp.Exec(FACTS[0], cl)
    ex.run(f, None)
    names = [p[1] for p in f["params"]]
    size = [str(w["extra"][1]) for w in cl.waits]
    bar = [str(w["extra"][0]) for w in cl.waits]
    if not size:
        return None
    size = max(sorted(set(size)), key=size.count)
    bar = max(sorted(set(bar)), key=bar.count)
    rank = next((n for n in ("rank", "tid", "id") if n in names), None)
    if size not in names or bar not in names or rank is None:
        return None
    return names.index(rank), names.index(size), names.index(bar)


FACTS = []


def OWN(f):
    return {n for u, n in FACTS[0].local if u == f["unit"]}


def run(F):
    rep = Report("C23", RULE)
    FACTS[:] = [F]
    ks = {}
    for f in kernels_(F):
        w = which(f)
        if not rep.check(w is not None, "collective", f["name"] + ":rank", f["name"], "one of several ranks, but never waits for the others"):
            continue
        ks[f["name"]] = w
        K = Kernel(F, f, rep, f["params"][w[0]][1], f["params"][w[1]][1])
        K.check_collective()
        K.check_races()
    crews(F, rep, ks)
    barrier(F, rep)
    return finish(rep, {"barrier": 6, "collective": 30, "race": 40, "crew": 40})
