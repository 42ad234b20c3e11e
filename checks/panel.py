"""The kernels on tile columns: LU panel and row or column interchanges.  What all ranks of a panel do together is
compared with the factorization that one would do (C16); that they may do it together is C23."""
import re
import algs, interp
from client import *
from predicates import *
from c16 import Model, Events, Cmp, Ref, Undecided, constants, op_name, combos, compare, pre, flush
from c22 import unroll, equations

A = sym("A")
DIM = lambda x: fld(A, x)


def ld(t):
    return mk("call", "plasma_tile_mmain", A, t)


def mview(t):
    return mk("call", "plasma_tile_mview", A, t)


def nview(t):
    return mk("call", "plasma_tile_nview", A, t)


def tile(t, c=ZERO):
    return mk("tile", A, t, c)


def E(t, i, j, c=ZERO):
    return ("e", tile(t, c), i, j)


def el(t, i, j, c=ZERO):
    return mk("el", tile(t, c), i, j)


class Panel(Model):
    def __init__(self, F, f, args, rank, size):
        own = {n for u, n in F.local if u == f["unit"]}
        cl = Events(f["name"], own)
        ex = interp.Exec(F, cl)
        ex.run(f, args)
        self.statics = constants(f["body"])
        self.params = {p[1] for p in f["params"]}
        self.ex, self.cl, self.sites, self.uses, self.guards = ex, cl, [], None, []
        self.rank, self.size = rank and sym(rank), size and sym(size)
        for c in cl.calls:
            if c["what"].endswith("lamch_work"):
                if c["a"][:1] != [const(ord("S"))]:
                    raise Undecided("machine constant")
                continue
            v = self.value(c["a"][1]) if op_name(c["what"]) == "scal" else ZERO
            while v.op == "call" and len(v.args) == 2:
                v = v.args[1]
            if v.op == "op" and v.args[:2] == ("/", ONE):
                self.guards.append((c, "safe", any(self.safe(self.value(x), v.args[2]) for x in c["pc"]), "the reciprocal of a pivot is "
                                    "taken when the pivot is not less than the safe minimum (below it the reciprocal overflows)"))
            self.event_(op_name(c["what"]), c, [self.arg(x) for x in c["a"]])
        seek = []
        for c in cl.stores:
            p, v = c["a"]
            t, v = self.elem(p), self.value(v)
            name = t[1].args[0] if t[1].op == "sym" else None
            if name in ("max_idx", "max_val"):
                seek.append((name, t, v, c))
                continue
            if v.op == "op" and v.args[0] == "/" and v.args[1] is mk("el", *t[1:]):
                self.event_("div", c, [t, v.args[2]])
            else:
                old = mk("el", *t[1:])
                if old in set(subterms(v)) and old not in set(subterms(sub(v, old))):
                    self.event_("add", c, [t, sub(v, old)])
                else:
                    self.event_("put", c, [t, v])
                    if name == "info":
                        zero = [eq(mk("el", sym(x), ZERO, ZERO), ZERO) for x in ("info", "max_val")]
                        pc = {self.value(x) for x in c["pc"]}
                        self.guards.append((c, "info", all(z in pc for z in zero), "the row of a zero pivot is recorded when the pivot "
                                            "found is zero and none was recorded before"))
        self.search(seek)

    def search(self, seek):
        """a candidate for the pivot with its position"""
        idx = [x for x in seek if x[0] == "max_idx"]
        for name, t, v, c in seek:
            if name == "max_idx":
                continue
            o = [x for x in idx if x[3]["nest"] == c["nest"] and x[1][2:] == t[2:] and x[3]["pc"] == c["pc"]]
            if len(o) != 1:
                # the conditions may differ by what the first of the two assignments changed
                o = [x for x in idx if x[3]["nest"] == c["nest"] and x[1][2:] == t[2:] and abs(x[3]["pos"] - c["pos"]) <= 2]
            if len(o) != 1:
                raise Undecided("candidate without position")
            at = t[2]
            self.guards.append((c, "larger", any(self.larger(self.value(x), v, mk("el", *t[1:])) for x in c["pc"]) or
                                v.op == "el" and at is self.rank and o[0][2] is ZERO,
                                "a candidate replaces the pivot found so far when it is larger"))
            if v.op == "el" and v.args[0].op == "tile":
                if at is self.rank:
                    self.event_("seek", c, [v, o[0][2]])
                    continue
            elif v.op == "el" and at is ZERO and v.args[0] is sym("max_val") and o[0][2].op == "el" and o[0][2].args[0] is sym("max_idx"):
                self.event_("reduce", c, [v.args[1], o[0][2].args[1]])
                continue
            raise Undecided("candidate %s" % v)

    def larger(self, c, new, old):
        """c says that new is larger"""
        neg = c.op == "not" and c.args[0].op == "lt"
        if not neg and c.op != "lt":
            return False
        p = (c.args[0] if neg else c).args[0]
        k = {x.args[1]: (q if neg else -q) for mon, q in (p.args[0] if p.op == "poly" else ()) for x in mon
             if len(mon) == 1 and x.op == "call" and "abs" in x.args[0]}
        return k.get(new, 0) > 0 and k.get(old, 0) < 0

    def safe(self, c, pivot):
        """c says that the pivot is not less than the safe minimum"""
        neg = c.op == "not" and c.args[0].op == "lt"
        if not neg and c.op != "lt":
            return False
        p = (c.args[0] if neg else c).args[0]
        sign = {}
        for mon, q in p.args[0] if p.op == "poly" else ():
            for x in mon:
                if len(mon) == 1:
                    y = "pivot" if x.op == "call" and "abs" in x.args[0] and x.args[1] is pivot else \
                        "min" if x.op == "ret" and "lamch" in str(x.args[0]) else None
                    sign[y] = -q if neg else q
        return sign.get("min", 0) > 0 and sign.get("pivot", 0) < 0

    def elem(self, p):
        b, off = (p.args[0], p.args[1]) if p.op == "padd" else (p, ZERO)
        if b.op == "sym":
            return ("e", b, off, ZERO)
        if not (b.op == "call" and b.args[0] == "plasma_tile_addr" and b.args[1] is A):
            raise Undecided("address " + str(p)[:80])
        t = b.args[2]
        row = col = ZERO
        d = off.args[0] if off.op == "poly" else () if off is ZERO else (((off,), 1),) if not is_const(off) else (((), off.args[0]),)
        for mon, k in d:
            y, inld = const(k), False
            for z in mon:
                if not inld and z is ld(t):
                    inld = True
                else:
                    y = mul(y, z)
            if inld:
                col = add(col, y)
            else:
                row = add(row, y)
        return ("e", tile(t, b.args[3]), self.value(row), self.value(col))

    def value(self, v):
        m = {}
        for x in subterms(v):
            if x.op == "gvar" and x.args[0] in self.statics:
                m[x.uid] = self.statics[x.args[0]]
            elif x.op == "load" and x.args[1] == ():
                t = self.elem(x.args[0])
                m[x.uid] = mk("el", *t[1:])
            elif x.op == "clob":
                t = self.elem(x.args[0])
                m[x.uid] = mk("el", *t[1:])
            elif x.op == "phi" and len(x.args) > 3 and x.args[1] == "heap":
                t = self.elem(x.args[2])
                m[x.uid] = mk("el", *t[1:])
            elif x.op == "iv":
                l = self.ex.loops.get(x.uid)
                if l and l["how"] <= {"addr", "&"}:
                    m[x.uid] = l["init"]
        return subst(v, m) if m else v

    def arg(self, a):
        if not isinstance(a, Term):
            return a
        if a.op == "padd" or a.op == "call" and a.args[0] == "plasma_tile_addr":
            t = self.elem(a)
            return ("e", subst(t[1], self.inner(t[1]))) + t[2:]
        return self.value(a)

    def inner(self, t):
        return {x.uid: mk("el", *self.elem(x.args[0])[1:]) for x in subterms(t) if x.op in ("load", "clob")}

    def event_(self, kernel, c, args):
        nest, ivs, strided = [], [], []
        m, ranked = {}, set()
        for pos, site in c["nest"]:
            for l in self.ex.loops.values():
                if l["site"] != site:
                    continue
                v = l["iv"]
                s = l["stride"]
                if l["step"]:
                    nest.append((pos, site, v, l["step"]))
                    ivs.append(v)
                elif isinstance(s, Term) and s in (ONE, const(-1)):
                    nest.append((pos, site, v, 1 if s is ONE else -1))
                    ivs.append(v)
                    m[v.uid] = le(l["init"], v) if s is ONE else le(v, l["init"])
                elif isinstance(s, Term) and s is self.size and l["init"] is self.rank:
                    # all ranks together take every index
                    nest.append((pos, site, v, 1))
                    ivs.append(v)
                    m[v.uid] = le(ZERO, v)
                    ranked.add(v)
                elif isinstance(s, Term) and not is_const(s):
                    nest.append((pos, site, v, 1))
                    ivs.append(v)
                    strided.append((l, 1))
                else:
                    raise Undecided("loop")
        pc = list(m.values())
        for x in c["pc"]:
            y = self.value(x)
            if any(z.op == "iv" and z not in ivs for z in subterms(y)) or self.rank is not None and self.rank in set(subterms(y)):
                continue
            if any(z.op in ("el", "phi", "op", "load", "clob") or z.op == "call" and "cabs1" in str(z.args[0]) for z in subterms(y)):
                continue
            pc.append(y)
        pc = and_(*pc)
        if self.rank is not None and eq(self.rank, ZERO) in c["pc"]:
            args = [tuple(subst(y, {self.rank.uid: ZERO}) if isinstance(y, Term) else y for y in a) if isinstance(a, tuple) else
                    subst(a, {self.rank.uid: ZERO}) if isinstance(a, Term) else a for a in args]
        if self.rank is not None and any(self.rank in set(subterms(y)) for a in args for y in (a if isinstance(a, tuple) else (a,)) if isinstance(y, Term)):
            raise Undecided("rank in an argument")
        for a in args:
            for y in a if isinstance(a, tuple) else (a,):
                if isinstance(y, Term) and any(v.op == "iv" and v not in ivs for v in subterms(y)):
                    raise Undecided("a variable of a loop")
        nest, ivs, pc, args = unroll(nest, ivs, pc, args)
        nest, ivs, pc, args = self.blocks(strided, nest, ivs, pc, args)
        self.sites.append(dict(kernel=kernel, args=args, modes=[""] * len(args), pc=pc, nest=nest, pos=c["pos"],
                               where="%s:%d" % (c["file"], c["line"]), ivs=ivs))

    def blocks(self, strided, nest, ivs, pc, args):
        for l, d in strided:
            s = l["stride"]
            if s.op != "sym" or not (l["init"] is ZERO or l["init"] is s):
                raise Undecided("stride")
            v = mk("iv", l["iv"].args[0], l["iv"].args[1] + "#" + s.args[0])
            nest, ivs, pc, args = self.sub4({l["iv"].uid: v}, nest, ivs, pc, args)
            pc = and_(pc, le(l["init"], v))
        return nest, ivs, pc, args


# ---- references
def getrf(r):
    ib, mn = sym("ib"), mnmx("min", DIM("m"), DIM("n"))
    with r.stride(mn, ib) as k:
        kb = mnmx("min", sub(mn, k), ib)
        with r.up(k, add(k, kb)) as j:
            piv = el(ZERO, j, j)
            # the pivot: its column below the diagonal
            r("seek", piv, ZERO)
            with r.up(0, DIM("mt")) as l:
                with r.when(eq(l, ZERO)), r.up(1, sub(mview(ZERO), j)) as i:
                    r("seek", el(ZERO, add(j, i), j), i)
                with r.when(not_(eq(l, ZERO))), r.up(0, mview(l)) as i:
                    r("seek", el(l, i, j), sub(add(mul(DIM("mb"), l), i), j))
            with r.up(1, sym("size")) as i:
                r("reduce", i, i)
            jp = add(j, mk("el", sym("max_idx"), ZERO, ZERO))
            r("put", ("e", sym("ipiv"), j, ZERO), add(sub(jp, k), ONE))
            r("put", ("e", sym("info"), ZERO, ZERO), add(j, ONE))
            t = div_(jp)
            r("swap", kb, E(ZERO, j, k), ld(ZERO), E(t, mod_(jp), k), ld(t))
            with r.up(0, DIM("mt")) as l:
                rest = sub(sub(add(k, kb), j), ONE)
                inv = mk("op", "/", ONE, piv)
                row = (E(ZERO, j, add(j, ONE)), ld(ZERO))
                with r.when(eq(l, ZERO)):
                    with r.up(1, sub(mview(ZERO), j)) as i:
                        r("div", E(ZERO, add(j, i), j), piv)
                    n0 = sub(sub(mview(ZERO), j), ONE)
                    r("scal", n0, inv, E(ZERO, add(j, ONE), j), ONE)
                    r("geru", 102, n0, rest, const(-1), E(ZERO, add(j, ONE), j), ONE, *row, E(ZERO, add(j, ONE), add(j, ONE)), ld(ZERO))
                with r.when(not_(eq(l, ZERO))):
                    with r.up(0, mview(l)) as i:
                        r("div", E(l, i, j), piv)
                    r("scal", mview(l), inv, E(l, ZERO, j), ONE)
                    r("geru", 102, mview(l), rest, const(-1), E(l, ZERO, j), ONE, *row, E(l, ZERO, add(j, ONE)), ld(l))
        # interchanges and update to the right
        with r.up(k, add(k, kb)) as i:
            with r.when(lt(i, DIM("m"))):
                r("add", ("e", sym("ipiv"), i, ZERO), k)
        right = sub(sub(nview(ZERO), k), kb)
        k1 = add(k, kb)
        with r.up(k, k1) as i:
            p = sub(mk("el", sym("ipiv"), i, ZERO), ONE)
            r("swap", right, E(ZERO, i, k1), ld(ZERO), E(div_(p), mod_(p), k1), ld(div_(p)))
        r("trsm", 102, 141, 122, 111, 132, kb, right, ONE, E(ZERO, k, k), ld(ZERO), E(ZERO, k, k1), ld(ZERO))
        with r.up(0, DIM("mt")) as i:
            u = (E(ZERO, k, k1), ld(ZERO))
            with r.when(eq(i, ZERO)):
                r("gemm", 102, 111, 111, sub(mview(ZERO), k1), right, kb, const(-1), E(ZERO, k1, k), ld(ZERO), *u, ONE, E(ZERO, k1, k1), ld(ZERO))
            with r.when(not_(eq(i, ZERO))):
                r("gemm", 102, 111, 111, mview(i), right, kb, const(-1), E(i, ZERO, k), ld(i), *u, ONE, E(i, ZERO, k1), ld(i))
    # interchanges to the left
    with r.stride(mn, ib) as k, r.when(le(ib, k)), r.up(k, mn) as i:
        p = sub(mk("el", sym("ipiv"), i, ZERO), ONE)
        r("swap", ib, E(div_(i), mod_(i), sub(k, ib)), ld(div_(i)), E(div_(p), mod_(p), sub(k, ib)), ld(div_(p)))


def div_(x, by="mb"):
    return mk("div", x, DIM(by))


def mod_(x, by="mb"):
    return mk("mod", x, DIM(by))


def geswp(r):
    k1, k2 = sub(sym("k1"), ONE), sym("k2")
    row, fwd = r.o["colrow"] == "Rowwise", r.o["incx"] == "1"
    with (r.up if fwd else r.down)(k1, k2) as m:
        p = sub(mk("el", sym("ipiv"), m, ZERO), ONE)
        if row:
            r("swap", DIM("n"), E(div_(m), mod_(m), ZERO), ld(div_(m)), E(div_(p), mod_(p), ZERO), ld(div_(p)))
        else:
            r("swap", DIM("m"), E(ZERO, ZERO, mod_(m, "nb"), div_(m, "nb")), ONE, E(ZERO, ZERO, mod_(p, "nb"), div_(p, "nb")), ONE)


class PCmp(Cmp):
    def touched(self, s):
        k, a = s["kernel"], s["args"]
        out = []

        def rect(t, m, n, mode):
            b = t[1]
            if b.op == "tile":
                exact = not any(x.op in ("el", "div", "mod") for y in b.args[1:] for x in subterms(y))
                rows = not any(x.op in ("el", "div", "mod") for x in subterms(t[2]))
                T_ = (b.args[1], b.args[1]) if exact else (ZERO, None)
                R = (t[2], None if m is None else add(t[2], sub(m, ONE))) if rows else (ZERO, None)
                out.append((("A",) + R + (t[3], None if n is None else add(t[3], sub(n, ONE))) + T_, mode))
            else:
                out.append(((b.args[0], t[2], t[2], ZERO, ZERO, ZERO, ZERO), mode))
        vals = list(a)
        if k == "swap":
            row = a[2] is not ONE
            for t in (a[1], a[3]):
                rect(t, ONE if row else a[0], a[0] if row else ONE, "w")
        elif k == "scal":
            rect(a[2], a[0], ONE, "w")
        elif k in ("geru", "ger"):
            rect(a[4], a[1], ONE, "r"), rect(a[6], ONE, a[2], "r"), rect(a[8], a[1], a[2], "w")
        elif k == "trsm":
            rect(a[8], a[5], a[5], "r"), rect(a[10], a[5], a[6], "w")
        elif k == "gemm":
            rect(a[7], a[3], a[5], "r"), rect(a[9], a[5], a[4], "r"), rect(a[12], a[3], a[4], "w")
        elif k in ("div", "put", "add"):
            rect(a[0], ONE, ONE, "w")
        elif k in ("seek", "reduce"):
            out.append((("max", ZERO, ZERO, ZERO, ZERO, ZERO, ZERO), "w"))
        for v in vals:
            for y in (v[1:] if isinstance(v, tuple) else (v,)):
                for x in subterms(y) if isinstance(y, Term) else ():
                    if x.op == "el":
                        if x.args[0].op == "sym" and x.args[0].args[0].startswith("max_"):
                            out.append((("max", ZERO, ZERO, ZERO, ZERO, ZERO, ZERO), "r"))
                        else:
                            rect(("e",) + x.args, ONE, ONE, "r")
        return out

    def same(self, s, u):
        if s["kernel"] == "put":
            return Cmp.same(self, s, u)
        e = equations(s["args"], u["args"])
        if s["kernel"] == "swap" and s["where"] != u["where"]:
            return None         # rows are interchanged at several stages
        if e is not None and s["kernel"] == "swap":
            # the same rows: the same pivot
            e += [(x, y) for x, y in zip(*[sorted({x.args[1] for t in z["args"] if isinstance(t, tuple) for y in t[1:] for x in subterms(y)
                                                   if x.op == "el" and x.args[0] is sym("ipiv")}, key=str) for z in (s, u)])]
        return e

    def accumulates(self, s):
        return s["kernel"] in ("seek", "reduce")


DO = {"getrf": getrf, "geswp": geswp}


def facts_(o):
    return [lt(ZERO, sym("ib")), lt(ZERO, sym("size")), lt(ZERO, DIM("m")), lt(ZERO, DIM("n")), lt(ZERO, DIM("mt")), lt(ZERO, DIM("mb")),
            lt(ZERO, mview(ZERO)), le(mview(ZERO), DIM("m")), eq(nview(ZERO), DIM("n")),
            or_(eq(mview(ZERO), DIM("m")), le(DIM("n"), mview(ZERO)))]


def judge(rep, F, f, k, cs, real, seen):
    ps = [p[1] for p in f["params"]]
    for o in [{}] if k == "getrf" else [dict(colrow=c, incx=i) for c in ("Rowwise", "Columnwise") for i in ("1", "-1")]:
        args = None
        if o:
            val = dict(colrow=const(cs["Plasma" + o["colrow"]]), incx=const(int(o["incx"])))
            args = [val.get(x, sym(x)) for x in ps]
        M = Panel(F, f, args, "rank" if "rank" in ps else None, "size" if "size" in ps else None)
        for i, (c, what, good, text) in enumerate(M.guards):
            rep.check(good, "guard", "C16:%s:%s:%d" % (f["name"], what, i), "%s:%d (%s)" % (c["file"], c["line"], f["name"]), "not so: " + text)
        rec = Ref(o, {}, real, cs)
        DO[k](rec)
        for s in rec.sites if real else ():
            s["kernel"] = {"geru": "ger"}.get(s["kernel"], s["kernel"])
        compare(rep, f, M, rec, real, " ".join("%s=%s" % x for x in sorted(o.items())), seen, o, PCmp, facts_(o))
