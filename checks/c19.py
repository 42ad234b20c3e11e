"""C19: a tile descriptor describes a tiling of its matrix."""
import itertools
import facts, interp
from client import *
from common import *
from predicates import infeasible

GEO = {"plasma_tile_addr", "plasma_tile_addr_general", "plasma_tile_addr_general_band", "plasma_tile_addr_triangle", "plasma_tile_mmain",
       "plasma_tile_mmain_band", "plasma_tile_nmain", "plasma_tile_mview", "plasma_tile_nview", "plasma_desc_general_init",
       "plasma_desc_general_band_init", "plasma_desc_triangular_init",
       "plasma_desc_general_check", "plasma_desc_general_band_check"}
s = {x: sym("#" + x) for x in ("qm", "rm", "qn", "rn", "qi", "qj", "qe", "re", "qf", "rf")}
FIELDS = ("type uplo precision matrix A21 A12 A22 mb nb gm gn gmt gnt i j m n mt nt kl ku klt kut").split()


class Geo(Base):
    keep = GEO

    def __init__(self, pre=()):
        self.pre = pre
        self.sizes = []

    def call(self, ex, st, name, args, e):
        if name == "plasma_context_self":
            return [(st, sym("#context"))]
        if name in ("malloc", "calloc"):
            self.sizes.append((st, mul(*args) if name == "calloc" else args[0], ex.where(e[4])))
            return [(st, mk("new", len(self.sizes)))]
        if name == "free":
            return [(st, ZERO)]
        if name.startswith("plasma_") and "fatal" in name:
            return []
        if name in ERRFN or "error" in name:
            return [(st, ZERO)]
        if name == "plasma_element_size":
            return [(st, mk("call", name, *args))]
        if name == "plasma_desc_check":
            return [(st, mk("call", name, args[0]))]
        if name in GEO and all(x[0]["name"] != name for x in ex.stack):
            return ex.inline(ex.find(name), args, e, st)
        return None


class Norm:
    """divisions by the tile dimensions done, where the quotients and remainders of sizes and offsets are given"""
    def __init__(self, ctx, by):
        self.ctx, self.by, self.memo = ctx, by, {}

    def __call__(self, t):
        if t.uid in self.memo:
            return self.memo[t.uid]
        r = self.memo[t.uid] = self.do(t)
        return r

    def do(self, t):
        o, a = t.op, t.args
        if o in ("sym", "int", "true", "false", "gvar", "new"):
            return t
        if o == "poly":
            r = ZERO
            for mon, c in a[0]:
                x = const(c)
                for z in mon:
                    x = mul(x, self(z))
                r = add(r, x)
            return r
        if o in ("div", "mod"):
            x, b = self(a[0]), self(a[1])
            z = self.divide(x, b)
            if z is None:
                return div(x, b) if o == "div" else mod(x, b)
            return z if o == "div" else sub(x, mul(z, b))
        if o == "ite":
            c = self(a[0])
            if self.never(c):
                return self(a[2])
            if self.never(not_(c)):
                return self(a[1])
            return ite(c, self(a[1]), self(a[2]))
        if o in ("lt", "eq"):
            x = self(a[0])
            f = lt(x, ZERO) if o == "lt" else eq(x, self(a[1]) if len(a) > 1 else ZERO)
            return FALSE if self.never(f) else TRUE if self.never(not_(f)) else f
        if o == "not":
            return not_(self(a[0]))
        if o in ("and", "or"):
            return (and_ if o == "and" else or_)(*[self(x) for x in a])
        if o in ("min", "max"):
            return mnmx(o, *[self(x) for x in a])
        if o == "padd":
            return padd(self(a[0]), self(a[1]))
        if o == "fld":
            return fld(self(a[0]), a[1])
        return mk(o, *[self(x) if isinstance(x, Term) else x for x in a])

    def never(self, c):
        return infeasible(and_(self.ctx, c))[0]

    def divide(self, x, b):
        if b not in self.by:
            return None
        q = r = ZERO
        for mon, c in T._poly(x).items():
            y = const(c)
            mon = list(mon)
            whole = b in mon
            if whole:
                mon.remove(b)
            for z in mon:
                y = mul(y, z)
            q, r = (add(q, y), r) if whole else (q, add(r, y))
        for k in (0, -1, 1, 2, -2):
            if self.never(not_(and_(le(mul(const(k), b), r), lt(r, mul(const(k + 1), b))))):
                return add(q, const(k))
        return None


def contexts(rows=True, cols=True, end=True):
    """the cases of sizes and offsets: (what they are, condition)"""
    mb, nb = sym("mb"), sym("nb")
    base = [lt(ZERO, mb), lt(ZERO, nb)]
    free = [("qm", "rm", "qe", "re", "qi", mb)] * rows + [("qn", "rn", "qf", "rf", "qj", nb)] * cols
    alts = []
    for q, r, e, f, i, b in free:
        q, r, e, f, i = (s[x] for x in (q, r, e, f, i))
        both = [eq(r, ZERO), and_(lt(ZERO, r), lt(r, b))]
        ends = [eq(f, ZERO), and_(lt(ZERO, f), lt(f, b))] if end else [TRUE]
        alts.append([and_(le(ZERO, q), le(ZERO, e), le(ZERO, i), x, y) for x in both for y in ends])
    for c in itertools.product(*alts):
        yield and_(*base, *c)


def settings(b="mb"):
    mb, nb = sym("mb"), sym("nb")
    return {"lm": add(mul(s["qm"], mb), s["rm"]), "ln": add(mul(s["qn"], nb), s["rn"]), "i": mul(s["qi"], mb), "j": mul(s["qj"], nb),
            "m": sub(add(mul(s["qe"], mb), s["re"]), mul(s["qi"], mb)), "n": sub(add(mul(s["qf"], nb), s["rf"]), mul(s["qj"], nb))}


def tiled(t):
    """a descriptor's fields by quotients and remainders"""
    A, v = sym("A"), settings()
    m = {fld(A, "mb").uid: sym("mb"), fld(A, "nb").uid: sym("nb"), fld(A, "gm").uid: v["lm"], fld(A, "gn").uid: v["ln"],
         fld(A, "i").uid: v["i"], fld(A, "j").uid: v["j"], fld(A, "m").uid: v["m"], fld(A, "n").uid: v["n"],
         fld(A, "mt").uid: sub(add(s["qe"], ite(eq(s["re"], ZERO), ZERO, ONE)), s["qi"]),
         fld(A, "nt").uid: sub(add(s["qf"], ite(eq(s["rf"], ZERO), ZERO, ONE)), s["qj"])}
    return T.subst(t, m)


def same(N, a, b):
    """a and b have the same value in the case of N"""
    a, b = N(a), N(b)
    if a is b:
        return True
    for c, x in leaves(a):
        for d, y in leaves(b):
            if x is y:
                continue
            x_, y_ = (x, y)
            if x.op == "padd" and y.op == "padd" and x.args[0] is y.args[0]:
                x_, y_ = x.args[1], y.args[1]
            if not N.never(and_(c, d, not_(eq(x_, y_)))):
                return False
    return True


def where(f, line=None):
    return "%s:%d (%s)" % (f["file"], line or f["line"], f["name"])


def fn(F, name):
    f = F.funcs.get(name) or F.local.get(("*", name)) or F.local.get(("verif_headers.c", name))
    return f[0] if isinstance(f, list) else f


def results(F, f, args, pre=(), skip_fatal=True):
    cl = Geo(pre)
    ex = interp.Exec(F, cl)
    return [(st, v if v is not None else ZERO, line) for st, v, line in ex.run(f, args)], cl, ex


def tiles(F, rep):
    """extents and addresses of the tiles of a (view of a) matrix"""
    A, k, l = sym("A"), sym("k"), sym("l")
    mb, nb = sym("mb"), sym("nb")
    C = consts(F)
    typ = fld(A, "type")
    gen, band, up, lo = [eq(typ, const(C["Plasma" + x])) for x in ("General", "GeneralBand", "Upper", "Lower")]
    esz = mk("call", "plasma_element_size", fld(A, "precision"))
    t, u = add(k, s["qi"]), add(l, s["qj"])

    def at(off):
        return padd(fld(A, "matrix"), mul(off, esz))

    def address(t, u):
        """offset of a tile of the whole matrix"""
        inr, inc = lt(t, s["qm"]), lt(u, s["qn"])
        return ite(inr, ite(inc, mul(mul(mb, nb), add(t, mul(s["qm"], u))), add(fld(A, "A12"), mul(mul(mb, s["rn"]), t))),
                   ite(inc, add(fld(A, "A21"), mul(mul(nb, s["rm"]), u)), fld(A, "A22")))
    two = const(2)
    tri_u = mul(mul(mb, nb), add(t, div(mul(u, add(u, ONE)), two)))
    tri_l = mul(mul(mb, nb), add(sub(t, u), div(mul(u, sub(mul(two, s["qm"]), sub(u, ONE))), two)))

    def triangle(inner):
        return ite(lt(t, s["qm"]), ite(lt(u, s["qn"]), inner, add(fld(A, "A12"), mul(mul(mb, s["rn"]), t))),
                   ite(lt(u, s["qn"]), add(fld(A, "A21"), mul(mul(nb, s["rm"]), u)), fld(A, "A22")))
    mt = sub(add(s["qe"], ite(eq(s["re"], ZERO), ZERO, ONE)), s["qi"])
    nt = sub(add(s["qf"], ite(eq(s["rf"], ZERO), ZERO, ONE)), s["qj"])
    inm, inn = and_(le(ZERO, k), lt(k, mt)), and_(le(ZERO, l), lt(l, nt))
    inside = and_(lt(ZERO, mt), lt(ZERO, nt), le(ZERO, k), le(ZERO, l))
    main = lambda t, q, r, b: ite(lt(t, q), b, r)
    view = lambda k, n, r, b: ite(lt(k, sub(n, ONE)), b, ite(eq(r, ZERO), b, r))
    square = eq(mb, nb)
    bt = sub(add(k, sub(fld(A, "kut"), ONE)), l)
    nm = {"m": "rows", "n": "columns"}
    todo = [
        ("plasma_tile_mview", [A, k], and_(inm, inside), view(k, mt, s["re"], mb), "view", "the height of the part of a tile in the submatrix"),
        ("plasma_tile_nview", [A, l], and_(inn, inside), view(l, nt, s["rf"], nb), "view", "the width of the part of a tile in the submatrix"),
        ("plasma_tile_mmain", [A, k], and_(inm, inside, not_(band)), main(t, s["qm"], s["rm"], mb), "main", "the height of a tile"),
        ("plasma_tile_mmain", [A, k], and_(le(ZERO, k), band), mb, "main", "the height of a tile of a band matrix"),
        ("plasma_tile_mmain_band", [A, k, l], and_(inside, band), mb, "main", "the height of a tile of a band matrix"),
        ("plasma_tile_nmain", [A, l], and_(inn, inside), main(u, s["qn"], s["rn"], nb), "main", "the width of a tile"),
        ("plasma_tile_addr", [A, k, l], and_(inside, gen), at(address(t, u)), "address", "the address of a tile"),
        ("plasma_tile_addr", [A, k, l], and_(inside, band, square, eq(s["qi"], ZERO), eq(s["qj"], ZERO)), at(address(bt, l)), "address", "the address of a tile of a band matrix"),
        ("plasma_tile_addr", [A, k, l], and_(inside, up, square, eq(s["qm"], s["qn"]), eq(s["rm"], s["rn"])), at(triangle(tri_u)), "address",
         "the address of a tile of an upper triangular matrix"),
        ("plasma_tile_addr", [A, k, l], and_(inside, lo, square, eq(s["qm"], s["qn"]), eq(s["rm"], s["rn"])), at(triangle(tri_l)), "address",
         "the address of a tile of a lower triangular matrix"),
    ]
    for i, (name, args, when, want, kind, what) in enumerate(todo):
        f = fn(F, name)
        rets, cl, ex = results(F, f, args)
        for c in contexts():
            N = Norm(and_(c, when), (mb, nb))
            if N.never(TRUE):
                continue
            good, n = True, 0
            for st, v, line in rets:
                pc = N(tiled(pathcond(st)))
                if pc is FALSE or N.never(pc):
                    continue
                n += 1
                M = Norm(and_(c, when, pc), (mb, nb))
                z = {s["qi"].uid: ZERO, s["qj"].uid: ZERO} if eq(s["qi"], ZERO) in lits_(when) else {}
                good = good and same(M, T.subst(tiled(v), z), T.subst(tiled(want), z))
            rep.check(good and n, kind, "C19:%s:%d" % (name, i), where(f), "%s is not right when %s" % (what, case(c)))


def lits_(c):
    return c.args if c.op == "and" else (c,)


def case(c):
    out = []
    for r, x in (("rm", "the rows of the matrix"), ("rn", "its columns"), ("re", "the last row of the submatrix"), ("rf", "its last column")):
        out.append("%s %s whole tiles" % (x, "make" if infeasible(and_(c, not_(eq(s[r], ZERO))))[0] else "do not make"))
    return ", ".join(out)


def fields(F, rep):
    """what the initialization of a descriptor computes"""
    mb, nb = sym("mb"), sym("nb")
    C = consts(F)
    up_ = lambda r: ite(eq(r, ZERO), ZERO, ONE)
    K = {x: const(C["Plasma" + x]) for x in ("General", "GeneralBand", "Upper", "Lower", "Success")}
    for name, f in [(n, fn(F, n)) for n in ("plasma_desc_general_init", "plasma_desc_general_band_init", "plasma_desc_triangular_init",
                                            "plasma_desc_general_create", "plasma_desc_general_band_create", "plasma_desc_triangular_create")]:
        band, tri, create = "band" in name, "triangular" in name, "create" in name
        ps = [p[1] for p in f["params"]]
        for u in ("General", "Upper", "Lower"):
            if tri and u == "General" or not tri and not band and u != "General":
                continue
            args = [K[u] if p == "uplo" else sym(p) for p in ps]
            rets, cl, ex = results(F, f, args)
            for empty in (0, 1, 2):
                v = settings()
                pm, pn = [lt(ZERO, v["m"]), le(s["qi"], s["qe"])], [lt(ZERO, v["n"]), le(s["qj"], s["qf"])]
                pre = (pm + pn, pn, pm)[empty]
                if empty:
                    v["mn"[empty - 1]] = ZERO
                if band:
                    # offsets of band matrices are not used
                    v["i"] = v["j"] = ZERO
                if tri:
                    v.update(ln=v["lm"])
                if tri:
                    v = {x: T.subst(y, {nb.uid: mb}) for x, y in v.items()}
                sub_ = {sym(x).uid: y for x, y in v.items()}
                if tri:
                    sub_[nb.uid] = mb
                for c in contexts(cols=True, rows=True):
                    if band:
                        c = and_(c, eq(s["qi"], ZERO), eq(s["qj"], ZERO))
                    if tri:
                        c = T.subst(c, {nb.uid: mb, s["qn"].uid: s["qm"], s["rn"].uid: s["rm"]})
                    c = and_(c, *[T.subst(x, sub_) for x in pre])
                    if infeasible(c)[0]:
                        continue
                    qm, rm = s["qm"], s["rm"]
                    qn, rn, n_ = (qm, rm, mb) if tri else (s["qn"], s["rn"], nb)
                    w = dict(precision=sym("precision"), mb=mb, nb=n_, gm=v["lm"], gn=v["ln"], i=v["i"], j=v["j"], m=v["m"], n=v["n"])
                    w["gmt"], w["gnt"] = add(qm, up_(rm)), add(qn, up_(rn))
                    w["mt"] = ZERO if empty == 1 else sub(add(s["qe"], up_(s["re"])), div(v["i"], mb) if band else s["qi"])
                    w["nt"] = ZERO if empty == 2 else sub(add(s["qf"], up_(s["rf"])), div(v["j"], nb) if band else s["qj"])
                    w["kl"], w["ku"], w["klt"], w["kut"] = sub(v["m"], ONE), sub(v["n"], ONE), w["mt"], w["nt"]
                    w["type"] = K["GeneralBand"] if band else K[u]
                    if band:
                        kl, ku = sym("kl"), sym("ku")
                        t = lambda k, b: add(ONE, div(sub(add(k, b), ONE), b))
                        w.update(uplo=K[u], kl=kl, ku=ku, klt=ONE if u == "Upper" else t(kl, mb),
                                 kut=ONE if u == "Lower" else t(ku if u == "Upper" else add(kl, ku), nb))
                    if tri:
                        half = div(mul(qm, add(ONE, qm)), const(2))
                        w["A21"] = w["A12"] = mul(mul(mb, mb), half)
                    else:
                        w["A21"] = mul(mul(qm, mb), mul(qn, nb))
                        w["A12"] = add(mul(rm, mul(qn, nb)), w["A21"])
                    w["A22"] = add(mul(mul(qm, mb), rn), w["A12"])
                    if not create:
                        w["matrix"] = sym("matrix")
                    bad, n = [], 0
                    for st, val, line in rets:
                        if val is not ZERO:
                            continue
                        pc = T.subst(pathcond(st), sub_)
                        N = Norm(and_(c, pc), (mb, nb))
                        if N.never(TRUE):
                            continue
                        n += 1
                        for x, want in w.items():
                            got = ex.read(st, ("mem", sym("A"), (x,)))
                            if not same(N, T.subst(got, sub_), want):
                                bad.append(x)
                    rep.check(n and not bad, "field", "C19:%s:%s:%s" % (name, u, ",".join(sorted(set(bad)))), where(f),
                              "sets %s wrongly when %s" % (", ".join(sorted(set(bad))) or "nothing", case(c)))
                    for st, size, w_ in cl.sizes if create else ():
                        N = Norm(and_(c, T.subst(pathcond(st), sub_)), (mb, nb))
                        elt = {y for y in subterms(size) if y.op == "call" and y.args[0] == "plasma_element_size"}
                        need = mul(add(w["A22"], mul(rm, rn)), mk("call", "plasma_element_size", sym("precision")))
                        rep.check(same(N, T.subst(size, sub_), need), "size", "C19:%s:size" % name, "%s (%s)" % (w_, name),
                                  "does not allocate what the tiles take when %s" % case(c))
                    break_ = False
            if create:
                for st, val, line in rets:
                    ok = [x for x in st.pc if x.op == "not" and "new(" in str(x)]
                    rep.check(val is not ZERO or ex.read(st, ("mem", sym("A"), ("matrix",))).op == "new", "field", "C19:%s:matrix" % name,
                              where(f, line), "succeeds without storage")


def views(F, rep):
    f = fn(F, "plasma_desc_view")
    A = sym("A")
    mb, nb = sym("mb"), sym("nb")
    rets, cl, ex = results(F, f, [A, sym("i"), sym("j"), sym("m"), sym("n")])
    up_ = lambda r: ite(eq(r, ZERO), ZERO, ONE)
    pi, pj = sym("#pi"), sym("#pj")
    allpc = or_(*[pathcond(st) for st, v, l in rets])
    inb = and_(le(add(add(fld(A, "i"), sym("i")), sym("m")), fld(A, "gm")), le(add(add(fld(A, "j"), sym("j")), sym("n")), fld(A, "gn")))
    rep.check(infeasible(and_(allpc, not_(inb)))[0], "view", "C19:plasma_desc_view:outside", where(f), "accepts a view that is not inside the matrix")
    rep.check(infeasible(and_(inb, not_(allpc)))[0], "view", "C19:plasma_desc_view:inside", where(f), "refuses a view that is inside the matrix")
    for empty in (0, 1, 2):
        v = settings()
        S = {sym("i").uid: mul(pi, mb), sym("j").uid: mul(pj, nb), sym("m").uid: sub(v["m"], mul(pi, mb)), sym("n").uid: sub(v["n"], mul(pj, nb))}
        if empty:
            S[sym("mn"[empty - 1]).uid] = ZERO
        S.update({fld(A, "mb").uid: mb, fld(A, "nb").uid: nb, fld(A, "i").uid: v["i"], fld(A, "j").uid: v["j"]})
        pos = [lt(ZERO, S[sym(x).uid]) for x in "mn" if S[sym(x).uid] is not ZERO]
        for c in contexts():
            c = and_(c, *pos)
            bad = set()
            for st, val, line in rets:
                N = Norm(and_(c, T.subst(pathcond(st), S)), (mb, nb))
                if N.never(TRUE):
                    continue
                for x in FIELDS:
                    want = fld(A, x)
                    if x in "ij":
                        want = add(want, sym(x))
                    elif x in ("m", "n"):
                        want = sym(x)
                    elif x == "mt":
                        want = ZERO if empty == 1 else sub(add(s["qe"], up_(s["re"])), add(s["qi"], pi))
                    elif x == "nt":
                        want = ZERO if empty == 2 else sub(add(s["qf"], up_(s["rf"])), add(s["qj"], pj))
                    if not same(N, T.subst(fld(val, x), S), T.subst(want, S)):
                        bad.add(x)
            rep.check(rets and not bad, "view", "C19:plasma_desc_view:%s" % ",".join(sorted(bad)), where(f),
                      "the view has a wrong %s when %s" % (", ".join(sorted(bad)), case(c)))


def valid(F, rep):
    """a descriptor passes the check exactly when it describes a submatrix of tiles inside its matrix"""
    A = sym("A")
    C = consts(F)
    K = {x: const(C["Plasma" + x]) for x in ("General", "GeneralBand", "Upper", "Lower", "RealFloat", "RealDouble", "ComplexFloat", "ComplexDouble")}
    d = lambda x: fld(A, x)
    mb, nb = sym("mb"), sym("nb")
    ri, rj, qb, rb = sym("#ri"), sym("#rj"), sym("#qb"), sym("#rb")
    f = fn(F, "plasma_desc_check")
    rets, cl, ex = results(F, f, [A])
    for typ, uplo in [("General", None), ("Upper", None), ("Lower", None)] + [("GeneralBand", u) for u in ("General", "Upper", "Lower")] + [(None, None)]:
        S = {d("mb").uid: mb, d("nb").uid: nb, d("i").uid: add(mul(s["qi"], mb), ri), d("j").uid: add(mul(s["qj"], nb), rj)}
        t = d("type")
        if typ:
            S[t.uid] = K[typ]
        ok = [or_(*[eq(d("precision"), K[x]) for x in ("RealFloat", "RealDouble", "ComplexFloat", "ComplexDouble")]),
              lt(ZERO, d("mb")), lt(ZERO, d("nb")), le(ZERO, d("m")), le(ZERO, d("n")), le(d("n"), d("gn")),
              le(ZERO, d("i")), le(ZERO, d("j")), or_(eq(d("i"), ZERO), lt(d("i"), d("gm"))), or_(eq(d("j"), ZERO), lt(d("j"), d("gn"))),
              le(add(d("j"), d("n")), d("gn")), eq(ri, ZERO), eq(rj, ZERO)]
        if typ == "GeneralBand":
            S[d("uplo").uid] = K[uplo]
            k = add(mul(qb, mb), rb)
            if uplo == "Lower":
                S[d("kl").uid] = k
            else:
                S[d("ku").uid] = sub(k, mul(const(2), d("kl"))) if uplo == "General" else k
            ok += [le(add(mul(qb, mb), mb), d("gm")), lt(d("kl"), d("m")), lt(d("ku"), d("n"))]
        elif typ:
            ok += [le(d("m"), d("gm")), le(add(d("i"), d("m")), d("gm"))]
        else:
            ok = [FALSE]
        ok = T.subst(and_(*ok), S)
        c = and_(le(ZERO, ri), le(ZERO, rj), le(ZERO, rb), *([] if typ else [not_(eq(t, K[x])) for x in ("General", "GeneralBand", "Upper", "Lower")]))
        # remainders are below the divisor; a divisor that is not positive is refused before
        for pos in (1, 0):
            g = and_(c, *([lt(ZERO, mb), lt(ZERO, nb), lt(ri, mb), lt(rj, nb), lt(rb, mb)] if pos else [or_(le(mb, ZERO), le(nb, ZERO))]))
            for st, val, line in rets:
                for cc, v in leaves(val):
                    N = Norm(g, (mb, nb) if pos else ())
                    pc = N(T.subst(and_(pathcond(st), cc), S))
                    good = v.op == "int"
                    if v is ZERO:
                        good = infeasible(and_(g, pc, not_(ok)))[0]
                        msg = "accepts a descriptor that is not valid"
                    elif pos:
                        good = good and infeasible(and_(g, pc, ok))[0]
                        msg = "refuses a descriptor that is valid"
                    else:
                        continue
                    rep.check(good, "valid", "C19:plasma_desc_check:%s:%s:%s" % (typ, uplo, "accept" if v is ZERO else "refuse"), where(f, line),
                              "%s (%s%s)" % (msg, typ or "no known type", " " + uplo if uplo else ""))


def bytes_(v):
    z = {"int": 4, "float": 4, "double": 8, "char": 1}
    m = {x.uid: const(z[str(x.args[0])]) for x in subterms(v) if x.op == "sizeof" and str(x.args[0]) in z}
    return T.subst(v, m)


def others(F, rep):
    C = consts(F)
    f = fn(F, "plasma_element_size")
    for t, n in (("Byte", 1), ("Integer", 4), ("RealFloat", 4), ("RealDouble", 8), ("ComplexFloat", 8), ("ComplexDouble", 16)):
        rets, cl, ex = results(F, f, [const(C["Plasma" + t])])
        rep.check(rets and all(bytes_(v) is const(n) for st, v, l in rets if not infeasible(pathcond(st))[0]), "element", "C19:element:" + t, where(f),
                  "an element of %s does not have %d bytes" % (t, n))
    # block reflectors: a tile of T for each tile of A, two with trees
    f = fn(F, "plasma_descT_create")
    A = sym("A")
    for mode in ("FlatHouseholder", "TreeHouseholder"):
        calls = []

        class D(Geo):
            def call(self, ex, st, name, args, e):
                if name == "plasma_desc_general_create":
                    calls.append((st, args, ex.where(e[4])))
                    return [(st, mk("result", len(calls)))]
                return Geo.call(self, ex, st, name, args, e)
        ex = interp.Exec(F, D())
        rets = ex.run(f, [A, sym("ib"), const(C["Plasma" + mode]), sym("T")])
        rows, cols = mul(fld(A, "mt"), sym("ib")), mul(mul(fld(A, "nt"), fld(A, "nb")), const(2 if mode[0] == "T" else 1))
        want = [fld(A, "precision"), sym("ib"), fld(A, "nb"), rows, cols, ZERO, ZERO, rows, cols, sym("T")]
        got = [[x for x in a] for st, a, w in calls if not infeasible(pathcond(st))[0]]
        rep.check(len(got) == 1 and all(x is y for x, y in zip(got[0], want)), "reflectors", "C19:plasma_descT_create:" + mode, where(f),
                  "does not create a tile of block reflectors for each tile%s" % (" and each reduction" if mode[0] == "T" else ""))


RULE = ("each field of a tile descriptor and each extent and address computed from it equals its definition in every case of sizes that are or "
        "are not whole tiles; a descriptor is accepted exactly when it is valid")


def run(F):
    rep = Report("C19", RULE)
    tiles(F, rep)
    fields(F, rep)
    views(F, rep)
    valid(F, rep)
    others(F, rep)
    return finish(rep, {"view": 40, "main": 60, "address": 40, "field": 300, "size": 100, "valid": 30, "element": 6, "reflectors": 2})
