"""C10: every tile is addressed with the leading dimension and the extents of
its own tile row and column.

Each tile algorithm is analysed once for every combination of its options.
Extents of descriptors are translated into extents of the dimensions of the
operation (checks/shapes.py): plasma_tile_mview(C, m) becomes ext(M, m).  For
each tile handed to a kernel the leading dimension must be the allocated
height of that very tile, the extents the kernel is told must be the extents
of the tile, and the indices must lie inside the tile grid."""
import itertools
import interp
from client import *
from common import *
from predicates import *
import shapes
from shapes import NB, SHAPE, BAND, KERNEL

OPTS = {"side": ("Left", "Right"), "uplo": ("Upper", "Lower"), "trans": ("NoTrans", "Trans", "ConjTrans"),
        "transa": ("NoTrans", "Trans", "ConjTrans"), "transb": ("NoTrans", "Trans", "ConjTrans"),
        "diag": ("NonUnit", "Unit"), "norm": ("MaxNorm", "OneNorm", "InfNorm", "FrobeniusNorm"),
        "colrow": ("Columnwise", "Rowwise")}
UPLO3 = ("lacpy", "laset", "lascl")
RES = {"tbsm": {"side": ("Left",)}, "hetrf_aasen": {"uplo": ("Lower",)}, "sytrf_aasen": {"uplo": ("Lower",)}}
# bulge chasing and the application of its reflectors work on LAPACK storage
OUTSIDE = ("gbbrd_static", "larft_blgtrd", "unmqr_blgtrd", "ormqr_blgtrd")
TILE, MM, MMB, NM, MV, NV, VIEW = ("plasma_tile_addr", "plasma_tile_mmain", "plasma_tile_mmain_band", "plasma_tile_nmain",
                                   "plasma_tile_mview", "plasma_tile_nview", "plasma_desc_view")


def kernel(name):
    for p in ("plasma_core_omp_", "plasma_core_"):
        if name.startswith(p):
            return name[len(p) + 1:]
    return None


class Calls(Base):
    def __init__(self):
        self.out = {}

    def init(self):
        return None

    def call(self, ex, st, name, args, e):
        if name.startswith("plasma_core_"):
            k = (e[4], name, tuple(args), st.pc)
            if k not in self.out:
                self.out[k] = [(f["name"], f["file"]) for f, _ in ex.stack]
        return None


def combos(F, f, short):
    """option values (names) and the argument terms"""
    cs = consts(F)
    axes = []
    for _, p, t in f["params"]:
        if p in OPTS and f["types"][t].replace("const ", "") in ("plasma_enum_t", "int", "unsigned int"):
            v = RES.get(short, {}).get(p) or OPTS[p]
            if p == "uplo" and short in UPLO3:
                v = v + ("General",)
            axes.append([(p, x) for x in v])
    for c in itertools.product(*axes):
        o = dict(c)
        yield o, [const(cs["Plasma" + o[p]]) if p in o else sym(p) for _, p, t in f["params"]]


def callis(t, name):
    return isinstance(t, Term) and t.op == "call" and t.args[0] == name


def base(d):
    """the descriptor a value derives from"""
    while isinstance(d, Term) and d.op in ("upd", "call"):
        if d.op == "upd":
            d = d.args[0]
        elif d.args[0] == VIEW:
            d = d.args[1]
        else:
            return None
    return d.args[0] if isinstance(d, Term) and d.op == "sym" else None


def strip(d):
    while isinstance(d, Term) and d.op == "upd":
        d = d.args[0]
    return d


class Norm:
    """translation of terms into extents of the dimensions of the operation"""

    def __init__(self, shape):
        self.shape = shape
        self.map = {}
        self.sub = {}
        for x, (r, c) in shape.items():
            d = sym(x)
            for f, k in (("mt", r), ("nt", c)):
                self.sub[fld(d, f).uid] = ONE if k == "1" else sym("#t" + k)
            for f, k in (("m", r), ("n", c)):
                self.sub[fld(d, f).uid] = NB if k == "1" else sym("#d" + k)
            for f in ("mb", "nb"):
                self.sub[fld(d, f).uid] = NB
        for x in ("T",):
            if x in shape:
                del self.sub[fld(sym(x), "mb").uid]
        self.memo = {}

    def cls(self, d, row):
        b = base(d)
        s = self.shape.get(b)
        if s is None:
            return None
        return s[0 if row else 1]

    def __call__(self, t):
        if not isinstance(t, Term):
            return t
        r = self.memo.get(t.uid)
        if r is not None:
            return r
        if t.op == "call" and t.args[0] in (MV, NV) and strip(t.args[1]).op == "sym":
            k = self.cls(t.args[1], t.args[0] == MV)
            if k == "1":
                r = NB
            elif k:
                r = mk("ext", sym("#" + k), self(t.args[2]))
        if r is None:
            m = dict(self.sub)
            # innermost extents first
            for x in subterms(t):
                if x is not t and x.op == "call" and x.args[0] in (MV, NV):
                    y = self(x)
                    if y is not x:
                        m[x.uid] = y
            if t.op == "call" and t.args[0] in (MV, NV):
                r = mk("call", t.args[0], t.args[1], subst(t.args[2], m))
            else:
                r = subst(t, m)
        self.memo[t.uid] = r
        return r


def tiles(k):
    return ONE if k == "1" else sym("#t" + k)


def facts(t, norm):
    """arithmetic facts about the terms of a path condition"""
    out = []
    for x in subterms(t):
        if x.op in ("min", "max"):
            for a in x.args:
                out.append(le(x, a) if x.op == "min" else le(a, x))
        if x.op == "div" and x.args[1] is NB:
            for c, v in leaves(x.args[0]):
                vs = v.args if v.op in ("min", "max") else (v,)
                if v.op == "max" and ZERO in vs:
                    out.append(or_(not_(c), le(ZERO, x)))
                if v.op == "min" or len(vs) == 1:
                    for k in "MNK":
                        if sub(sym("#d" + k), ONE) in vs:
                            out.append(or_(not_(c), le(x, sub(tiles(k), ONE))))
    return [x for x in out if x is not TRUE]


def flat(c, pc):
    """facts about indices recovered from one running over all tiles, t/rows and t%rows with t < rows*columns"""
    out = []
    for x in subterms(c):
        if x.op in ("div", "mod") and len(x.args) == 2 and not is_const(x.args[1]) and x.args[1] in map(tiles, "MNK"):
            t, r = x.args
            if not infeasible(pc, lt(t, ZERO))[0]:
                continue
            if x.op == "mod":
                out += [le(ZERO, x), lt(x, r)]
            else:
                out.append(le(ZERO, x))
                out += [lt(x, k) for k in map(tiles, "MNK") if infeasible(pc, le(mul(r, k), t))[0]]
    return [x for x in out if x is not TRUE]


class Ctx:
    def __init__(self, norm, pc):
        self.n = norm
        raw = norm(and_(*pc))
        self.pc = and_(raw, *([le(ZERO, tiles(k)) for k in "MNK"] + facts(raw, norm)))
        self.memo = {}
        self.reps = {}

    def never(self, c):
        if c is FALSE:
            return True
        if c.uid not in self.memo:
            self.memo[c.uid] = infeasible(and_(self.pc, *flat(c, self.pc)), c)[0]
        return self.memo[c.uid]

    def given(self, c):
        x = object.__new__(Ctx)
        x.n, x.pc, x.memo, x.reps = self.n, and_(self.pc, self.n(c)), {}, {}
        return x

    def within(self, b, i):
        """tile row i of b lies inside the allocated matrix"""
        A = sym(b)
        return self.given(self.n(le(add(div(fld(A, "i"), fld(A, "mb")), i), div(fld(A, "gm"), fld(A, "mb")))))

    def full(self, t):
        """replace extents of tiles that are certainly not the last one"""
        m = {}
        ex = []
        for x in subterms(t):
            if x.op == "ext":
                k = x.args[0].args[0][1:]
                if self.never(le(sub(tiles(k), ONE), x.args[1])):
                    m[x.uid] = NB
                else:
                    # the representative of equal indices
                    for y in self.reps.setdefault(k, []):
                        if y is x or self.never(ne_(x.args[1], y.args[1])):
                            m[x.uid] = y
                            break
                    else:
                        self.reps[k].append(x)
            elif callis(x, MM) or callis(x, NM):
                k = self.n.cls(x.args[1], callis(x, MM))
                if k and k in "MNK" and self.never(le(sub(tiles(k), ONE), self.n(x.args[2]))):
                    m[x.uid] = NB
        t = subst(t, m) if m else t
        m = {}
        for x in subterms(t):
            # no tile is larger than NB
            if x.op == "min" and NB in x.args and any(y.op == "ext" for y in x.args):
                m[x.uid] = mnmx("min", *[y for y in x.args if y is not NB])
            elif x.op == "min" and len(x.args) == 2:
                for a, b in (x.args, x.args[::-1]):
                    if self.never(lt(b, a)):
                        m[x.uid] = a
                        break
        return subst(t, m) if m else t

    def same(self, a, b):
        if a is b:
            return True
        for c1, x in leaves(a):
            for c2, y in leaves(b):
                if x is y:
                    continue
                c = and_(c1, c2)
                if c is FALSE:
                    continue
                g = self.given(c) if c is not TRUE else self
                if g.pc is FALSE or g.never(TRUE):
                    continue
                if g.full(x) is not g.full(y):
                    return False
        return True

    def atmost(self, a, b):
        """a <= b for extents"""
        if self.same(a, b):
            return True
        b = self.full(b)
        for _, v in leaves(a):
            v = self.full(v)
            d = sub(v, b)
            if is_const(d) and d.args[0] <= 0:
                continue
            if b is NB and (v.op == "ext" or v.op == "min" and any(y.op == "ext" for y in v.args)
                            or v.op == "poly" and any(y.op == "ext" and is_const(sub(v, y)) and sub(v, y).args[0] <= 0
                                                      for y in subterms(v))):
                continue
            return False
        return True

    def square(self, x, y, er, ec):
        """x = y = the smaller extent of the tile"""
        return self.same(x, y) and (self.same(x, er) and self.same(ec, NB) or self.same(x, ec) and self.same(er, NB))


def tile_of(p):
    """(descriptor, i, j) of a pointer to a tile"""
    off = ZERO
    if p.op == "padd":
        p, off = p.args
    if callis(p, TILE):
        return p.args[1], p.args[2], p.args[3], off
    return None


def isband(ctx, short, b, F):
    c = consts(F)
    if b in BAND.get(short, ()):
        return True
    t = ctx.n(fld(sym(b), "type"))
    return ctx.never(ne_(t, const(c["PlasmaGeneralBand"])))


def ne_(a, b):
    return not_(eq(a, b))


class Routine:
    def __init__(self, F, rep, f, short):
        self.F, self.rep, self.f, self.short = F, rep, f, short
        self.seen = {}

    def check(self, good, kind, where, key, msg):
        """one obligation per construct: it must hold for every combination of options"""
        k = (kind, key)
        if k in self.seen:
            self.seen[k][0] = self.seen[k][0] and good
            if not good and not self.seen[k][2]:
                self.seen[k][2] = msg
        else:
            self.seen[k] = [good, where, None if good else msg]

    def flush(self):
        for (kind, key), (good, where, msg) in self.seen.items():
            self.rep.check(good, kind, "C10:%s:%s:%s" % (self.f["name"], kind, key), where, msg)

    def run(self):
        for o, args in combos(self.F, self.f, self.short):
            shape = {x: v for x, v in SHAPE[self.short](o).items()}
            cl = Calls()
            ex = interp.Exec(self.F, cl)
            ex.run(self.f, args)
            n = Norm(shape)
            for (line, name, a, pc), stack in cl.out.items():
                self.site(n, line, name, a, pc, o, stack)
        self.flush()

    def site(self, n, line, name, a, pc, o, stack):
        k = kernel(name)
        file = stack[-1][1]
        where = "%s:%d (%s)" % (file, line, self.f["name"])
        ctx = Ctx(n, pc)
        opt = " ".join("%s=%s" % x for x in sorted(o.items()))
        if k in ("getrf", "geswp", "heswp", "syswp", "getrf_col"):
            self.views(ctx, a, k, where, line, opt)
            return
        if k in ("lacpy_lapack2tile_band", "lacpy_tile2lapack_band"):
            self.bandcopy(n, ctx, k, list(a), where, "%d:%s" % (self.ordinal(line, name, a), k), opt)
            return
        f = KERNEL.get(k)
        if f is None:
            raise AnalysisBroken("no operand table for kernel %s called at %s" % (name, where))
        ops = f(list(a))
        if self.short in LAYOUT and k == "lacpy":
            self.layout(n, ctx, o, ops, where, "%d:%s" % (self.ordinal(line, name, a), k), opt)
        vt = None
        for op in ops:
            if op.kind == "V" or op.kind == "A1" or (k in ("geqrt", "gelqt") and op.name == "A"):
                vt = tile_of(op.p)
        if k in ("tsqrt", "ttqrt", "tslqt", "ttlqt"):
            vt = tile_of([x for x in ops if x.name == "A2"][0].p)
        for op in ops:
            t = tile_of(op.p)
            if t is None:
                continue
            d, i, j, off = t
            b = base(d)
            txt = "%s %s %s" % (k, op.name, show(op.p)[:120])
            key = "%d:%s:%s" % (self.ordinal(line, name, a), k, op.name)
            if b is None or (b not in n.shape and strip(d).op == "sym"):
                continue
            view = callis(strip(d), VIEW)
            if off is not ZERO and not (self.short in LAYOUT and tilestart(n(off), n) is ZERO):
                continue
            if op.kind == "T":
                tb = fld(sym(b), "mb")
                self.check(op.ld is tb and op.r is tb, "factor", where, key,
                           "passes ld %s and block size %s for the T factors %s (%s)" % (show(op.ld), show(op.r), txt, opt))
                # the tree variants keep the factors of pairs in the second half of T
                half = self.short.endswith("_tree") and k[:2] in ("ts", "tt")
                vj = vt and (add(vt[2], div(fld(sym(b), "nt"), const(2))) if half else vt[2])
                self.check(vt is not None and (vt[1], vj) == (i, j), "factor-tile", where, key,
                           "uses %s with the reflectors of tile (%s, %s)" % (txt, show(vt[1]), show(vt[2])) if vt else txt)
                continue
            zero = any(x is ZERO for x in (op.r, op.c)) or (k in ("gemm", "herk", "syrk") and a[5 if k == "gemm" else 4] is ZERO
                                                            and op.mode == "r")
            # leading dimension
            ld = op.ld
            if ld.op == "max" and ONE in ld.args:
                ld = mnmx("max", *[x for x in ld.args if x is not ONE])
            if zero and "w" not in op.mode:
                pass
            elif view and b not in n.shape:
                # workspaces consist of full tiles
                good = self.ldok(ld, d, i) or n(ld) is NB or callis(ld, MM) and base(ld.args[1]) == b
                self.check(good, "ld", where, key, "passes leading dimension %s for %s (%s)" % (show(ld), txt, opt))
            else:
                good = all(self.ldleaf(ctx.given(c) if c is not TRUE else ctx, v, d, i, j, b) for c, v in leaves(ld))
                self.check(good, "ld", where, key, "passes leading dimension %s for %s (%s)" % (show(ld), txt, opt))
            if view or b not in n.shape:
                continue
            if zero:
                continue
            tree = any(x.op == "out" for y in (i, j) for x in [y] + list(subterms(y)))
            # extents
            rk, ck = n.shape[b]
            er = NB if rk == "1" else mk("ext", sym("#" + rk), n(i))
            ec = NB if ck == "1" else mk("ext", sym("#" + ck), n(j))
            r, c = n(op.r), n(op.c)
            if k in ("lauum", "trtri", "potrf", "hegst") or self.short in ("lauum", "trtri", "getri_aux"):
                r, c = [mnz(x) for x in (r, c)]
            if rk == "1" or ck == "1":
                good = ctx.atmost(r, er) and ctx.atmost(c, ec)
            elif op.kind == "V":
                good = self.refl(ctx, op, ops, r, c, er, ec, k)
            elif op.kind == "A1":
                good = True
                qr = k.endswith("qrt")
                good = ctx.same(c, ec) if qr else ctx.same(r, er)
            elif k in ("trsm", "trmm") and op.name == "A":
                good = ctx.same(r, er) and ctx.same(c, ec) or ctx.square(r, c, er, ec)
            elif k == "laset" and op.name == "A":
                good = (self.short == "laset") or (ctx.atmost(r, er) and ctx.atmost(c, ec))
            elif self.short.endswith("trf_aasen") or self.short == "getri_aux" and k == "laset":
                good = ctx.atmost(r, er) and ctx.atmost(c, ec)
            elif self.short in ("gecpy_tile2lapack_band",):
                good = ctx.same(r, er) and ctx.same(c, ec)
            elif self.short in ("ge2desc", "desc2ge", "tr2desc", "desc2tr", "gb2desc"):
                good = self.copy(ctx, n, r, c, er, ec)
            else:
                good = ctx.same(r, er) and ctx.same(c, ec)
            if self.short not in ("pb2desc", "desc2pb"):
                self.check(good, "extent", where, key, "tells the kernel %s x %s for %s (%s)" % (show(op.r), show(op.c), txt, opt))
            # indices
            if tree:
                continue
            i2, j2 = n(i), n(j)
            for x, kk in ((i2, rk), (j2, ck)):
                if self.short.endswith("_aasen"):
                    continue
                good = ctx.never(lt(x, ZERO)) and ctx.never(le(tiles(kk), x))
                self.check(good, "index", where, key + (".row" if x is i2 else ".col"),
                           "uses tile index %s outside the matrix in %s (%s)" % (show(x), txt, opt))

    def layout(self, n, ctx, o, ops, where, key, opt):
        """the LAPACK side of a layout translation: tile (i, j) is the block
        whose first element is (i*NB, j*NB)"""
        band = LAYOUT[self.short]
        t = u = None
        for op in ops:
            x = tile_of(op.p)
            if x:
                t = x
            elif root(op.p).op == "sym":
                u = op
        ps = [p for _, p, _ in self.f["params"]]
        q = [x for x in range(len(ps)) if self.f["types"][self.f["params"][x][2]].endswith("*")][0]
        pname, lname = ps[q], ps[q + 1]
        if t is None or u is None:
            self.check(False, "layout", where, key, "does not copy between a tile and the user's matrix (%s)" % opt)
            return
        d, i, j, off = t
        i, j, lda = n(i), n(j), sym(lname)
        want = add(mul(NB, i), mul(mul(lda, NB), j))
        if band:
            want = add(want, mul(const(-1), mul(NB, j)))
            if o.get("uplo") == "Upper":
                want = add(want, NB)
        got = tilestart(n(u.p.args[1] if u.p.op == "padd" else ZERO), n)
        ld = lda if not band else sub(lda, ONE)
        self.check(root(u.p) is sym(pname) and got is want and u.ld is ld and tilestart(n(off), n) is ZERO, "layout", where, key,
                   "pairs tile (%s, %s)%s with %s, leading dimension %s (%s)" % (
                       show(i), show(j), " offset " + show(off) if off is not ZERO else "", show(u.p), show(u.ld), opt))

    def bandcopy(self, n, ctx, k, a, where, key, opt):
        u, i, j, m, w, nb, kl, ku = a[:8]
        x, y = (a[8:10], a[10:12]) if "lapack2tile" in k else (a[10:12], a[8:10])
        A = sym("A")
        c = consts(self.F)
        t = tile_of(y[0])
        good = t is not None and base(t[0]) == "A" and t[1] is i and t[2] is j and t[3] is ZERO
        good = good and n(nb) is NB and kl is fld(A, "kl") and ku is fld(A, "ku") and u is fld(A, "uplo")
        good = good and callis(y[1], MMB) or callis(y[1], MM)
        lname = [p for _, p, _ in self.f["params"] if p.startswith("ld")][0]
        pname = [p for _, p, _ in self.f["params"] if p.startswith("p")][0]
        lda = sym(lname)
        good = good and x[1] is sub(lda, ONE) and root(x[0]) is sym(pname)
        # the diagonal is row ku, 0 or kl+ku of the band storage
        want = add(add(mul(NB, n(i)), mul(const(-1), mul(NB, n(j)))), mul(mul(lda, NB), n(j)))
        got = n(x[0].args[1] if x[0].op == "padd" else ZERO)
        diag = {"PlasmaUpper": fld(A, "ku"), "PlasmaLower": ZERO, "PlasmaGeneral": add(fld(A, "kl"), fld(A, "ku"))}
        for nm, r in diag.items():
            g = subst(got, {n(fld(A, "uplo")).uid: const(c[nm])})
            good = good and g is add(want, n(r))
        # extents: what remains of the matrix, at most one tile
        for z, ii, dim in ((m, i, "m"), (w, j, "n")):
            rest = sub(fld(A, dim), mul(fld(A, dim + "b"), ii))
            good = good and z in (mnmx("min", fld(A, dim + "b"), rest), mk("call", MV if dim == "m" else NV, A, ii))
        self.check(good, "layout", where, key, "pairs the wrong parts of the band storage and the tiles (%s)" % opt)

    def ordinal(self, line, name, a):
        # identify the call within its function independently of line numbers
        tab = self.__dict__.setdefault("ords", {})
        k = (name, line)
        if k not in tab:
            tab[k] = len([1 for x in tab if x[0] == name])
        return tab[k]

    def ldok(self, ld, d, i):
        return callis(ld, MM) and ld.args[1] is d and ld.args[2] is i

    def ldleaf(self, ctx, ld, d, i, j, b):
        if callis(ld, MM) and strip(ld.args[1]) is strip(d) and ctx.same(ctx.n(ld.args[2]), ctx.n(i)):
            return True
        if isband(ctx, self.short, b, self.F):
            return ctx.n(ld) is NB or callis(ld, MMB) or callis(ld, MM) and (
                base(ld.args[1]) == b or base(ld.args[1]) not in ctx.n.shape)
        if self.short == "laset":
            return self.setld(ctx.within(b, i), ld, b, i)
        # a tile row that is not the last one is full
        if ctx.full(ctx.n(ld)) is NB:
            k = ctx.n.shape.get(b, ("?",))[0]
            return k in "MNK" and ctx.never(le(sub(tiles(k), ONE), ctx.n(i)))
        return False

    def setld(self, ctx, ld, b, i):
        """laset spells the allocated height out"""
        A, n = sym(b), ctx.n
        q = div(fld(A, "gm"), fld(A, "mb"))
        idx = add(div(fld(A, "i"), fld(A, "mb")), i)
        if n(ld) is NB:
            # not beyond the full tiles
            return ctx.never(n(and_(le(q, idx), le(idx, q))))
        rest = (sub(fld(A, "gm"), mul(fld(A, "mb"), q)), mod(fld(A, "gm"), fld(A, "mb")))
        return n(ld) in [n(x) for x in rest] and ctx.never(n(lt(idx, q)))

    def refl(self, ctx, op, ops, r, c, er, ec, k):
        qr = k.endswith("qr")
        # extent across the reflectors
        if not ctx.same(r if qr else c, er if qr else ec):
            return False
        kk = c if qr else r
        ek = ec if qr else er
        if k in ("unmqr", "ormqr", "unmlq", "ormlq"):
            return ctx.same(kk, mnmx("min", er, ec))
        if ctx.same(kk, ek):
            return True
        # never more reflectors than rows of the two tiles together
        a1 = [x for x in ops if x.name == "A1"][0]
        if kk.op == "min" and ek in kk.args:
            return all(x is ek or x.op in ("ext", "poly") for x in kk.args)
        return False

    def copy(self, ctx, n, r, c, er, ec):
        return ctx.same(lift(lastext(r, n)), er) and ctx.same(lift(lastext(c, n)), ec)

    def views(self, ctx, a, k, where, line, opt):
        n = ctx.n
        for v in a:
            d = strip(v)
            if not callis(d, VIEW):
                continue
            b = base(d)
            if b not in n.shape:
                continue
            key = "%d:%s:view" % (self.ordinal(line, "view", a), k)
            rk, ck = n.shape[b]
            band = b in BAND.get(self.short, ())
            i, j, m, w = [n(x) for x in d.args[2:6]]
            gr = band or self.span(ctx, i, m, rk)
            gc = self.span(ctx, j, w, ck)
            self.check(gr and gc, "view", where, key, "takes the view %s (%s)" % (show(d), opt))

    def span(self, ctx, i, m, k):
        """[i, i+m) is the whole dimension, one tile, or everything from a tile on"""
        dim = sym("#d" + k)
        if ctx.same(add(i, m), dim):
            return True
        p = div_nb(i)
        return p is not None and ctx.same(m, mk("ext", sym("#" + k), p)) and ctx.never(lt(p, ZERO)) \
            and ctx.never(le(tiles(k), p))


def div_nb(i):
    """p with i == p*NB"""
    if i is ZERO:
        return ZERO
    if i is NB:
        return ONE
    if i.op != "poly":
        return None
    r = ZERO
    for mon, c in i.args[0]:
        mon = list(mon)
        if NB not in mon:
            return None
        mon.remove(NB)
        p = const(c)
        for x in mon:
            p = mul(p, x)
        r = add(r, p)
    return r


def mnz(x):
    return x


# translations between LAPACK storage and tiles: is the LAPACK side a band?
LAYOUT = {"ge2desc": False, "desc2ge": False, "tr2desc": False, "desc2tr": False, "gb2desc": False,
          "gecpy_tile2lapack_band": True}


def lift(t):
    """move a single conditional out of a sum"""
    for x in subterms(t):
        if x.op == "ite":
            return ite(x.args[0], lift(subst(t, {x.uid: x.args[1]})), lift(subst(t, {x.uid: x.args[2]})))
    return t


def tilestart(t, n):
    """offsets for views that start on a tile boundary"""
    return lastext(t, n)


def lastext(t, n):
    """the spelled out extents of the layout translations, for views that start on a tile boundary"""
    m = {}
    for x in subterms(t):
        if x.op == "mod" and n(x.args[1]) is NB:
            if x.args[0].op == "fld" and x.args[0].args[1] in ("i", "j"):
                m[x.uid] = ZERO
            for k in "MNK":
                y = sub(sub(n(x.args[0]), sym("#d" + k)), const(-1))
                if y is ZERO or y.op == "fld" and y.args[1] in ("i", "j"):
                    m[x.uid] = sub(mk("ext", sym("#" + k), sub(tiles(k), ONE)), ONE)
    return subst(t, m) if m else t


def run(F):
    import tilework
    rep = Report("C10", "for every tile handed to a kernel by a tile algorithm, under every combination of options: the "
                 "leading dimension is plasma_tile_mmain of the same descriptor and tile row, the extents passed equal "
                 "the extents of the tile, the indices lie inside the tile grid, T factors belong to their reflectors")
    rep.assumptions = ["descriptors passed together have the same square tile size", "views start on a tile boundary"]
    for n, f, short in tilework.algorithms(F):
        if short in OUTSIDE:
            continue
        if short not in SHAPE:
            raise AnalysisBroken("no shapes for " + n)
        Routine(F, rep, f, short).run()
    return finish(rep, {'ld': 1000, 'extent': 1000, 'index': 1500, 'factor': 50, 'layout': 40, 'factor-tile': 50, 'view': 10})
