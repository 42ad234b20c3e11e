"""The tile algorithms as loop nests over tiles, written from the mathematics
of the operations: which kernel is applied to which tiles with which options
and scalars, in which order.  Extents and leading dimensions are C10's."""
from terms import *
from shapes import NB

MT, NT, KT = sym("#tM"), sym("#tN"), sym("#tK")
TILES = {"M": MT, "N": NT, "K": KT, "1": ONE}

# kernel -> positions of the compared arguments; r/w: tiles read / written
KERN = {
    "gemm": "0 1 5 6r 8r 10 11w", "hemm": "0 1 4 5r 7r 9 10w", "symm": "0 1 4 5r 7r 9 10w",
    "herk": "0 1 4 5r 7 8w", "syrk": "0 1 4 5r 7 8w", "her2k": "0 1 4 5r 7r 9 10w", "syr2k": "0 1 4 5r 7r 9 10w",
    "trmm": "0 1 2 3 6 7r 9w", "trsm": "0 1 2 3 6 7r 9w", "potrf": "0 2w", "lauum": "0 2w", "trtri": "0 1 3w",
    "geadd": "0 3 4r 6 7w", "tradd": "0 1 4 5r 7 8w", "lacpy": "0 1 4r 6w", "lascl": "0 1 2 5w",
    "lag2c": "2r 4w", "lag2z": "2r 4w", "lag2s": "2r 4w", "lag2d": "2r 4w", "laset": "0 7 8 9w",
    "geqrt": "3w 5w", "gelqt": "3w 5w", "tsqrt": "3w 5w 7w", "tslqt": "3w 5w 7w", "ttqrt": "3w 5w 7w", "ttlqt": "3w 5w 7w",
    "unmqr": "0 1 6r 8r 10w", "unmlq": "0 1 6r 8r 10w", "ormqr": "0 1 6r 8r 10w", "ormlq": "0 1 6r 8r 10w",
    "tsmqr": "0 1 8w 10w 12r 14r", "tsmlq": "0 1 8w 10w 12r 14r", "ttmqr": "0 1 8w 10w 12r 14r",
    "ttmlq": "0 1 8w 10w 12r 14r",
    # norms: s is the slot of the workspace a tile's contribution goes to
    "lange": "0 1 2 3r 6s", "lange_aux": "0 1 2 3r 5s", "lantr": "0 1 2 3 4 5r 8s", "lantr_aux": "0 1 2 3 4 5r 7s",
    "lanhe": "0 1 2 3r 6s", "lansy": "0 1 2 3r 6s", "lanhe_aux": "0 1 2 3r 5s", "lansy_aux": "0 1 2 3r 5s",
    "gessq": "0 1 2r 4s 5s", "hessq": "0 1 2r 4s 5s", "syssq": "0 1 2r 4s 5s", "trssq": "0 1 2 3 4r 6s 7s",
    "gessq_aux": "0 1r 2r 3s", "syssq_aux": "0 1 2r 3r 4s",
    "zamax": "0 1 2 3r 5s", "camax": "0 1 2 3r 5s", "amax": "0 1 2 3r 5s",
    "geswp": "0 1w 2 3 4 5", "getrf": "0w 1",
    "lacpy_lapack2tile_band": "0 1 2 3 4 5 6 7 8r 10w", "lacpy_tile2lapack_band": "0 1 2 3 4 5 6 7 8r 10w",
}


# algorithms called for a view
KERN.update(pgeqrf="0w 1w", pgelqf="0w 1w", punmqr="0 1 2r 3r 4w", punmlq="0 1 2r 3r 4w", pormqr="0 1 2r 3r 4w", pormlq="0 1 2r 3r 4w")
# the table of operations of a reduction tree: kernel, column, row, row it is eliminated with
OPS = sym("#ops")
KERN["tree"] = "0 1"


# tile columns of T, the first half for the factorizations of tiles, the second for those of pairs
TNT = sym("#nt2")


def field(layout, off):
    """(entry, field) at an offset of the table"""
    import terms
    for q, (size, what) in layout.items():
        d = terms._poly(sub(off, const(q)))
        if all(v % size == 0 for v in d.values()):
            return terms._unpoly({k: v // size for k, v in d.items()}), what
    return None


def entry(i, q):
    return mk("call", "tree", i, q if isinstance(q, Term) else const(q))


# matches any argument
ANY = sym("*")
# routines that use a kernel in a way of their own
SPECIAL = {("langb", "lange"): "0 1 2 3r"}


class Rec:
    """records a loop nest"""

    def __init__(self, o, shape, real, enums):
        self.o, self.shape, self.real, self.enums = o, shape, real, enums
        self.nest, self.conds, self.sites, self.n = [], [], [], 0

    def __getattr__(self, x):
        if x in self.__dict__.get("o", {}):
            return self.o[x]
        raise AttributeError(x)

    class Loop:
        def __init__(self, r, lo, hi, step):
            r.n += 1
            self.r, self.lo, self.hi = r, lo, hi
            self.v = mk("iv", "ref", "i%d" % r.n)
            r.nest.append((r.n, "ref%d" % r.n, self.v, step))

        def __enter__(self):
            r = self.r
            lo, hi = [x if isinstance(x, Term) else const(x) for x in (self.lo, self.hi)]
            r.conds += [le(lo, self.v), lt(self.v, hi)]
            return self.v

        def __exit__(self, *a):
            self.r.nest.pop()
            del self.r.conds[-2:]

    def up(self, lo, hi):
        return Rec.Loop(self, lo, hi, 1)

    def down(self, lo, hi):
        """hi-1, hi-2, ..., lo"""
        return Rec.Loop(self, lo, hi, -1)

    class When:
        def __init__(self, r, c):
            self.r, self.c = r, c

        def __enter__(self):
            self.r.conds.append(self.c)

        def __exit__(self, *a):
            self.r.conds.pop()

    def when(self, c):
        return Rec.When(self, c)

    def __call__(self, kernel, *args):
        self.n += 1
        a = []
        for x in args:
            if isinstance(x, str):
                x = self.flag(x)
            elif isinstance(x, (int, float)):
                x = const(x)
            elif isinstance(x, tuple):
                x = tuple(y if isinstance(y, Term) or not isinstance(y, int) else const(y) for y in x)
            a.append(x)
        self.sites.append(dict(kernel=kernel, args=a, pc=and_(*self.conds), nest=list(self.nest), pos=self.n, where=kernel))

    def flag(self, x):
        if x == "ConjTrans" and self.real:
            x = "Trans"
        return const(self.enums["Plasma" + x])

    def rows(self, d):
        return TILES[self.shape[d][0]]

    def cols(self, d):
        return TILES[self.shape[d][1]]


def t(d, i, j):
    return ("t", d, i, j)


alpha, beta = sym("alpha"), sym("beta")


def first(k, x):
    return ite(eq(k, ZERO), x, ONE)


def gemm(R):
    C = R.cols("C")
    with R.up(0, MT) as m, R.up(0, NT) as n:
        with R.when(or_(eq(alpha, ZERO), eq(KT, ZERO))):
            R("scale", beta, t("C", m, n))
        band = eq(fld(sym("A"), "type"), const(R.enums["PlasmaGeneralBand"]))
        with R.when(and_(not_(eq(alpha, ZERO)), lt(ZERO, KT))):
            with R.when(not_(band)):
                with R.up(0, KT) as k:
                    R("gemm", R.transa, R.transb, alpha, t("A", m, k) if R.transa == "NoTrans" else t("A", k, m),
                      t("B", k, n) if R.transb == "NoTrans" else t("B", n, k), first(k, beta), t("C", m, n))
            # a band matrix A: the tiles that meet the band
            kl, ku = fld(sym("A"), "kl"), fld(sym("A"), "ku")
            if R.transa == "NoTrans":
                lo = div(mnmx("max", ZERO, NB * m - kl), NB)
                hi = div(mnmx("min", sym("#dK") - 1, NB * m + NB - 1 + ku), NB) + 1
            else:
                lo = div(mnmx("max", ZERO, NB * m - ku), NB)
                hi = div(mnmx("min", sym("#dK") - 1, NB * m + NB - 1 + kl), NB) + 1
            with R.when(band):
                with R.up(lo, hi) as k:
                    R("gemm", R.transa, R.transb, alpha, t("A", m, k) if R.transa == "NoTrans" else t("A", k, m),
                      t("B", k, n) if R.transb == "NoTrans" else t("B", n, k), ite(eq(k, lo), beta, ONE), t("C", m, n))
                with R.when(le(hi, lo)):
                    R("scale", beta, t("C", m, n))


def hemm(R, conj="ConjTrans", name="hemm"):
    left = R.side == "Left"
    with R.up(0, MT) as m, R.up(0, NT) as n, R.up(0, MT if left else NT) as k:
        b = first(k, beta)
        d = m if left else n
        with R.when(eq(k, d)):
            R(name, R.side, R.uplo, alpha, t("A", k, k), t("B", k, n) if left else t("B", m, k), b, t("C", m, n))
        # tile (d, k) of A is stored when it lies in the given triangle
        for c, low in ((lt(k, d), True), (lt(d, k), False)):
            with R.when(c):
                stored = (R.uplo == "Lower") == low
                if left:
                    R("gemm", "NoTrans" if stored else conj, "NoTrans", alpha, t("A", m, k) if stored else t("A", k, m),
                      t("B", k, n), b, t("C", m, n))
                else:
                    R("gemm", "NoTrans", conj if stored else "NoTrans", alpha, t("B", m, k),
                      t("A", n, k) if stored else t("A", k, n), b, t("C", m, n))


def symm(R):
    hemm(R, "Trans", "symm")


def rankk(name, conj):
    def f(R):
        no = R.trans == "NoTrans"
        inner = R.cols("A") if no else R.rows("A")

        def off(n, g):
            with R.up(n + 1, NT) as m:
                g(m, n) if R.uplo == "Lower" else g(n, m)
        with R.up(0, NT) as n:
            with R.when(eq(inner, ZERO)):
                R("trscale", R.uplo, beta, t("C", n, n))
                off(n, lambda i, j: R("scale", beta, t("C", i, j)))
            A = lambda x, k: t("A", x, k) if no else t("A", k, x)
            B = lambda x, k: t("B", x, k) if no else t("B", k, x)
            two = name.endswith("2k")

            def tile(i, j):
                with R.up(0, inner) as k:
                    ta, tb = ("NoTrans", conj) if no else (conj, "NoTrans")
                    R("gemm", ta, tb, alpha, A(i, k), B(j, k) if two else A(j, k), first(k, beta), t("C", i, j))
                    if two:
                        R("gemm", ta, tb, cj(alpha, R) if conj == "ConjTrans" else alpha, B(i, k), A(j, k), ONE, t("C", i, j))
            with R.when(lt(ZERO, inner)):
                with R.up(0, inner) as k:
                    if two:
                        R(name, R.uplo, R.trans, alpha, A(n, k), B(n, k), first(k, beta), t("C", n, n))
                    else:
                        R(name, R.uplo, R.trans, alpha, A(n, k), first(k, beta), t("C", n, n))
                off(n, tile)
    return f


def cj(x, R):
    return x if R.real else mk("call", "conj", x)


def trmm(R):
    left, up, no = R.side == "Left", R.uplo == "Upper", R.trans == "NoTrans"
    D = MT if left else NT
    # row (column) d of the result uses rows (columns) beyond d, or before it
    beyond = (up == no) == left
    with (R.up if beyond else R.down)(0, D) as d, R.up(0, NT if left else MT) as x:
        B = (lambda i: t("B", i, x)) if left else (lambda i: t("B", x, i))
        R("trmm", R.side, R.uplo, R.trans, R.diag, alpha, t("A", d, d), B(d))
        with R.up(d + 1, D) if beyond else R.up(0, d) as k:
            if left:
                R("gemm", R.trans, "NoTrans", alpha, t("A", d, k) if no else t("A", k, d), B(k), ONE, B(d))
            else:
                R("gemm", "NoTrans", R.trans, alpha, B(k), t("A", k, d) if no else t("A", d, k), ONE, B(d))


def trsm(R, late=False):
    """late: with X op(A) = alpha B the scaling may come last, when the other updates are divided by alpha"""
    left, up, no = R.side == "Left", R.uplo == "Upper", R.trans == "NoTrans"
    D = MT if left else NT
    # the first row (column) to be solved
    fwd = (up != no) == left
    lo, hi = (ZERO, D)
    with (R.up if fwd else R.down)(0, D) as k:
        al, mi = ite(eq(k, ZERO if fwd else D - 1), alpha, ONE), const(-1)
        a0 = al
        if late:
            al, mi, a0 = ONE, mk("op", "/", const(-1), alpha), alpha
        X = NT if left else MT
        with R.up(0, X) as x:
            R("trsm", R.side, R.uplo, R.trans, R.diag, a0, t("A", k, k), t("B", k, x) if left else t("B", x, k))
        with R.up(k + 1, D) if fwd else R.down(0, k) as d, R.up(0, X) as x:
            if left:
                R("gemm", R.trans, "NoTrans", mi, t("A", d, k) if no else t("A", k, d), t("B", k, x), al, t("B", d, x))
            else:
                R("gemm", "NoTrans", R.trans, mi, t("B", x, k), t("A", k, d) if no else t("A", d, k), al, t("B", x, d))


def each(f):
    def g(R):
        with R.up(0, MT) as m, R.up(0, NT) as n:
            f(R, m, n)
    return g


def op_a(R, m, n):
    return t("A", m, n) if R.transa == "NoTrans" else t("A", n, m)


def geadd(R):
    with R.up(0, MT) as m, R.up(0, NT) as n:
        R("geadd", R.transa, alpha, op_a(R, m, n), beta, t("B", m, n))


def triangle(R, uplo, m, n, f):
    """f(tile option) for the tiles of a triangle"""
    if uplo == "General":
        f("General")
        return
    with R.when(eq(m, n)):
        f(uplo)
    with R.when(lt(n, m) if uplo == "Lower" else lt(m, n)):
        f("General")


def flip(u):
    return {"Lower": "Upper", "Upper": "Lower"}.get(u, u)


def tradd(R):
    # uplo says which triangle of op(A), so of B, is referenced
    with R.up(0, MT) as m, R.up(0, NT) as n:
        def f(u):
            if u == "General":
                R("geadd", R.transa, alpha, op_a(R, m, n), beta, t("B", m, n))
            else:
                R("tradd", R.uplo, R.transa, alpha, op_a(R, m, n), beta, t("B", m, n))
        u = R.uplo
        triangle(R, u, m, n, f)


def lacpy(R):
    with R.up(0, MT) as m, R.up(0, NT) as n:
        b = t("B", m, n) if R.transa == "NoTrans" else t("B", n, m)
        triangle(R, R.uplo, m, n, lambda u: R("lacpy", u, R.transa, t("A", m, n), b))


def lascl(R):
    with R.up(0, MT) as m, R.up(0, NT) as n:
        triangle(R, R.uplo, m, n, lambda u: R("lascl", u, sym("cfrom"), sym("cto"), t("A", m, n)))


def lag(k):
    def f(R):
        with R.up(0, MT) as m, R.up(0, NT) as n:
            down = k in ("lag2c", "lag2s")
            a, b = t("A", m, n), t("As", m, n)
            R(k, *((a, b) if down else (b, a)))
    return f


def potrf(R, name="herk"):
    low = R.uplo == "Lower"
    A = (lambda i, j: t("A", i, j)) if low else (lambda i, j: t("A", j, i))
    with R.up(0, NT) as k:
        R("potrf", R.uplo, A(k, k))
        with R.up(k + 1, NT) as m:
            R("trsm", "Right" if low else "Left", R.uplo, "ConjTrans", "NonUnit", 1, A(k, k), A(m, k))
        with R.up(k + 1, NT) as m:
            R("syrk" if R.real else "herk", R.uplo, "NoTrans" if low else "ConjTrans", -1, A(m, k), 1, A(m, m))
            with R.up(k + 1, m) as n:
                if low:
                    R("gemm", "NoTrans", "ConjTrans", -1, A(m, k), A(n, k), 1, A(m, n))
                else:
                    R("gemm", "ConjTrans", "NoTrans", -1, A(n, k), A(m, k), 1, A(m, n))


def lauum(R):
    low = R.uplo == "Lower"
    A = (lambda i, j: t("A", i, j)) if low else (lambda i, j: t("A", j, i))
    with R.up(0, NT) as k:
        with R.up(0, k) as n:
            R("syrk" if R.real else "herk", R.uplo, "ConjTrans" if low else "NoTrans", 1, A(k, n), 1, A(n, n))
            with R.up(n + 1, k) as m:
                if low:
                    R("gemm", "ConjTrans", "NoTrans", 1, A(k, m), A(k, n), 1, A(m, n))
                else:
                    R("gemm", "NoTrans", "ConjTrans", 1, A(k, n), A(k, m), 1, A(m, n))
        with R.up(0, k) as n:
            R("trmm", "Left" if low else "Right", R.uplo, "ConjTrans", "NonUnit", 1, A(k, k), A(k, n))
        R("lauum", R.uplo, A(k, k))


def trtri(R):
    low = R.uplo == "Lower"
    A = (lambda i, j: t("A", i, j)) if low else (lambda i, j: t("A", j, i))
    a, b = ("Right", "Left") if low else ("Left", "Right")
    with R.up(0, NT) as k:
        with R.up(k + 1, NT) as m:
            R("trsm", a, R.uplo, "NoTrans", R.diag, -1, A(k, k), A(m, k))
        with R.up(k + 1, NT) as m, R.up(0, k) as n:
            if low:
                R("gemm", "NoTrans", "NoTrans", 1, A(m, k), A(k, n), 1, A(m, n))
            else:
                R("gemm", "NoTrans", "NoTrans", 1, A(k, n), A(m, k), 1, A(m, n))
        with R.up(0, k) as n:
            R("trsm", b, R.uplo, "NoTrans", R.diag, 1, A(k, k), A(k, n))
        R("trtri", R.uplo, R.diag, A(k, k))


def mn():
    return mnmx("min", MT, NT)


def un(R, x):
    return x.replace("un", "or") if R.real else x


def geqrf(R):
    A, T = lambda i, j: t("A", i, j), lambda i, j: t("T", i, j)
    with R.up(0, mn()) as k:
        R("geqrt", A(k, k), T(k, k))
        with R.up(k + 1, NT) as n:
            R(un(R, "unmqr"), "Left", "ConjTrans", A(k, k), T(k, k), A(k, n))
        with R.up(k + 1, MT) as m:
            R("tsqrt", A(k, k), A(m, k), T(m, k))
            with R.up(k + 1, NT) as n:
                R("tsmqr", "Left", "ConjTrans", A(k, n), A(m, n), A(m, k), T(m, k))


def gelqf(R):
    A, T = lambda i, j: t("A", i, j), lambda i, j: t("T", i, j)
    with R.up(0, mn()) as k:
        R("gelqt", A(k, k), T(k, k))
        with R.up(k + 1, MT) as m:
            R(un(R, "unmlq"), "Right", "ConjTrans", A(k, k), T(k, k), A(m, k))
        with R.up(k + 1, NT) as n:
            R("tslqt", A(k, k), A(k, n), T(k, n))
            with R.up(k + 1, MT) as m:
                R("tsmlq", "Right", "ConjTrans", A(m, k), A(m, n), A(k, n), T(k, n))


def apply(qr, R, B, left, trans, rows, others, K, start=lambda k: ZERO):
    """multiply by Q or its conjugate transpose.  rows: tiles along the
    reflectors; others: across"""
    A, T = (lambda i, k: t("A", i, k), lambda i, k: t("T", i, k)) if qr else \
           (lambda i, k: t("A", k, i), lambda i, k: t("T", k, i))
    one, two = (un(R, "unmqr"), "tsmqr") if qr else (un(R, "unmlq"), "tsmlq")
    side = "Left" if left else "Right"
    # Q = Q1 Q2 ... for QR; Q = ... Q2^H Q1^H for LQ
    fwd = (left == (trans != "NoTrans")) == qr
    b = (lambda i, x: t(B, i, x)) if left else (lambda i, x: t(B, x, i))
    with (R.up if fwd else R.down)(0, K) as k:
        def diag():
            with R.up(start(k), others) as x:
                R(one, side, trans, A(k, k), T(k, k), b(k, x))

        def pairs():
            with (R.up if fwd else R.down)(k + 1, rows) as m, R.up(start(k), others) as x:
                R(two, side, trans, b(k, x), b(m, x), A(m, k), T(m, k))
        for f in ((diag, pairs) if fwd else (pairs, diag)):
            f()


def unm(qr):
    def f(R):
        left = R.side == "Left"
        D, X = (MT, NT) if left else (NT, MT)
        apply(qr, R, "B", left, R.trans, D, X, mnmx("min", D, KT))
    return f


def ung(qr):
    def f(R):
        # Q has the reflectors of A; its part before tile k is still the identity there
        D, X = (MT, NT) if qr else (NT, MT)
        apply(qr, R, "Q", qr, "NoTrans", D, X, mnmx("min", D, KT), lambda k: k)
    return f


class Tree:
    def __init__(self, R, qr, mt, nt):
        R("tree", mt, nt)
        self.R, self.qr = R, qr
        half = div(TNT, const(2))
        pos = (lambda k, j: (k, j)) if qr else (lambda k, j: (j, k))
        self.A = lambda k, j: t("A", *pos(k, j))
        self.T = lambda k, j: t("T", *pos(k, j))

        def second(k, j):
            r, c = pos(k, j)
            return t("T", r, add(c, half))
        self.T2 = second

    def walk(self, fwd, ge, ts, tt):
        R = self.R
        with (R.up if fwd else R.down)(0, OPS) as i:
            kern, j, k, p = [entry(i, q) for q in range(4)]
            for name, f in (("Ge", ge), ("Tt", tt), ("Ts", ts)):
                with R.when(eq(kern, const(R.enums["Plasma%sKernel" % name]))):
                    f(i, j, k, p)


def tree_fact(qr):
    def f(R):
        T = Tree(R, qr, *((MT, NT) if qr else (NT, MT)))
        A, across = T.A, NT if qr else MT
        one = un(R, "unmqr" if qr else "unmlq")
        side = "Left" if qr else "Right"

        def ge(i, j, k, p):
            R("geqrt" if qr else "gelqt", A(k, j), T.T(k, j), i)
            with R.up(j + 1, across) as x:
                R(one, side, "ConjTrans", A(k, j), T.T(k, j), A(k, x), i)

        def two(kind):
            def g(i, j, k, p):
                R(kind + ("qrt" if qr else "lqt"), A(p, j), A(k, j), T.T2(k, j), i)
                with R.up(j + 1, across) as x:
                    R(kind + ("mqr" if qr else "mlq"), side, "ConjTrans", A(p, x), A(k, x), A(k, j), T.T2(k, j), i)
            return g
        T.walk(True, ge, two("ts"), two("tt"))
    return f


def tree_apply(qr, B, gen=False):
    def f(R):
        left, trans = (qr, "NoTrans") if gen else (R.side == "Left", R.trans)
        T = Tree(R, qr, *((R.rows("A"), R.cols("A")) if qr else (R.cols("A"), R.rows("A"))))
        fwd = (left == (trans != "NoTrans")) == qr
        side = "Left" if left else "Right"
        others = R.cols(B) if left else R.rows(B)
        b = (lambda i, x: t(B, i, x)) if left else (lambda i, x: t(B, x, i))
        lo = (lambda j: j) if gen else lambda j: ZERO
        one = un(R, "unmqr" if qr else "unmlq")

        def ge(i, j, k, p):
            with R.up(lo(j), others) as x:
                R(one, side, trans, T.A(k, j), T.T(k, j), b(k, x), i)

        def two(kind):
            def g(i, j, k, p):
                with R.up(lo(j), others) as x:
                    R(kind + ("mqr" if qr else "mlq"), side, trans, b(p, x), b(k, x), T.A(k, j), T.T2(k, j), i)
            return g
        T.walk(fwd, ge, two("ts"), two("tt"))
    return f


def ge2gb(R):
    """bring A to band form: QR of the tile columns and LQ of the tile rows in turn"""
    tall = le(sym("#dN"), sym("#dM"))
    f = lambda x: fld(sym("T"), x)

    def A(i, j, k, col):
        return ("v", "A", NB * i, NB * j) + ((sub(sym("#dM"), NB * i), ext("N", k)) if col else (ext("M", k), sub(sym("#dN"), NB * j)))

    def T(i, j, k, col):
        return ("v", "T", f("mb") * i, NB * j) + ((sub(f("m"), f("mb") * i), ext("N", k)) if col else (f("mb"), sub(f("n"), NB * j)))

    def rest(i, j):
        return ("v", "A", NB * i, NB * j, sub(sym("#dM"), NB * i), sub(sym("#dN"), NB * j))

    def qr(i, k, i2, j2):
        R("pgeqrf", A(i, k, k, True), T(i, k, k, True))
        with R.when(lt(j2, NT)):
            R(un(R, "punmqr"), "Left", "ConjTrans", A(i, k, k, True), T(i, k, k, True), rest(i, j2))

    def lq(k, j, i2, j2):
        R("pgelqf", A(k, j, k, False), T(k, j, k, False))
        with R.when(lt(i2, MT)):
            R(un(R, "punmlq"), "Right", "ConjTrans", A(k, j, k, False), T(k, j, k, False), rest(i2, j))
    with R.when(tall):
        with R.up(0, NT) as k:
            qr(k, k, None, k + 1)
            with R.when(lt(k + 1, NT)):
                lq(k, k + 1, k + 1, None)
    with R.when(not_(tall)):
        with R.up(0, MT) as k:
            lq(k, k, k + 1, None)
            with R.when(lt(k + 1, MT)):
                qr(k + 1, k, None, k + 1)


def getri_aux(R):
    A, W = lambda i, j: t("A", i, j), lambda i: t("W", i, 0)
    with R.down(0, NT) as k:
        R("lacpy", "Lower", "NoTrans", A(k, k), W(k))
        R("laset", "Lower", 0, 0, A(k, k))
        with R.up(k + 1, NT) as m:
            R("lacpy", "General", "NoTrans", A(m, k), W(m))
            R("laset", "General", 0, 0, A(m, k))
        with R.up(0, NT) as m, R.up(k + 1, NT) as n:
            R("gemm", "NoTrans", "NoTrans", -1, A(m, n), W(n), 1, A(m, k))
        with R.up(0, NT) as m:
            R("trsm", "Right", "Lower", "NoTrans", "Unit", 1, W(k), A(m, k))


def band(R, u):
    """tiles of the band below (above) the diagonal one, the diagonal one included"""
    return fld(sym("A"), "klt" if u == "Lower" else "kut")


def pbtrf(R):
    low = R.uplo == "Lower"
    A = (lambda i, j: t("A", i, j)) if low else (lambda i, j: t("A", j, i))
    with R.up(0, NT) as k:
        R("potrf", R.uplo, A(k, k))
        with R.up(k + 1, NT) as m, R.when(lt(m - k, band(R, R.uplo))):
            R("trsm", "Right" if low else "Left", R.uplo, "ConjTrans", "NonUnit", 1, A(k, k), A(m, k))
            R("syrk" if R.real else "herk", R.uplo, "NoTrans" if low else "ConjTrans", -1, A(m, k), 1, A(m, m))
            with R.up(k + 1, m) as n:
                if low:
                    R("gemm", "NoTrans", "ConjTrans", -1, A(m, k), A(n, k), 1, A(m, n))
                else:
                    R("gemm", "ConjTrans", "NoTrans", -1, A(n, k), A(m, k), 1, A(m, n))


def view(d, i, j, m, n):
    return ("v", d, i, j, m, n)


def ext(d, k):
    return mk("ext", sym("#" + d), k)


ipiv = sym("ipiv")


def tbsm(R):
    """solve with a triangular band matrix; with pivots of an LU
    factorisation the row interchanges go between the steps"""
    up, no = R.uplo == "Upper", R.trans == "NoTrans"
    fwd = up != no
    bw = band(R, R.uplo)

    def swap(k, x, inc):
        if not up:
            with R.when(not_(eq(ipiv, ZERO))):
                R("geswp", "Rowwise", view("B", ZERO, NB * x, sym("#dM"), ext("N", x)), NB * k + 1, NB * k + ext("M", k), ipiv, inc)
    if up or no:
        with (R.up if fwd else R.down)(0, MT) as k:
            al = ite(eq(k, ZERO if fwd else MT - 1), alpha, ONE)
            with R.up(0, NT) as x:
                if no:
                    swap(k, x, 1)
                R("trsm", "Left", R.uplo, R.trans, R.diag, al, t("A", k, k), t("B", k, x))
            with R.up(k + 1, MT) if fwd else R.down(0, k) as d, R.up(0, NT) as x:
                with R.when(lt(d - k if fwd else k - d, bw)):
                    R("gemm", R.trans, "NoTrans", -1, t("A", d, k) if no else t("A", k, d), t("B", k, x), al, t("B", d, x))
    else:
        # the interchanges of step k undone after it: each row gathers the rows already final
        with R.down(0, MT) as k:
            al = ite(eq(k, MT - 1), alpha, ONE)
            with R.up(k + 1, MT) as d, R.up(0, NT) as x, R.when(lt(d - k, bw)):
                R("gemm", R.trans, "NoTrans", -1, t("A", d, k), t("B", d, x), al, t("B", k, x))
            with R.up(0, NT) as x:
                R("trsm", "Left", R.uplo, R.trans, R.diag, al, t("A", k, k), t("B", k, x))
                swap(k, x, -1)


def geswp(R):
    if R.colrow == "Rowwise":
        with R.up(0, NT) as n:
            R("geswp", "Rowwise", view("A", ZERO, NB * n, sym("#dM"), ext("N", n)), 1, sym("#dM"), ipiv, sym("incx"))
    else:
        with R.up(0, MT) as m:
            R("geswp", "Columnwise", view("A", NB * m, ZERO, ext("M", m), sym("#dN")), 1, sym("#dN"), ipiv, sym("incx"))


def getrf(R):
    A = lambda i, j: t("A", i, j)
    dM, dN = sym("#dM"), sym("#dN")
    with R.up(0, mn()) as k:
        R("getrf", view("A", NB * k, NB * k, dM - NB * k, ext("N", k)), padd(ipiv, NB * k))
        with R.up(k + 1, NT) as n:
            R("geswp", "Rowwise", view("A", ZERO, NB * n, dM, ext("N", n)), NB * k + 1, NB * k + ext("M", k), ipiv, 1)
            R("trsm", "Left", "Lower", "NoTrans", "Unit", 1, A(k, k), A(k, n))
            with R.up(k + 1, MT) as m:
                R("gemm", "NoTrans", "NoTrans", -1, A(m, k), A(k, n), 1, A(m, n))
    with R.up(0, mn() - 1) as k:
        R("geswp", "Rowwise", view("A", ZERO, NB * k, dM, NB), NB * k + NB + 1, mnmx("min", dM, dN), ipiv, 1)


def gbtrf(R):
    A = lambda i, j: t("A", i, j)
    a = sym("A")
    dM, kut, klt, kl = sym("#dM"), fld(a, "kut"), fld(a, "klt"), fld(a, "kl")
    with R.up(0, mn()) as k:
        # rows the panel reaches
        h = mnmx("min", dM - NB * k, kl + ext("M", k))
        R("getrf", view("A", NB * (kut - 1), NB * k, h, ext("N", k)), padd(ipiv, NB * k))
        with R.up(k + 1, NT) as n, R.when(lt(n - k, kut)):
            R("geswp", "Rowwise", view("A", NB * (kut - 1 + k - n), NB * n, h, ext("N", n)), 1, ext("M", k), padd(ipiv, NB * k), 1)
            R("trsm", "Left", "Lower", "NoTrans", "Unit", 1, A(k, k), A(k, n))
            with R.up(k + 1, MT) as m, R.when(lt(m - k, klt)):
                R("gemm", "NoTrans", "NoTrans", -1, A(m, k), A(k, n), 1, A(m, n))


def laset(R):
    with R.up(0, MT) as m, R.up(0, NT) as n:
        # beta on the diagonal only
        triangle(R, R.uplo, m, n, lambda u: u != "General" and R("laset", u, alpha, beta, t("A", m, n)))
        with R.when(eq(m, n)):
            if R.uplo == "General":
                R("laset", "General", alpha, beta, t("A", m, n))
        with R.when(lt(n, m) if R.uplo == "Lower" else lt(m, n) if R.uplo == "Upper" else not_(eq(m, n))):
            R("laset", "General", alpha, alpha, t("A", m, n))


lda = sym("lda")


def convert(into, which, u="General"):
    def f(R):
        with R.up(0, R.rows("A")) as m, R.up(0, R.cols("A")) as n:
            a, b = ("?", padd(sym("pA"), lda * NB * n + NB * m), lda), t("A", m, n)
            up = eq(fld(sym("A"), "type"), const(R.enums["PlasmaUpper"]))
            c = TRUE
            if which == "tr":
                c = or_(and_(up, le(m, n)), and_(not_(up), le(n, m)))
            elif which == "gb":
                d = sym("A")
                c = and_(lt(m - n, fld(d, "klt")), le(n - m, div(fld(d, "ku") + NB - 1, NB)))
            with R.when(c):
                R("lacpy", u, "NoTrans", *((a, b) if into else (b, a)))
    return f


def bandcopy(into, wide=False):
    """wide: also tiles just above the band, of which nothing is copied"""
    def f(R):
        d = sym("A")
        kl, ku, u = fld(d, "kl"), fld(d, "ku"), fld(d, "uplo")
        up, lo = eq(u, const(R.enums["PlasmaUpper"])), eq(u, const(R.enums["PlasmaLower"]))
        ge = eq(u, const(R.enums["PlasmaGeneral"]))
        off = ite(up, ku, ite(lo, ZERO, ku + kl))
        with R.up(0, NT) as n, R.up(0, MT) as m:
            # with pivoting the upper band grows by kl
            above, upper = [le(div(mnmx("max", ZERO, NB * n - x), NB), m) for x in (ku + kl, ku + kl if wide else ku)]
            below = le(m, div(mnmx("min", sym("#dM") - 1, NB * n + NB - 1 + kl), NB))
            with R.when(or_(and_(ge, above, below), and_(up, upper, le(m, n)), and_(not_(up), not_(ge), le(n, m), below))):
                a = ("?", padd(sym("pA"), lda * NB * n + off + NB * (m - n)), lda - 1)
                b = t("A", m, n)
                R("lacpy_lapack2tile_band" if into else "lacpy_tile2lapack_band", u, m, n, ext("M", m), ext("N", n), NB, kl, ku,
                  *((a, b) if into else (b, a)))
    return f


work, value = sym("work"), sym("value")


def W(off):
    return padd(work, off)


def norms(tri):
    """norm of the tiles of a general (tri None), trapezoidal or symmetric
    matrix: a contribution of each stored tile, then their reduction"""
    def f(R):
        dM, dN = sym("#dM"), sym("#dN")
        NR, NC = R.rows("A"), R.cols("A")
        if NR is NT:
            dM = dN
        em = lambda m: mk("ext", sym("#" + R.shape["A"][0]), m)
        en = lambda n: mk("ext", sym("#" + R.shape["A"][1]), n)
        sym_ = tri in ("lanhe", "lansy")
        d = (R.uplo,) + ((R.diag,) if tri == "lantr" else ()) if tri else ()

        def tiles(off, diag=None):
            with R.up(0, NR) as m, R.up(0, NC) as n:
                if not tri:
                    off(m, n)
                    return
                with R.when(lt(n, m) if R.uplo == "Lower" else lt(m, n)):
                    off(m, n)
                with R.when(eq(m, n)):
                    diag(m)
        ext2 = lambda m: (em(m), em(m) if sym_ else en(m))[:1 if sym_ else 2]
        rows = lambda m, n: W(dM * n + NB * m)
        cols = lambda m, n: W(dN * m + NB * n)
        first_ = lambda m, n: W(NR * n + m)
        sq = lambda m, n: (W(NR * n + m), W(NR * NC + NR * n + m))
        if R.norm == "MaxNorm":
            tiles(lambda m, n: R("lange", "MaxNorm", em(m), en(n), t("A", m, n), first_(m, n)),
                  lambda m: R(tri, "MaxNorm", *d, *ext2(m), t("A", m, m), first_(m, m)))
            if not tri:
                R("lange", "MaxNorm", NR, NC, ("?", work, NR), value)
            elif sym_:
                R("lansy", "MaxNorm", R.uplo, NR, ("?", work, NR), value)
            else:
                R("lantr", "MaxNorm", R.uplo, "NonUnit", NR, NC, ("?", work, NR), value)
        elif sym_ and R.norm in ("OneNorm", "InfNorm"):
            def both(m, n):
                R("lange_aux", "OneNorm", em(m), en(n), t("A", m, n), cols(m, n))
                R("lange_aux", "InfNorm", em(m), en(n), t("A", m, n), cols(n, m))
            tiles(both, lambda m: R(tri + "_aux", "OneNorm", *d, em(m), t("A", m, m), cols(m, m)))
            R("lange", "InfNorm", dN, NR, ("?", work, dN), value)
        elif R.norm in ("OneNorm", "InfNorm"):
            s = cols if R.norm == "OneNorm" else rows
            tiles(lambda m, n: R("lange_aux", R.norm, em(m), en(n), t("A", m, n), s(m, n)),
                  lambda m: R(tri + "_aux", R.norm, *d, *ext2(m), t("A", m, m), s(m, m)))
            h, w = (dN, NR) if R.norm == "OneNorm" else (dM, NC)
            R("lange", "InfNorm", h, w, ("?", work, h), value)
        else:
            def off(m, n):
                if sym_ and R.uplo == "Upper":
                    return R("gessq", em(m), en(n), t("A", m, n), *sq(n, m))
                R("gessq", em(m), en(n), t("A", m, n), *sq(m, n))
            k = {"lanhe": "hessq", "lansy": "syssq", "lantr": "trssq"}.get(tri)
            if k == "hessq" and R.real:
                k = "syssq"
            tiles(off, lambda m: R(k, *d, *ext2(m), t("A", m, m), *sq(m, m)))
            if sym_:
                R("syssq_aux", NR, NC, ("?", work), ("?", W(NR * NC)), value)
            else:
                R("gessq_aux", NR * NC, ("?", work), ("?", W(NR * NC)), value)
    return f


def langb(R):
    d = sym("A")
    kl, ku, dM, dN = fld(d, "kl"), fld(d, "ku"), sym("#dM"), sym("#dN")
    wide = div(kl + NB - 1, NB) + div(ku + NB - 1, NB) + 1
    with R.up(0, NT) as n:
        top = div(mnmx("max", ZERO, NB * n - ku), NB)
        with R.up(top, div(mnmx("min", dM - 1, NB * n + NB - 1 + kl), NB) + 1) as m:
            a = (ext("M", m), ext("N", n), t("A", m, n))
            if R.norm == "MaxNorm":
                R("lange", R.norm, *a)
            elif R.norm == "OneNorm":
                R("lange_aux", R.norm, *a, W((m - top) * dN + NB * n))
            elif R.norm == "InfNorm":
                R("lange_aux", R.norm, *a, W(NB * m + NB * MT * n))
            else:
                R("gessq", *a, W(n * wide + m - top), W(wide * NT + n * wide + m - top))
    if R.norm == "MaxNorm":
        # the number of tiles of the band
        R("lange", "MaxNorm", ANY, ANY, ("?", work, ONE))
    elif R.norm == "OneNorm":
        R("lange", "InfNorm", dN, wide, ("?", work, dN))
    elif R.norm == "InfNorm":
        R("lange", "InfNorm", NB * MT, NT, ("?", work, NB * MT))
    elif R.norm == "FrobeniusNorm":
        R("gessq_aux", wide * NT, ("?", work), ("?", W(wide * NT)), value)


def amax(name):
    def f(R):
        dM, dN = sym("#dM"), sym("#dN")
        c = R.colrow == "Columnwise"
        with R.up(0, MT) as m, R.up(0, NT) as n:
            R(name, R.colrow, ext("M", m), ext("N", n), t("A", m, n), W(dN * m + NB * n if c else dM * n + NB * m))
        h, w = (dN, MT) if c else (dM, NT)
        R("amax", "Rowwise", h, w, ("?", work, h), sym("values"))
    return f


ALG = {"lange": norms(None), "lanhe": norms("lanhe"), "lansy": norms("lansy"), "lantr": norms("lantr"), "langb": langb,
       "zamax": amax("zamax"), "camax": amax("camax"), "amax": amax("amax"), "pbtrf": pbtrf, "tbsm": tbsm, "geswp": geswp, "getrf": getrf, "gbtrf": gbtrf, "laset": laset,
       "ge2desc": convert(True, "ge"), "desc2ge": convert(False, "ge"), "tr2desc": convert(True, "tr"),
       "desc2tr": convert(False, "tr"), "gb2desc": convert(True, "gb", "GeneralBand"), "pb2desc": bandcopy(True),
       "desc2pb": bandcopy(False), "gemm": gemm, "hemm": hemm, "symm": symm, "herk": rankk("herk", "ConjTrans"), "syrk": rankk("syrk", "Trans"),
       "her2k": rankk("her2k", "ConjTrans"), "syr2k": rankk("syr2k", "Trans"), "trmm": trmm, "trsm": trsm, "geadd": geadd,
       "tradd": tradd, "lacpy": lacpy, "lascl": lascl, "potrf": potrf, "lauum": lauum, "trtri": trtri,
       "geqrf": geqrf, "gelqf": gelqf, "unmqr": unm(True), "ormqr": unm(True), "unmlq": unm(False), "ormlq": unm(False),
       "ungqr": ung(True), "orgqr": ung(True), "unglq": ung(False), "orglq": ung(False), "getri_aux": getri_aux, "ge2gb": ge2gb}
for _k in ("lag2c", "lag2s", "lag2z", "lag2d"):
    ALG[_k] = lag(_k)
for _k, _f in (("geqrf", tree_fact(True)), ("gelqf", tree_fact(False)), ("unmqr", tree_apply(True, "B")), ("unmlq", tree_apply(False, "B")),
               ("ungqr", tree_apply(True, "Q", True)), ("unglq", tree_apply(False, "Q", True))):
    for _n in {_k, _k.replace("un", "or")}:
        ALG[_n + "_tree"] = _f
# other formulations of the same operation
VARIANTS = {"desc2pb": [bandcopy(False, True)], "trsm": [lambda R: trsm(R, True)]}
