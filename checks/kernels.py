"""What each tile kernel does, as calls of BLAS/LAPACK and assignments to matrix elements.
Element (i, j) of an array X is e("X", i, j)."""
from terms import *
import algs
from algs import ANY

# kernels that are one call: the arguments by name
CALLS = {
    "gemm": ("gemm", "102 transa transb m n k alpha A lda B ldb beta C ldc"),
    "hemm": ("hemm", "102 side uplo m n alpha A lda B ldb beta C ldc"),
    "symm": ("symm", "102 side uplo m n alpha A lda B ldb beta C ldc"),
    "herk": ("herk", "102 uplo trans n k alpha A lda beta C ldc"),
    "syrk": ("syrk", "102 uplo trans n k alpha A lda beta C ldc"),
    "her2k": ("her2k", "102 uplo trans n k alpha A lda B ldb beta C ldc"),
    "syr2k": ("syr2k", "102 uplo trans n k alpha A lda B ldb beta C ldc"),
    "trmm": ("trmm", "102 side uplo transa diag m n alpha A lda B ldb"),
    "trsm": ("trsm", "102 side uplo transa diag m n alpha A lda B ldb"),
    "potrf": ("potrf", "102 uplo n A lda"),
    "lauum": ("lauum", "102 uplo n A lda"),
    "trtri": ("trtri", "102 uplo diag n A lda"),
    "hegst": ("hegst", "102 itype uplo n A lda B ldb"),
    "sygst": ("sygst", "102 itype uplo n A lda B ldb"),
    "lange": ("lange", "102 norm m n A lda work"),
    "lanhe": ("lanhe", "102 norm uplo n A lda work"),
    "lansy": ("lansy", "102 norm uplo n A lda work"),
    "lantr": ("lantr", "norm uplo diag m n A lda work"),
    "lascl": ("lascl", "uplo ? ? cfrom cto m n A lda ?"),
    "lag2c": ("lag2c", "102 m n A lda As ldas"),
    "lag2s": ("lag2s", "102 m n A lda As ldas"),
    "lag2z": ("lag2z", "102 m n As ldas A lda"),
    "lag2d": ("lag2d", "102 m n As ldas A lda"),
}


def ne(a, b):
    return not_(eq(a, b))


def e(x, i, j=ZERO):
    return ("e", sym(x), i if isinstance(i, Term) else const(i), j if isinstance(j, Term) else const(j))


def at(x, i, j=ZERO):
    """the value of an element"""
    t = e(x, i, j)
    return mk("el", *t[1:])


def times(a, b):
    return mk("op", "*", a, b)


def plus(a, b):
    return mk("op", "+", a, b)


def conj(x, real):
    return x if real else mk("call", "conj", x)


def cabs(x, real):
    return mk("call", "fabs" if real else "cabs", x)


m, n, alpha, beta = [sym(x) for x in ("m", "n", "alpha", "beta")]


def op_a(r, i, j):
    """element (i, j) of op(A)"""
    if r.transa == "NoTrans":
        return at("A", i, j)
    return at("A", j, i) if r.transa == "Trans" else conj(at("A", j, i), r.real)


def upper(i, j):
    return le(i, j)


def lower(i, j):
    return le(j, i)


def part(r, i, j):
    return r.when({"Upper": upper, "Lower": lower}.get(r.o.get("uplo"), lambda i, j: TRUE)(i, j))


def geadd(r):
    with r.up(0, n) as j, r.up(0, m) as i, part(r, i, j):
        r("put", e("B", i, j), plus(times(beta, at("B", i, j)), times(alpha, op_a(r, i, j))))


def lacpy(r):
    if r.transa == "NoTrans":
        r("lacpy", 102, r.uplo, m, n, e("A", 0, 0), sym("lda"), e("B", 0, 0), sym("ldb"))
        return
    with r.up(0, m) as i, r.up(0, n) as j, part(r, i, j):
        r("put", e("B", j, i), at("A", i, j) if r.transa == "Trans" else conj(at("A", i, j), r.real))


def laset(r):
    r("laset", 102, r.uplo, m, n, alpha, beta, e("A", 0, 0), sym("lda"))


def lange_aux(r):
    one = r.norm == "OneNorm"
    with r.up(0, n if one else m) as i:
        r("set", e("value", i))
    with r.up(0, n) as j, r.up(0, m) as i:
        r("add", e("value", j if one else i), cabs(at("A", i, j), r.real))


def lantr_aux(r):
    one = r.norm == "OneNorm"
    with r.up(0, n if one else m) as i:
        r("set", e("value", i))
    with r.up(0, n) as j, r.up(0, m) as i, part(r, i, j):
        with r.when(TRUE if r.diag == "NonUnit" else ne(i, j)):
            r("add", e("value", j if one else i), cabs(at("A", i, j), r.real))
    if r.diag == "Unit":
        with r.up(0, n) as j, r.when(lt(j, m)):
            r("add", e("value", j), ONE)


def lanhe_aux(r, he=True):
    with r.up(0, n) as i:
        r("set", e("value", i))
    with r.up(0, n) as j:
        d = at("A", j, j)
        r("add", e("value", j), cabs(d, r.real) if r.real or not he else mk("call", "fabs", mk("call", "creal", d)))
        with r.up(0, n) as i, r.when(lt(i, j) if r.uplo == "Upper" else lt(j, i)):
            r("add", e("value", i), cabs(at("A", i, j), r.real))
            r("add", e("value", j), cabs(at("A", i, j), r.real))


def lansy_aux(r):
    lanhe_aux(r, False)


def gessq(r):
    with r.up(0, n) as j:
        r("lassq", m, e("A", 0, j), 1, e("scale", 0), e("sumsq", 0))


def trssq(r):
    with r.up(0, n) as j, r.up(0, m) as i, part(r, i, j):
        if r.diag == "Unit":
            with r.when(ne(i, j)):
                r("ssq", at("A", i, j), e("scale", 0), e("sumsq", 0))
        else:
            r("ssq", at("A", i, j), e("scale", 0), e("sumsq", 0))


def hessq(r, he=True):
    with r.up(0, n) as j:
        if r.uplo == "Upper":
            r("lassq", j, e("A", 0, j), 1, e("scale", 0), e("sumsq", 0))
        else:
            x = add(j, ONE)
            r("lassq", sub(n, x), e("A", x, j), 1, e("scale", 0), e("sumsq", 0))
    r("mul", 2)
    with r.up(0, n) as i:
        d = at("A", i, i)
        r("uses", algs.ANY, cabs(d, r.real) if r.real or not he else mk("call", "fabs", mk("call", "creal", d)))


def syssq(r):
    hessq(r, False)


def gessq_aux(r):
    with r.up(0, n) as i:
        r("uses", algs.ANY, at("scale", i))
        r("uses", algs.ANY, at("sumsq", i))
    r("put", e("value", 0), algs.ANY)


def syssq_aux(r):
    with r.up(0, n) as j, r.up(0, n) as i, r.when(lt(j, i)):
        for x in "scale", "sumsq":
            r("uses", algs.ANY, at(x, add(i, mul(m, j))))
    r("mul", 2)
    with r.up(0, n) as j:
        for x in "scale", "sumsq":
            r("uses", algs.ANY, at(x, add(j, mul(m, j))))
    r("put", e("value", 0), algs.ANY)


def amax(r):
    with r.up(0, n) as j, r.up(0, m) as i:
        r("uses", e("values", j if r.colrow == "Columnwise" else i), mk("call", "fabs" if r.real else "cabs1", at("A", i, j)))


# kernels that gather the elements of a matrix: in stores, or in local variables
USES = {"hessq": "store", "syssq": "store", "amax": "store", "gessq_aux": "local", "syssq_aux": "local", "hessq_aux": "local"}
OTHER = {"hessq": hessq, "syssq": syssq, "gessq_aux": gessq_aux, "syssq_aux": syssq_aux, "amax": amax, "laset": laset, "geadd": geadd, "tradd": geadd, "lacpy": lacpy, "lange_aux": lange_aux, "lantr_aux": lantr_aux,
         "lanhe_aux": lanhe_aux, "lansy_aux": lansy_aux, "gessq": gessq, "trssq": trssq}


# ---- kernels made of several calls
ib, k_, l_ = sym("ib"), sym("k"), sym("l")
m1, n1, m2, n2 = [sym(x) for x in ("m1", "n1", "m2", "n2")]
CM = 102


def ld(x):
    return sym({"A": "lda", "A1": "lda1", "A2": "lda2", "T": "ldt", "V": "ldv", "C": "ldc", "work": "ldwork", "W": "ldw"}[x])


def mn(a, b):
    return mnmx("min", a, b)


def pos(a):
    return mnmx("max", ZERO, a)


def neg(x):
    return mk("op", "neg", x)


def lk(name, r):
    return ("L", const(r.enums["Plasma" + name]))


def larfb(r, side, trans, storev, *rest):
    r("larfb", CM, side, trans, "Forward", storev, *rest)


def geqrt(r, qr=True):
    k = mn(m, n)
    with r.stride(k, ib) as i:
        sb = mn(ib, sub(k, i))
        after = add(i, sb)
        a, t = e("A", i, i), e("T", 0, i)
        if qr:
            r("geqr2", CM, sub(m, i), sb, a, ld("A"), e("tau", i), e("work", 0))
            r("larft", CM, "Forward", "Columnwise", sub(m, i), sb, a, ld("A"), e("tau", i), t, ld("T"))
            c = sub(sub(n, i), sb)
            larfb(r, "Left", "ConjTrans", "Columnwise", sub(m, i), c, sb, a, ld("A"), t, ld("T"), e("A", i, after), ld("A"),
                  e("work", 0), c)
        else:
            r("gelq2", CM, sb, sub(n, i), a, ld("A"), e("tau", i), e("work", 0))
            r("larft", CM, "Forward", "Rowwise", sub(n, i), sb, a, ld("A"), e("tau", i), t, ld("T"))
            c = sub(sub(m, i), sb)
            larfb(r, "Right", "NoTrans", "Rowwise", c, sub(n, i), sb, a, ld("A"), t, ld("T"), e("A", after, i), ld("A"),
                  e("work", 0), c)


def gelqt(r):
    geqrt(r, False)


def forward(r, lq):
    """are the blocks of reflectors applied first to last?"""
    return (r.side == "Left") == (r.trans == ("NoTrans" if lq else "ConjTrans"))


def flip(r, lq):
    return r.trans if not lq else "NoTrans" if r.trans == "ConjTrans" else "ConjTrans"


def unmqr(r, lq=False):
    left = r.side == "Left"
    with r.stride(k_, ib, 1 if forward(r, lq) else -1) as i:
        kb = mn(ib, sub(k_, i))
        larfb(r, r.side, flip(r, lq), "Rowwise" if lq else "Columnwise", sub(m, i) if left else m, n if left else sub(n, i), kb,
              e("A", i, i), ld("A"), e("T", 0, i), ld("T"), e("C", i, 0) if left else e("C", 0, i), ld("C"), e("work", 0), ld("work"))


def unmlq(r):
    unmqr(r, True)


def tsmqr(r, lq=False, tri=False):
    left = r.side == "Left"
    with r.stride(k_, ib, 1 if forward(r, lq) else -1) as i:
        kb = mn(ib, sub(k_, i))
        if tri:
            p1, q1 = (kb, n1) if left else (m1, kb)
            p2, q2 = (mn(add(i, kb), m2), n2) if left else (m2, mn(add(i, kb), n2))
            l = mn(kb, pos(sub(m2 if left else n2, i)))
        else:
            p1, q1 = (sub(m1, i), n1) if left else (m1, sub(n1, i))
            p2, q2, l = m2, n2, ZERO
        r("parfb", r.side, flip(r, lq), "Forward", "Rowwise" if lq else "Columnwise", p1, q1, p2, q2, kb, l,
          e("A1", i, 0) if left else e("A1", 0, i), ld("A1"), e("A2", 0), ld("A2"), e("V", i, 0) if lq else e("V", 0, i), ld("V"),
          e("T", 0, i), ld("T"), e("work", 0), ld("work"))


def tsmlq(r):
    tsmqr(r, True)


def ttmqr(r):
    tsmqr(r, False, True)


def ttmlq(r):
    tsmqr(r, True, True)


def tsqrt(r, tri=False):
    with r.stride(n, ib) as ii:
        sb = mn(sub(n, ii), ib)
        with r.up(0, sb) as i:
            j = add(ii, i)
            rest = sub(sub(sb, i), ONE)
            rows = mn(add(j, ONE), m) if tri else m
            r("larfg", add(rows, ONE), e("A1", j, j), e("A2", 0, j), 1, e("tau", j))
            x = add(j, ONE)
            with r.when(lt(ZERO, rest)):
                a = neg(conj(at("tau", j), r.real))
                r("copy", rest, e("A1", j, x), ld("A1"), e("work", 0), 1)
                if not r.real:
                    r("lacgv", rest, e("work", 0), 1)
                r("gemv", CM, "ConjTrans", rows, rest, ONE, e("A2", 0, x), ld("A2"), e("A2", 0, j), 1, ONE, e("work", 0), 1)
                if not r.real:
                    r("lacgv", rest, e("work", 0), 1)
                r("axpy", rest, a, e("work", 0), 1, e("A1", j, x), ld("A1"))
                if not r.real:
                    r("lacgv", rest, e("work", 0), 1)
                r("gerc", CM, rows, rest, a, e("A2", 0, j), 1, e("work", 0), 1, e("A2", 0, x), ld("A2"))
            a = neg(at("tau", j))
            if tri:
                with r.when(lt(ZERO, i)):
                    r("pemv", "ConjTrans", "Columnwise", mn(j, m), i, mn(i, pos(sub(m, ii))), a, e("A2", 0, ii), ld("A2"),
                      e("A2", 0, j), 1, ZERO, e("T", 0, j), 1, e("work", 0))
            else:
                r("gemv", CM, "ConjTrans", m, i, a, e("A2", 0, ii), ld("A2"), e("A2", 0, j), 1, ZERO, e("T", 0, j), 1)
            r("trmv", CM, "Upper", "NoTrans", "NonUnit", i, e("T", 0, ii), ld("T"), e("T", 0, j), 1)
            r("put", e("T", i, j), at("tau", j))
        x = add(ii, sb)
        c = sub(n, x)
        if tri:
            rows = mn(x, m)
            r("parfb", "Left", "ConjTrans", "Forward", "Columnwise", ib, c, rows, c, sb, mn(sb, pos(sub(rows, ii))),
              e("A1", ii, x), ld("A1"), e("A2", 0, x), ld("A2"), e("A2", 0, ii), ld("A2"), e("T", 0, ii), ld("T"), e("work", 0), sb)
        else:
            r("tsmqr", "Left", "ConjTrans", sb, c, m, c, ib, ib,
              e("A1", ii, x), ld("A1"), e("A2", 0, x), ld("A2"), e("A2", 0, ii), ld("A2"), e("T", 0, ii), ld("T"), e("work", 0), sb)


def ttqrt(r):
    tsqrt(r, True)


def tslqt(r, tri=False):
    with r.stride(m, ib) as ii:
        sb = mn(sub(m, ii), ib)
        with r.up(0, sb) as i:
            j = add(ii, i)
            rest = sub(sub(sb, i), ONE)
            cols = mn(add(j, ONE), n) if tri else n
            if not r.real:
                r("lacgv", cols, e("A2", j, 0), ld("A2"))
                r("lacgv", 1, e("A1", j, j), ld("A1"))
            r("larfg", add(cols, ONE), e("A1", j, j), e("A2", j, 0), ld("A2"), e("tau", j))
            x = add(j, ONE)
            a = neg(at("tau", j))
            with r.when(lt(ZERO, rest)):
                r("copy", rest, e("A1", x, j), 1, e("work", 0), 1)
                r("gemv", CM, "NoTrans", rest, cols, ONE, e("A2", x, 0), ld("A2"), e("A2", j, 0), ld("A2"), ONE, e("work", 0), 1)
                r("axpy", rest, a, e("work", 0), 1, e("A1", x, j), 1)
                r("gerc", CM, rest, cols, a, e("work", 0), 1, e("A2", j, 0), ld("A2"), e("A2", x, 0), ld("A2"))
            if tri:
                with r.when(lt(ZERO, i)):
                    r("pemv", "NoTrans", "Rowwise", i, mn(j, n), mn(i, pos(sub(n, ii))), a, e("A2", ii, 0), ld("A2"),
                      e("A2", j, 0), ld("A2"), ZERO, e("T", 0, j), 1, e("work", 0))
            else:
                r("gemv", CM, "NoTrans", i, n, a, e("A2", ii, 0), ld("A2"), e("A2", j, 0), ld("A2"), ZERO, e("T", 0, j), 1)
            if not r.real:
                r("lacgv", cols, e("A2", j, 0), ld("A2"))
                r("lacgv", 1, e("A1", j, j), ld("A1"))
            r("trmv", CM, "Upper", "NoTrans", "NonUnit", i, e("T", 0, ii), ld("T"), e("T", 0, j), 1)
            r("put", e("T", i, j), at("tau", j))
        x = add(ii, sb)
        c = sub(m, x)
        if tri:
            cols = mn(x, n)
            r("parfb", "Right", "NoTrans", "Forward", "Rowwise", c, ib, c, cols, sb, mn(sb, pos(sub(cols, ii))),
              e("A1", x, ii), ld("A1"), e("A2", x, 0), ld("A2"), e("A2", ii, 0), ld("A2"), e("T", 0, ii), ld("T"), e("work", 0), m)
        else:
            r("tsmlq", "Right", "ConjTrans", c, sb, c, n, ib, ib,
              e("A1", x, ii), ld("A1"), e("A2", x, 0), ld("A2"), e("A2", ii, 0), ld("A2"), e("T", 0, ii), ld("T"), e("work", 0),
              ld("A1"))


def ttlqt(r):
    tslqt(r, True)


def parfb(r):
    left = r.side == "Left"
    w = [e("A1", 0), ld("A1"), e("A2", 0), ld("A2"), e("V", 0), ld("V"), e("work", 0), ld("work")]
    r("pamm", "W", r.side, r.storev, *([k_, n1, m2] if left else [m1, k_, n2]), l_, *w)
    r("trmm", CM, "Left" if left else "Right", "Upper", r.trans, "NonUnit", *([k_, n2] if left else [m2, k_]),
      ONE, e("T", 0), ld("T"), e("work", 0), ld("work"))
    with r.up(0, n1 if left else k_) as j:
        r("axpy", k_ if left else m1, const(-1), e("work", 0, j), 1, e("A1", 0, j), 1)
    r("pamm", "A2", r.side, r.storev, m2, n2, k_, l_, *w)


def pamm(r):
    left, col = r.side == "Left", r.storev == "Columnwise"
    tr = "ConjTrans" if (r.op == "W") == (left == col) else "NoTrans"
    uplo = "Upper" if col else "Lower"
    A1, A2, W = "A1", "A2", "W"
    # V with its triangle V2 (l-by-l) at the end of the first l vectors; V3 are the other vectors
    size = (k_ if left else k_) if r.op == "W" else (m if left else n)
    V1 = e("V", 0)
    V2 = e("V", sub(size, l_), 0) if col else e("V", 0, sub(size, l_))
    V3 = e("V", 0, l_) if col else e("V", l_, 0)
    mone = const(-1)
    if r.op == "W" and left:
        r("lacpy", CM, "General", l_, n, e(A2, sub(k_, l_)), ld(A2), e(W, 0), ld(W))
        r("trmm", CM, "Left", uplo, tr, "NonUnit", l_, n, ONE, V2, ld("V"), e(W, 0), ld(W))
        r("gemm", CM, tr, "NoTrans", l_, n, sub(k_, l_), ONE, V1, ld("V"), e(A2, 0), ld(A2), ONE, e(W, 0), ld(W))
        r("gemm", CM, tr, "NoTrans", sub(m, l_), n, k_, ONE, V3, ld("V"), e(A2, 0), ld(A2), ZERO, e(W, l_), ld(W))
        with r.up(0, n) as j:
            r("axpy", m, ONE, e(A1, 0, j), 1, e(W, 0, j), 1)
    elif r.op == "W":
        r("lacpy", CM, "General", m, l_, e(A2, 0, sub(k_, l_)), ld(A2), e(W, 0), ld(W))
        r("trmm", CM, "Right", uplo, tr, "NonUnit", m, l_, ONE, V2, ld("V"), e(W, 0), ld(W))
        r("gemm", CM, "NoTrans", tr, m, l_, sub(k_, l_), ONE, e(A2, 0), ld(A2), V1, ld("V"), ONE, e(W, 0), ld(W))
        r("gemm", CM, "NoTrans", tr, m, sub(n, l_), k_, ONE, e(A2, 0), ld(A2), V3, ld("V"), ZERO, e(W, 0, l_), ld(W))
        with r.up(0, n) as j:
            r("axpy", m, ONE, e(A1, 0, j), 1, e(W, 0, j), 1)
    elif left:
        r("gemm", CM, tr, "NoTrans", sub(m, l_), n, l_, mone, V1, ld("V"), e(W, 0), ld(W), ONE, e(A2, 0), ld(A2))
        r("trmm", CM, "Left", uplo, tr, "NonUnit", l_, n, ONE, V2, ld("V"), e(W, 0), ld(W))
        with r.up(0, n) as j:
            r("axpy", l_, mone, e(W, 0, j), 1, e(A2, sub(m, l_), j), 1)
        r("gemm", CM, tr, "NoTrans", m, n, sub(k_, l_), mone, V3, ld("V"), e(W, l_), ld(W), ONE, e(A2, 0), ld(A2))
    else:
        r("gemm", CM, "NoTrans", tr, m, n, sub(k_, l_), mone, e(W, 0, l_), ld(W), V3, ld("V"), ONE, e(A2, 0), ld(A2))
        r("gemm", CM, "NoTrans", tr, m, sub(n, l_), l_, mone, e(W, 0), ld(W), V1, ld("V"), ONE, e(A2, 0), ld(A2))
        r("trmm", CM, "Right", uplo, tr, "NonUnit", m, l_, mone, V2, ld("V"), e(W, 0), ld(W))
        with r.up(0, l_) as j:
            r("axpy", m, ONE, e(W, 0, j), 1, e(A2, 0, add(sub(n, l_), j)), 1)


def pemv(r):
    col = r.storev == "Columnwise"
    if col == (r.trans == "NoTrans"):
        return
    at_ = lambda i: e("X", mul(sym("incx"), i))
    x, y, w = (e("X", 0), sym("incx")), (e("Y", 0), sym("incy")), (e("work", 0), 1)
    # the rows (columns) of the rectangular part above (beside) the triangle, and those without triangle
    over, rest = (sub(m, l_), sub(n, l_)) if col else (sub(n, l_), sub(m, l_))
    with r.when(lt(ZERO, l_)):
        r("copy", l_, at_(over), sym("incx"), *w)
        r("trmv", CM, "Upper" if col else "Lower", r.trans, "NonUnit", l_, e("A", over, 0) if col else e("A", 0, over), ld("A"), *w)
        with r.when(lt(ZERO, over)):
            r("gemv", CM, r.trans, *([over, l_] if col else [l_, over]), alpha, e("A", 0), ld("A"), *x, beta, *y)
            r("axpy", l_, alpha, *w, *y)
        with r.when(eq(over, ZERO)):
            with r.when(eq(beta, ZERO)):
                r("scal", l_, alpha, *w)
                r("copy", l_, *w, *y)
            with r.when(ne(beta, ZERO)):
                r("scal", l_, beta, *y)
                r("axpy", l_, alpha, *w, *y)
    with r.when(lt(ZERO, rest)):
        r("gemv", CM, r.trans, *([m, rest] if col else [rest, n]), alpha, e("A", 0, l_) if col else e("A", l_, 0), ld("A"), *x,
          beta, e("Y", mul(sym("incy"), l_)), sym("incy"))


BLOCKED = {"pemv": pemv, "geqrt": geqrt, "gelqt": gelqt, "unmqr": unmqr, "unmlq": unmlq, "tsmqr": tsmqr, "tsmlq": tsmlq, "ttmqr": ttmqr,
           "ttmlq": ttmlq, "tsqrt": tsqrt, "ttqrt": ttqrt, "tslqt": tslqt, "ttlqt": ttlqt, "parfb": parfb, "pamm": pamm}

# the matrices a call works on: (argument, rows, columns, mode); rows and columns are argument positions, 1 or None (all)
def V(at, n, inc, mode):
    return ("v", at, n, inc, mode)


FOOT = {
    "geqr2": [(3, 1, 2, "w"), V(5, 2, None, "w"), (6, None, None, "w")],
    "gelq2": [(3, 1, 2, "w"), V(5, 1, None, "w"), (6, None, None, "w")],
    "larft": [(5, None, None, "r"), V(7, 4, None, "r"), (8, 4, 4, "w")],
    "larfb": [(8, None, None, "r"), (10, None, None, "r"), (12, 5, 6, "w"), (14, None, None, "w")],
    "larfg": [(1, "1", "1", "w"), V(2, 0, 3, "w"), V(4, "1", None, "w")],
    "copy": [V(1, 0, 2, "r"), V(3, 0, 4, "w")],
    "lacgv": [V(1, 0, 2, "w")],
    "gemv": [(5, 2, 3, "r"), (7, None, None, "r"), (10, None, None, "w")],
    "scal": [V(2, 0, 3, "w")],
    "axpy": [V(2, 0, 3, "r"), V(4, 0, 5, "w")],
    "gerc": [V(4, 1, 5, "r"), V(6, 2, 7, "r"), (8, 1, 2, "w")],
    "ger": [V(4, 1, 5, "r"), V(6, 2, 7, "r"), (8, 1, 2, "w")],
    "trmv": [(5, 4, 4, "r"), V(7, 4, 8, "w")],
    "trmm": [(8, None, None, "r"), (10, 5, 6, "w")],
    "gemm": [(7, None, None, "r"), (9, None, None, "r"), (12, 3, 4, "w")],
    "lacpy": [(4, 2, 3, "r"), (6, 2, 3, "w")],
    "tsmqr": [(8, 2, 3, "w"), (10, 4, 5, "w"), (12, None, None, "r"), (14, None, None, "r"), (16, None, None, "w")],
    "tsmlq": [(8, 2, 3, "w"), (10, 4, 5, "w"), (12, None, None, "r"), (14, None, None, "r"), (16, None, None, "w")],
    "parfb": [(10, 4, 5, "w"), (12, 6, 7, "w"), (14, None, None, "r"), (16, None, None, "r"), (18, None, None, "w")],
    "pamm": [(7, None, None, "r"), (9, None, None, "w"), (11, None, None, "r"), (13, None, None, "w")],
    "pemv": [(6, 2, 3, "r"), (8, None, None, "r"), V(11, 3, 12, "w"), (13, None, None, "w")],
}
# a call is empty when one of these sizes is zero
EMPTY = {"lassq": (0,), "swap": (0,), "geru": (1, 2), "geqr2": (1, 2), "gelq2": (1, 2), "larft": (4,), "larfb": (5, 6, 7), "copy": (0,), "lacgv": (0,), "axpy": (0,), "scal": (0,), "gerc": (1, 2),
         "ger": (1, 2), "trmv": (4,), "trmm": (5, 6), "gemm": (3, 4), "lacpy": (2, 3), "tsmqr": (2, 3, 4, 5, 6), "tsmlq": (2, 3, 4, 5, 6),
         "parfb": (4, 5, 6, 7, 8)}


def empty_if(s):
    """sizes one of which being zero makes the call do nothing"""
    k, a = s["kernel"], s["args"]
    out = [a[i] for i in EMPTY.get(k, ())]
    if k == "gemv":
        # the vector that is updated
        out.append(a[3] if is_const(a[1]) and a[1].args[0] != 111 else a[2])
    if k == "gemm" and a[11] is ONE:
        out.append(a[5])
    return [x for x in out if isinstance(x, Term)]


def applies(o):
    left = o["side"] == "Left"
    return [le(k_, m if left else n)]


def applies2(o):
    left = o["side"] == "Left"
    return [le(k_, m1 if left else n1), eq(n1, n2) if left else eq(m1, m2)] + [lt(ZERO, x) for x in (m1, n1, m2, n2, k_)] + \
        [le(m1, ld("A1")), le(m2, ld("A2"))] + [le(x, ld("work")) for x in ((ib,) if left else (m1, n1))] + [le(x, ld("V")) for x in (k_, m2 if left else n2)]


def product(o):
    left = o["side"] == "Left"
    # rows (columns) of V
    size = k_ if o["op"] == "W" else m if left else n
    vecs = (m if left else n) if o["op"] == "W" else k_
    return [le(l_, size), le(l_, vecs), lt(ZERO, k_)]


# what a kernel may rely on
PRE = {"unmqr": applies, "unmlq": applies, "tsmqr": applies2, "tsmlq": applies2, "ttmqr": applies2, "ttmlq": applies2,
       "parfb": lambda o: applies2(o)[1:],
       "pemv": lambda o: [ne(l_, ONE), le(l_, m), le(l_, n), or_(ne(alpha, ZERO), ne(beta, ZERO)), lt(ZERO, sym("incx")), lt(ZERO, sym("incy"))], "pamm": product}
