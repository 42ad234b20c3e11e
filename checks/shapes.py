"""Shapes of the matrices of each tile algorithm and of the operands of each
tile kernel, as functions of the options.  Written from the documentation of
the operations, not from the code."""
from terms import *

NB = sym("#NB")
NO = 111


def sel(no, a, b):
    return a if no else b


# routine -> matrices: (row class, column class); o: option values
def _gemm(o):
    return {"C": "MN", "A": sel(o["transa"] == "NoTrans", "MK", "KM"), "B": sel(o["transb"] == "NoTrans", "KN", "NK")}


def _hemm(o):
    return {"C": "MN", "B": "MN", "A": sel(o["side"] == "Left", "MM", "NN")}


def _rankk(o):
    a = sel(o["trans"] == "NoTrans", "NK", "KN")
    return {"C": "NN", "A": a, "B": a}


def _tr(o):
    return {"B": "MN", "A": sel(o["side"] == "Left", "MM", "NN")}


def _add(o):
    return {"B": "MN", "A": sel(o["transa"] == "NoTrans", "MN", "NM")}


def _cpy(o):
    return {"A": "MN", "B": sel(o["transa"] == "NoTrans", "MN", "NM")}


def _c(**k):
    return lambda o: k


def _unm(qr):
    def f(o):
        x = sel(o["side"] == "Left", "M", "N")
        v = x + "K" if qr else "K" + x
        return {"B": "MN", "A": v, "T": v}
    return f


SHAPE = {
    "gemm": _gemm, "hemm": _hemm, "symm": _hemm, "herk": _rankk, "syrk": _rankk, "her2k": _rankk, "syr2k": _rankk,
    "trmm": _tr, "trsm": _tr, "tbsm": _tr, "geadd": _add, "tradd": _add, "lacpy": _cpy,
    "lascl": _c(A="MN"), "laset": _c(A="MN"), "lange": _c(A="MN"), "langb": _c(A="MN"), "lantr": _c(A="MN"),
    "lanhe": _c(A="NN"), "lansy": _c(A="NN"), "zamax": _c(A="MN"), "amax": _c(A="MN"), "camax": _c(A="MN"),
    "lag2c": _c(A="MN", As="MN"), "lag2z": _c(A="MN", As="MN"), "lag2s": _c(A="MN", As="MN"),
    "lag2d": _c(A="MN", As="MN"),
    "potrf": _c(A="NN"), "pbtrf": _c(A="NN"), "lauum": _c(A="NN"), "trtri": _c(A="NN"),
    "getrf": _c(A="MN"), "gbtrf": _c(A="MN"), "geswp": _c(A="MN"), "getri_aux": _c(A="NN", W="N1"),
    "geqrf": _c(A="MN", T="MN"), "geqrf_tree": _c(A="MN", T="MN"), "gelqf": _c(A="MN", T="MN"),
    "gelqf_tree": _c(A="MN", T="MN"),
    "ungqr": _c(A="MK", T="MK", Q="MN"), "ungqr_tree": _c(A="MK", T="MK", Q="MN"),
    "orgqr": _c(A="MK", T="MK", Q="MN"), "orgqr_tree": _c(A="MK", T="MK", Q="MN"),
    "unglq": _c(A="KN", T="KN", Q="MN"), "unglq_tree": _c(A="KN", T="KN", Q="MN"),
    "orglq": _c(A="KN", T="KN", Q="MN"), "orglq_tree": _c(A="KN", T="KN", Q="MN"),
    "unmqr": _unm(True), "unmqr_tree": _unm(True), "ormqr": _unm(True), "ormqr_tree": _unm(True),
    "unmlq": _unm(False), "unmlq_tree": _unm(False), "ormlq": _unm(False), "ormlq_tree": _unm(False),
    "hetrf_aasen": _c(A="NN", T="NN"), "sytrf_aasen": _c(A="NN", T="NN"),
    "ge2desc": _c(A="MN"), "desc2ge": _c(A="MN"), "tr2desc": _c(A="NN"), "desc2tr": _c(A="NN"),
    "gb2desc": _c(A="MN"), "pb2desc": _c(A="MN"), "desc2pb": _c(A="MN"), "ge2gb": _c(A="MN"),
    "gecpy_tile2lapack_band": _c(A="MN"),
}
BAND = {"gbtrf": ("A",), "pbtrf": ("A",), "tbsm": ("A",), "langb": ("A",), "gb2desc": ("A",), "pb2desc": ("A",),
        "desc2pb": ("A",), "hetrf_aasen": ("T",), "sytrf_aasen": ("T",)}


class Op:
    """an operand of a kernel call: pointer, leading dimension, extents.
    kind: '' exact, 'V' reflectors, 'T' their triangular factors, 'A1' the
    upper tile of a pair (its extents bound the reflectors only)"""

    def __init__(self, name, p, ld, r, c, kind="", mode="r"):
        self.name, self.p, self.ld, self.r, self.c, self.kind, self.mode = name, p, ld, r, c, kind, mode


def tr(t, a, b):
    return a if t is const(NO) else b


def _kgemm(a):
    ta, tb, m, n, k, al, A, la, B, lb, be, C, lc = a[:13]
    return [Op("A", A, la, tr(ta, m, k), tr(ta, k, m)), Op("B", B, lb, tr(tb, k, n), tr(tb, n, k)),
            Op("C", C, lc, m, n, mode="rw")]


def _khemm(a):
    side, u, m, n, al, A, la, B, lb, be, C, lc = a[:12]
    x = m if side is const(141) else n
    return [Op("A", A, la, x, x), Op("B", B, lb, m, n), Op("C", C, lc, m, n, mode="rw")]


def _kherk(a):
    u, t, n, k, al, A, la, be, C, lc = a[:10]
    return [Op("A", A, la, tr(t, n, k), tr(t, k, n)), Op("C", C, lc, n, n, mode="rw")]


def _kher2k(a):
    u, t, n, k, al, A, la, B, lb, be, C, lc = a[:12]
    return [Op("A", A, la, tr(t, n, k), tr(t, k, n)), Op("B", B, lb, tr(t, n, k), tr(t, k, n)),
            Op("C", C, lc, n, n, mode="rw")]


def _ktr(a):
    side, u, t, d, m, n, al, A, la, B, lb = a[:11]
    x = m if side is const(141) else n
    return [Op("A", A, la, x, x), Op("B", B, lb, m, n, mode="rw")]


def _sq(i, p, mode="r"):
    return lambda a: [Op("A", a[p], a[p + 1], a[i], a[i], mode=mode)]


def _re(i, p, mode="r"):
    return lambda a: [Op("A", a[p], a[p + 1], a[i], a[i + 1], mode=mode)]


def _kgeadd(a):
    t, m, n, al, A, la, be, B, lb = a[:9]
    return [Op("A", A, la, tr(t, m, n), tr(t, n, m)), Op("B", B, lb, m, n, mode="rw")]


def _ktradd(a):
    return _kgeadd(a[1:])


def _klacpy(a):
    u, t, m, n, A, la, B, lb = a[:8]
    return [Op("A", A, la, m, n), Op("B", B, lb, tr(t, m, n), tr(t, n, m), mode="w")]


def _klag(a):
    m, n, A, la, B, lb = a[:6]
    return [Op("A", A, la, m, n), Op("B", B, lb, m, n, mode="w")]


def _klaset(a):
    u, mb, nb, i, j, m, n, al, be, A = a[:10]
    return [Op("A", A, mb, add(i, m), add(j, n), mode="w")]


def _kqrt(a):
    m, n, ib, A, la, T, lt_ = a[:7]
    return [Op("A", A, la, m, n, mode="rw"), Op("T", T, lt_, ib, None, "T", mode="w")]


def _kunm(qr):
    def f(a):
        side, t, m, n, k, ib, V, lv, T, lt_, C, lc = a[:12]
        x = m if side is const(141) else n
        return [Op("V", V, lv, x if qr else k, k if qr else x, "V"), Op("T", T, lt_, ib, None, "T"),
                Op("C", C, lc, m, n, mode="rw")]
    return f


def _kts(tri):
    def f(a):
        m, n, ib, A1, l1, A2, l2, T, lt_ = a[:9]
        return [Op("A1", A1, l1, m, n, "A1", mode="rw"), Op("A2", A2, l2, m, n, mode="rw"),
                Op("T", T, lt_, ib, None, "T", mode="w")]
    return f


def _kmm(qr):
    def f(a):
        side, t, m1, n1, m2, n2, k, ib, A1, l1, A2, l2, V, lv, T, lt_ = a[:16]
        x = m2 if side is const(141) else n2
        return [Op("A1", A1, l1, m1, n1, mode="rw"), Op("A2", A2, l2, m2, n2, mode="rw"),
                Op("V", V, lv, x if qr else k, k if qr else x, "V"), Op("T", T, lt_, ib, None, "T")]
    return f


def _khegst(a):
    it, u, n, A, la, B, lb = a[:7]
    return [Op("A", A, la, n, n, mode="rw"), Op("B", B, lb, n, n)]


KERNEL = {
    "gemm": _kgemm, "hemm": _khemm, "symm": _khemm, "herk": _kherk, "syrk": _kherk, "her2k": _kher2k, "syr2k": _kher2k,
    "trmm": _ktr, "trsm": _ktr, "potrf": _sq(1, 2, "rw"), "lauum": _sq(1, 2, "rw"), "trtri": _sq(2, 3, "rw"),
    "geadd": _kgeadd, "tradd": _ktradd, "lacpy": _klacpy, "lag2c": _klag, "lag2z": _klag, "lag2s": _klag,
    "lag2d": _klag, "lascl": _re(3, 5, "rw"), "laset": _klaset,
    "lange": _re(1, 3), "lange_aux": _re(1, 3), "lanhe": _sq(2, 3), "lanhe_aux": _sq(2, 3), "lansy": _sq(2, 3),
    "lansy_aux": _sq(2, 3), "lantr": _re(3, 5), "lantr_aux": _re(3, 5), "gessq": _re(0, 2), "hessq": _sq(1, 2),
    "syssq": _sq(1, 2), "trssq": _re(2, 4), "zamax": _re(1, 3), "camax": _re(1, 3), "amax": _re(1, 3),
    "geqrt": _kqrt, "gelqt": _kqrt, "unmqr": _kunm(True), "ormqr": _kunm(True), "unmlq": _kunm(False),
    "ormlq": _kunm(False), "tsqrt": _kts(False), "ttqrt": _kts(True), "tslqt": _kts(False), "ttlqt": _kts(True),
    "tsmqr": _kmm(True), "ttmqr": _kmm(True), "tsmlq": _kmm(False), "ttmlq": _kmm(False),
    "hegst": _khegst, "sygst": _khegst,
}
# kernels on vectors of partial results
for _k in ("gessq_aux", "hessq_aux", "syssq_aux", "trssq_aux"):
    KERNEL[_k] = lambda a: []
