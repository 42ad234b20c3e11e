"""What each asynchronous routine computes, as a composition of parallel tile
algorithms, and when a routine has something to compute.  Written from the
documentation of the routines.  In compositions @ stands for the precision
letter, H and L for the higher and lower precision of the mixed routines."""
ROWS, MUST, OMUST, EMPTY = {}, {}, {}, {}


def comp(names, *rows):
    """rows: (condition, alternatives...); an alternative is a list of calls"""
    for n in names.split():
        ROWS[n] = rows


CT = "Upper"
S = "sequence, request"
LU = ["geswp(Rowwise, B, ipiv, 1)", "trsm(Left, Lower, NoTrans, Unit, 1, A, B)",
      "trsm(Left, Upper, NoTrans, NonUnit, 1, A, B)"]
comp("gesv", ("T", ["getrf(A, ipiv)"] + LU))
comp("getrs", ("trans==NoTrans", LU),
     ("trans!=NoTrans", ["trsm(Left, Upper, trans, NonUnit, 1, A, B)", "trsm(Left, Lower, trans, Unit, 1, A, B)",
                         "geswp(Rowwise, B, ipiv, -1)"]))
INV = ["trtri(Upper, NonUnit, A)", "getri_aux(A, W)", "geswp(Columnwise, A, ipiv, -1)"]
comp("geinv", ("T", ["getrf(A, ipiv)"] + INV))
comp("getri", ("T", INV))
CH = ["trsm(Left, uplo, sel(uplo==Upper,_ConjTrans,NoTrans), NonUnit, 1, A, B)",
      "trsm(Left, uplo, sel(uplo==Upper,NoTrans,_ConjTrans), NonUnit, 1, A, B)"]
comp("posv", ("T", ["potrf(uplo, A)"] + CH))
comp("potrs", ("T", CH))
comp("poinv", ("T", ["potrf(uplo, A)", "trtri(uplo, NonUnit, A)", "lauum(uplo, A)"]))
comp("potri", ("T", ["trtri(uplo, NonUnit, A)", "lauum(uplo, A)"]))
PB = [c.replace("trsm", "tbsm").replace(" A, B)", " AB, B, 0)") for c in CH]
comp("pbsv", ("T", ["pbtrf(uplo, AB)"] + PB))
comp("pbtrs", ("T", PB))
GB = ["tbsm(Left, Lower, NoTrans, Unit, 1, AB, B, ipiv)", "tbsm(Left, Upper, NoTrans, NonUnit, 1, AB, B, ipiv)"]
comp("gbsv", ("T", ["gbtrf(AB, ipiv)"] + GB))
comp("gbtrs", ("trans==NoTrans", GB),
     ("trans!=NoTrans", ["tbsm(Left, Upper, trans, NonUnit, 1, AB, B, ipiv)",
                         "tbsm(Left, Lower, trans, Unit, 1, AB, B, ipiv)"]))
HF = ["hetrf_aasen(uplo, A, ipiv, T, W)", "gbtrf(T, ipiv2)"]
vA, vB = "view(A,A.nb,0,A.m-A.nb,A.n-A.nb)", "view(B,B.nb,0,B.m-B.nb,B.n)"
vB2 = "view(B,A.nb,0,A.m-A.nb,B.n)"
TB = ["tbsm(Left, Lower, NoTrans, Unit, 1, T, B, ipiv2)", "tbsm(Left, Upper, NoTrans, NonUnit, 1, T, B, ipiv2)"]


def hs(v):
    return (["geswp(Rowwise, B, ipiv, 1)", "trsm(Left, Lower, NoTrans, Unit, 1, %s, %s)" % (vA, v)] + TB
            + ["trsm(Left, Lower, _ConjTrans, Unit, 1, %s, %s)" % (vA, v), "geswp(Rowwise, B, ipiv, -1)"])


comp("hetrf sytrf", ("T", HF))
comp("hetrs sytrs", ("A.m>A.nb", hs(vB), hs(vB2)), ("A.m<=A.nb", TB))
comp("hesv sysv", ("A.m>A.nb", HF + hs(vB), HF + hs(vB2)), ("A.m<=A.nb", HF + TB))

N, C, t = "NoTrans", "_ConjTrans", "TREE"


def alt(calls):
    """laset of other rows of B may come before or after the solve"""
    i = [k for k, c in enumerate(calls) if c.startswith("laset")]
    out = [calls]
    if i:
        i = i[0]
        for j in (i - 1, i + 1):
            if 0 <= j < len(calls) and calls[j].startswith("trsm"):
                c = list(calls)
                c[i], c[j] = c[j], c[i]
                out.append(c)
    # zeroing rows of B does not depend on the factorisation of A
    for c in list(out):
        for k in range(1, len(c)):
            if c[k].startswith("laset") and c[k - 1][:3] == "gel" or c[k].startswith("laset") and c[k - 1][:3] == "geq":
                d = list(c)
                d[k], d[k - 1] = d[k - 1], d[k]
                out.append(d)
    return out


def tree(rows):
    out = []
    for cond, calls in rows:
        out.append(("(%s)&~TREE" % cond,) + tuple(alt(calls)))
        out.append(("(%s)&TREE" % cond,) + tuple(alt([tr_(c) for c in calls])))
    return tuple(out)


def tr_(c):
    for k in ("geqrf", "gelqf", "unmqr", "unmlq", "ungqr", "unglq"):
        if c.startswith(k + "("):
            return c.replace(k + "(", k + "_tree(", 1)
    return c


EX = "(A.m>0)&(A.n>0)&(B.n>0)"
an, am = "view(A,0,0,A.n,A.n), view(B,0,0,A.n,B.n)", "view(A,0,0,A.m,A.m), view(B,0,0,A.m,B.n)"
zn, zm = "laset(General, 0, 0, view(B,A.n,0,A.m-A.n,B.n))", "laset(General, 0, 0, view(B,A.m,0,A.n-A.m,B.n))"
QR = lambda tt: "unmqr(Left, %s, A, T, B, work)" % tt
LQ = lambda tt: "unmlq(Left, %s, A, T, B, work)" % tt
TS = lambda u, tt, v: "trsm(Left, %s, %s, NonUnit, 1, %s)" % (u, tt, v)
comp("gels", ("(A.m==0)|(A.n==0)|(B.n==0)", ["laset(General, 0, 0, B)"]), *tree([
    (EX + "&(A.m>=A.n)&(trans==NoTrans)", ["geqrf(A, T, work)", QR(C), TS("Upper", N, an)]),
    (EX + "&(A.m>=A.n)&(trans!=NoTrans)", ["geqrf(A, T, work)", zn, TS("Upper", C, an), QR(N)]),
    (EX + "&(A.m<A.n)&(trans==NoTrans)", ["gelqf(A, T, work)", zm, TS("Lower", N, am), LQ(C)]),
    (EX + "&(A.m<A.n)&(trans!=NoTrans)", ["gelqf(A, T, work)", LQ(N), TS("Lower", C, am)])]))
comp("geqrs", *tree([("T", [QR(C), TS("Upper", N, an)])]))
comp("gelqs", *tree([("T", [zm, TS("Lower", N, am), LQ(C)])]))
comp("geqrf", *tree([("T", ["geqrf(A, T, work)"])]))
comp("gelqf", *tree([("T", ["gelqf(A, T, work)"])]))
comp("ungqr orgqr", *tree([("T", ["laset(General, 0, 1, Q)", "ungqr(A, T, Q, work)"])]))
comp("unglq orglq", *tree([("T", ["laset(General, 0, 1, Q)", "unglq(A, T, Q, work)"])]))
comp("unmqr ormqr", *tree([("T", ["unmqr(side, trans, A, T, C, work)"])]))
comp("unmlq ormlq", *tree([("T", ["unmlq(side, trans, A, T, C, work)"])]))
comp("trmm", ("alpha==0", ["laset(General, 0, 0, B)"], ["trmm(side, uplo, transa, diag, 0, A, B)"]),
     ("alpha!=0", ["trmm(side, uplo, transa, diag, alpha, A, B)"]))
comp("gbmm", ("T", ["gemm(transa, transb, alpha, A, B, beta, C)"]))
comp("gb2desc", ("A.type==General", ["ge2desc(pA, lda, A)"]), ("A.type!=General", ["gb2desc(pA, lda, A)"]))


def mixed(norm, fac, sol, mul, facH, solH, names):
    pre = [norm, "HlagZL(B, Xs)", "HlagZL(A, As)", fac] + sol + ["LlagZH(Xs, X)", "Hlacpy(General, NoTrans, B, R)", mul,
           "RHamax(Columnwise, X, work, Xnorm)", "RHamax(Columnwise, R, ANY, Rnorm)"]
    it = ["HlagZL(R, Xs)"] + sol + ["LlagZH(Xs, R)", "Hgeadd(NoTrans, 1, R, 1, X)", "Hlacpy(General, NoTrans, B, R)", mul,
          "RHamax(Columnwise, X, work, Xnorm)", "RHamax(Columnwise, R, ANY, Rnorm)"]
    full = [facH, "Hlacpy(General, NoTrans, B, X)"] + solH
    MIXED[names] = (pre, it, full)


MIXED = {}
mm = "Hgemm(NoTrans, NoTrans, -1, A, X, 1, R)"
lu = lambda p, a, x: [p + "geswp(Rowwise, %s, ipiv, 1)" % x, p + "trsm(Left, Lower, NoTrans, Unit, 1, %s, %s)" % (a, x),
                      p + "trsm(Left, Upper, NoTrans, NonUnit, 1, %s, %s)" % (a, x)]
mixed("Hlange(InfNorm, A, work, ANY)", "Lgetrf(As, ipiv)", lu("L", "As", "Xs"), mm, "Hgetrf(A, ipiv)", lu("H", "A", "X"),
      "gesv")
bs = lambda p, a, x: [p + "tbsm(Left, Lower, NoTrans, Unit, 1, %s, %s, ipiv)" % (a, x),
                      p + "tbsm(Left, Upper, NoTrans, NonUnit, 1, %s, %s, ipiv)" % (a, x)]
mixed("Hlangb(InfNorm, A, work, ANY)", "Lgbtrf(As, ipiv)", bs("L", "As", "Xs"), mm, "Hgbtrf(A, ipiv)", bs("H", "A", "X"),
      "gbsv")
cs = lambda p, a, x: [c.replace("trsm", p + "trsm").replace("A, B", a + ", " + x) for c in CH]
mixed("Hlanhe(InfNorm, uplo, A, work, ANY)", "Lpotrf(uplo, As)", cs("L", "As", "Xs"), "Hhemm(Left, uplo, -1, A, X, 1, R)",
      "Hpotrf(uplo, A)", cs("H", "A", "X"), "posv")

# A conforming call has all operands non-empty together, hence the dimensions of A
# beside those of the result.
# ---- when there is something to compute -------------------------------------


def must(names, blk, omp):
    for n in names.split():
        MUST[n], OMUST[n] = blk, omp


ab = "~(((alpha==0)|(%s==0))&(beta==1))"
must("gemm gbmm", "(m>0)&(n>0)&" + ab % "k",
     "(C.m>0)&(C.n>0)&" + ab % "sel(transa==NoTrans,A.n,A.m)")
must("hemm symm", "(m>0)&(n>0)&~((alpha==0)&(beta==1))", "(C.m>0)&(C.n>0)&(A.m>0)&(A.n>0)&~((alpha==0)&(beta==1))")
must("her2k syr2k herk syrk", "(n>0)&" + ab % "k", "(C.m>0)&(C.n>0)&" + ab % "sel(trans==NoTrans,A.n,A.m)")
must("trmm trsm", "(m>0)&(n>0)", "(B.m>0)&(B.n>0)&(A.m>0)&(A.n>0)")
must("geadd tradd", "(m>0)&(n>0)&~((alpha==0)&(beta==1))", "(B.m>0)&(B.n>0)&(A.m>0)&(A.n>0)&~((alpha==0)&(beta==1))")
must("lag2z lag2d", "(m>0)&(n>0)", "(A.m>0)&(A.n>0)&(As.m>0)&(As.n>0)")
must("lacpy lag2c lag2s laset lascl geswp lange lantr amax langb", "(m>0)&(n>0)", "(A.m>0)&(A.n>0)")
must("lanhe lansy", "n>0", "(A.m>0)&(A.n>0)")
must("potrf lauum potri poinv trtri getri getri_aux hetrf sytrf", "n>0", "(A.m>0)&(A.n>0)")
must("potrs posv getrs gesv hetrs sytrs hesv sysv cgesv sgesv cposv sposv", "(n>0)&(nrhs>0)", "(A.n>0)&(B.n>0)")
must("gbtrs gbsv pbtrs pbsv", "(n>0)&(nrhs>0)", "(AB.n>0)&(B.n>0)")
must("cgbsv sgbsv", "(n>0)&(nrhs>0)", "(A.n>0)&(B.n>0)")
must("pbtrf", "n>0", "(AB.m>0)&(AB.n>0)")
must("gbtrf", "(m>0)&(n>0)", "(AB.m>0)&(AB.n>0)")
must("getrf geinv geqrf gelqf gesdd", "(m>0)&(n>0)", "(A.m>0)&(A.n>0)")
must("gels", "(m>0)&(n>0)&(nrhs>0)", "(A.m>0)&(A.n>0)&(B.n>0)")
must("geqrs gelqs", "(m>0)&(n>0)&(nrhs>0)", "(A.m>0)&(A.n>0)&(B.n>0)")
must("ungqr orgqr unglq orglq", "(m>0)&(n>0)", "(Q.m>0)&(Q.n>0)")
must("unmqr ormqr unmlq ormlq", "(m>0)&(n>0)&(k>0)", "(C.m>0)&(C.n>0)&(A.m>0)&(A.n>0)")
must("ge2desc desc2ge tr2desc desc2tr pb2desc desc2pb gb2desc", None, "(A.m>0)&(A.n>0)")
