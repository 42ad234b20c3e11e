"""Documented legality of every argument of every blocking routine, taken from
the API documentation (one entry per routine, for all precisions).  An entry is
the ordered parameter list; "name: condition" states when that argument is
legal; a name alone is unconstrained."""

SPEC = {}


def r(names, text):
    args = [a.strip() for a in text.split(";")]
    for n in names.split():
        SPEC[n] = [tuple(x.strip() for x in a.split(":", 1)) if ":" in a else (a, None) for a in args]


T3 = "one(%s,NoTrans,Trans,ConjTrans)"
UPLO2, UPLO3 = "one(uplo,Upper,Lower)", "one(uplo,Upper,Lower,General)"
NORM = "one(norm,MaxNorm,OneNorm,InfNorm,FrobeniusNorm)"
SIDE, DIAG = "one(side,Left,Right)", "one(diag,NonUnit,Unit)"
CR = "one(colrow,Columnwise,Rowwise)"
NN = lambda *a: "; ".join("%s: %s>=0" % (x, x) for x in a)
LD = lambda ld, *a: "%s: (%s>=1) & %s" % (ld, ld, " & ".join("(%s>=%s)" % (ld, x) for x in a))

# level 3 BLAS
ka = "sel(transa==NoTrans,m,k)"
kb = "sel(transb==NoTrans,k,n)"
r("gemm", "transa: %s; transb: %s; %s; alpha; pA; %s; pB; %s; beta; pC; %s" %
  (T3 % "transa", T3 % "transb", NN("m", "n", "k"), LD("lda", ka), LD("ldb", kb), LD("ldc", "m")))
r("gbmm", "transa: %s; transb: %s; %s; kl: (kl>=0)&(kl<m); ku: (ku>=0)&(ku<k); alpha; pA; %s; pB; %s; beta; pC; %s" %
  (T3 % "transa", T3 % "transb", NN("m", "n", "k"), LD("lda", ka), LD("ldb", kb), LD("ldc", "m")))
r("hemm symm", "side: %s; uplo: %s; %s; alpha; pA; %s; pB; %s; beta; pC; %s" %
  (SIDE, UPLO2, NN("m", "n"), LD("lda", "sel(side==Left,m,n)"), LD("ldb", "m"), LD("ldc", "m")))
kk = "sel(trans==NoTrans,n,k)"
r("her2k", "uplo: %s; trans: one(trans,NoTrans,ConjTrans); %s; alpha; pA; %s; pB; %s; beta; pC; %s" %
  (UPLO2, NN("n", "k"), LD("lda", kk), LD("ldb", kk), LD("ldc", "n")))
r("syr2k", "uplo: %s; trans: one(trans,NoTrans,Trans); %s; alpha; pA; %s; pB; %s; beta; pC; %s" %
  (UPLO2, NN("n", "k"), LD("lda", kk), LD("ldb", kk), LD("ldc", "n")))
r("herk", "uplo: %s; trans: one(trans,NoTrans,ConjTrans); %s; alpha; pA; %s; beta; pC; %s" %
  (UPLO2, NN("n", "k"), LD("lda", kk), LD("ldc", "n")))
r("syrk", "uplo: %s; trans: one(trans,NoTrans,Trans); %s; alpha; pA; %s; beta; pC; %s" %
  (UPLO2, NN("n", "k"), LD("lda", kk), LD("ldc", "n")))
r("trmm trsm", "side: %s; uplo: %s; transa: %s; diag: %s; %s; alpha; pA; %s; pB; %s" %
  (SIDE, UPLO2, T3 % "transa", DIAG, NN("m", "n"), LD("lda", "sel(side==Left,m,n)"), LD("ldb", "m")))

# additions, copies, sets, scalings, conversions
lta = "sel(transa==NoTrans,m,n)"
r("geadd", "transa: %s; %s; alpha; pA: pA!=0; %s; beta; pB: pB!=0; %s" %
  (T3 % "transa", NN("m", "n"), LD("lda", lta), LD("ldb", "m")))
r("tradd", "uplo: %s; transa: %s; %s; alpha; pA: pA!=0; %s; beta; pB: pB!=0; %s" %
  (UPLO2, T3 % "transa", NN("m", "n"), LD("lda", lta), LD("ldb", "m")))
r("lacpy", "uplo: %s; transa: %s; m: (m>=0)&((transa==NoTrans)|(m==n)); n: n>=0; pA; %s; pB; %s" %
  (UPLO3, T3 % "transa", LD("lda", "m"), LD("ldb", lta)))
r("laset", "uplo: %s; %s; alpha; beta; pA; %s" % (UPLO3, NN("m", "n"), LD("lda", "m")))
r("lascl", "uplo: %s; cfrom: fp(cfrom); cto: fp(cto); %s; pA; %s" % (UPLO3, NN("m", "n"), LD("lda", "m")))
r("lag2c lag2s", "%s; pA; %s; pAs; %s" % (NN("m", "n"), LD("lda", "m"), LD("ldas", "m")))
r("lag2z lag2d", "%s; pAs; %s; pA; %s" % (NN("m", "n"), LD("ldas", "m"), LD("lda", "m")))
r("geswp", "colrow: %s; %s; pA; %s; ipiv; incx" % (CR, NN("m", "n"), LD("lda", "m")))

# norms
r("lange", "norm: %s; %s; pA; %s" % (NORM, NN("m", "n"), LD("lda", "m")))
r("lanhe lansy", "norm: %s; uplo: %s; n: n>=0; pA; %s" % (NORM, UPLO2, LD("lda", "n")))
r("lantr", "norm: %s; uplo: %s; diag: %s; %s; pA; %s" % (NORM, UPLO2, DIAG, NN("m", "n"), LD("lda", "m")))
r("langb", "norm: %s; %s; pAB; %s" % (NORM, NN("m", "n", "kl", "ku"), LD("ldab", "1+kl+ku")))
r("amax", "colrow: %s; %s; pA; %s; values" % (CR, NN("m", "n"), LD("lda", "m")))

# Cholesky
r("potrf lauum potri poinv", "uplo: %s; n: n>=0; pA; %s" % (UPLO2, LD("lda", "n")))
r("potrs posv", "uplo: %s; %s; pA; %s; pB; %s" % (UPLO2, NN("n", "nrhs"), LD("lda", "n"), LD("ldb", "n")))
r("cposv sposv", "uplo: %s; %s; pA; %s; pB; %s; pX; %s; iter" %
  (UPLO2, NN("n", "nrhs"), LD("lda", "n"), LD("ldb", "n"), LD("ldx", "n")))
r("pbtrf", "uplo: %s; %s; pAB; %s" % (UPLO2, NN("n", "kd"), LD("ldab", "1+kd")))
r("pbtrs pbsv", "uplo: %s; %s; pAB; %s; pB; %s" % (UPLO2, NN("n", "kd", "nrhs"), LD("ldab", "1+kd"), LD("ldb", "n")))
r("trtri", "uplo: %s; diag: %s; n: n>=0; pA; %s" % (UPLO2, DIAG, LD("lda", "n")))

# LU
r("getrf", "%s; pA; %s; ipiv" % (NN("m", "n"), LD("lda", "m")))
r("geinv", "%s; pA; %s; ipiv" % (NN("m", "n"), LD("lda", "m")))
r("getri", "n: n>=0; pA; %s; ipiv" % LD("lda", "n"))
r("getri_aux", "n: n>=0; pA; %s" % LD("lda", "n"))
r("getrs", "trans: %s; %s; pA; %s; ipiv; pB; %s" % (T3 % "trans", NN("n", "nrhs"), LD("lda", "n"), LD("ldb", "n")))
r("gesv", "%s; pA; %s; ipiv; pB; %s" % (NN("n", "nrhs"), LD("lda", "n"), LD("ldb", "n")))
r("cgesv sgesv@ds", "%s; pA; %s; ipiv; pB; %s; pX; %s; iter" %
  (NN("n", "nrhs"), LD("lda", "n"), LD("ldb", "n"), LD("ldx", "n")))
r("gbtrf", "%s; pAB; %s; ipiv" % (NN("m", "n", "kl", "ku"), LD("ldab", "1+kl+ku")))
r("gbsv", "%s; pAB; %s; ipiv; pB; %s" % (NN("n", "kl", "ku", "nrhs"), LD("ldab", "1+kl+ku"), LD("ldb", "n")))
r("cgbsv sgbsv@ds", "%s; pAB; %s; ipiv; pB; %s; pX; %s; iter" %
  (NN("n", "kl", "ku", "nrhs"), LD("ldab", "1+kl+ku"), LD("ldb", "n"), LD("ldx", "n")))
r("gbtrs", "trans: %s; %s; pAB; %s; ipiv; pB; %s" %
  (T3 % "trans", NN("n", "kl", "ku", "nrhs"), LD("ldab", "1+kl+ku"), LD("ldb", "n")))

# symmetric indefinite
r("hetrf sytrf", "uplo: one(uplo,Lower); n: n>=0; pA; %s; ipiv; pT; ldt; ipiv2" % LD("lda", "n"))
r("hetrs hesv sytrs sysv", "uplo: one(uplo,Lower); %s; pA; %s; ipiv; pT; ldt; ipiv2; pB; %s" %
  (NN("n", "nrhs"), LD("lda", "n"), LD("ldb", "n")))

# QR and LQ
r("geqrf gelqf", "%s; pA; %s; T" % (NN("m", "n"), LD("lda", "m")))
r("gels", "trans: one(trans,NoTrans,_ConjTrans); %s; pA; %s; T; pB; %s" %
  (NN("m", "n", "nrhs"), LD("lda", "m"), LD("ldb", "m", "n")))
r("geqrs", "m: m>=0; n: (n>=0)&(n<=m); nrhs: nrhs>=0; pA; %s; T; pB; %s" % (LD("lda", "m"), LD("ldb", "m")))
r("gelqs", "m: m>=0; n: (n>=0)&(m<=n); nrhs: nrhs>=0; pA; %s; T; pB; %s" % (LD("lda", "m"), LD("ldb", "n")))
r("ungqr orgqr", "m: m>=0; n: (n>=0)&(n<=m); k: (k>=0)&(k<=n); pA; %s; T; pQ; %s" % (LD("lda", "m"), LD("ldq", "m")))
r("unglq orglq", "m: m>=0; n: n>=m; k: (k>=0)&(k<=m); pA; %s; T; pQ; %s" % (LD("lda", "m"), LD("ldq", "m")))
am = "sel(side==Left,m,n)"
r("unmqr ormqr", "side: %s; trans: one(trans,NoTrans,_ConjTrans); %s; k: (k>=0)&(k<=%s); pA; %s; T; pC; %s" %
  (SIDE, NN("m", "n"), am, LD("lda", am), LD("ldc", "m")))
r("unmlq ormlq", "side: %s; trans: one(trans,NoTrans,_ConjTrans); %s; k: (k>=0)&(k<=%s); pA; %s; T; pC; %s" %
  (SIDE, NN("m", "n"), am, LD("lda", "k"), LD("ldc", "m")))

# SVD and tridiagonal eigensolver
r("gesdd", "jobu: one(jobu,NoVec,AllVec,SomeVec); jobvt: one(jobvt,NoVec,AllVec,SomeVec)&(jobu==jobvt); %s; pA; %s; "
  "T; S; pU; ldu: (ldu>=1)&((jobu==NoVec)|(ldu>=m)); pVT; "
  "ldvt: (ldvt>=1)&((jobvt!=AllVec)|(ldvt>=n))&((jobvt!=SomeVec)|(ldvt>=m)|(ldvt>=n))" % (NN("m", "n"), LD("lda", "m")))
r("stevx2", "jobtype: one(jobtype,Vec,NoVec,Count); range: one(range,RangeV,RangeI); n: n>=0; k: late; "
  "diag: diag!=0; offd: offd!=0; vl: (range!=RangeV)|(vl<vu); vu; "
  "il: (range!=RangeI)|((il>=1)&((il<=1)|(il<=n))); "
  "iu: (range!=RangeI)|(((iu>=n)|(iu>=il))&(iu<=n)); pFound: pFound!=0; pVal: late; pMul: late; pVec: late")


def spec_of(name):
    """entry for a function plasma_<precision><routine>"""
    b = name[len("plasma_"):]
    if b[:2] in ("ds",) and b[1:] + "@ds" in SPEC:
        return SPEC[b[1:] + "@ds"]
    if b in ("dzamax", "scamax", "damax", "samax"):
        return SPEC["amax"]
    return SPEC.get(b[1:])
