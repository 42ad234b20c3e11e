"""The matrix arguments of the blocking routines, from the API documentation:
array and leading dimension, direction, number of rows and columns, and the
descriptor slot of the asynchronous routine that stands for it.
direction: in / inout / out / in? (input that may or may not be overwritten) /
out? (undocumented by-product, need not be delivered);
a leading + marks arrays whose old contents outside the result must survive."""
IO = {}


def io(names, text):
    for n in names.split():
        IO[n] = [tuple(x.split()) for x in text.split(";")] if text else []


ta, tb = "sel(transa==NoTrans,%s,%s)", "sel(transb==NoTrans,%s,%s)"
tr = "sel(trans==NoTrans,%s,%s)"
sd = "sel(side==Left,m,n)"
G = "A pA lda in %s %s; B pB ldb in %s %s; C pC ldc inout m n" % (ta % ("m", "k"), ta % ("k", "m"), tb % ("k", "n"),
                                                              tb % ("n", "k"))
io("gemm gbmm", G)
io("hemm symm", "A pA lda in %s %s; B pB ldb in m n; C pC ldc inout m n" % (sd, sd))
io("her2k syr2k", "A pA lda in %s %s; B pB ldb in %s %s; C pC ldc inout n n" % ((tr % ("n", "k"), tr % ("k", "n")) * 2))
io("herk syrk", "A pA lda in %s %s; C pC ldc inout n n" % (tr % ("n", "k"), tr % ("k", "n")))
io("trmm trsm", "A pA lda in %s %s; B pB ldb inout m n" % (sd, sd))
io("geadd tradd", "A pA lda in %s %s; B pB ldb inout m n" % (ta % ("m", "n"), ta % ("n", "m")))
io("lacpy", "A pA lda in m n; B pB ldb inout m n")
io("laset lascl geswp", "A pA lda inout m n")
io("lag2c lag2s", "A pA lda in m n; As pAs ldas out m n")
io("lag2z lag2d", "As pAs ldas in m n; A pA lda out m n")
io("lange lantr", "A pA lda in m n")
io("amax", "A pA lda in m n")
io("lanhe lansy", "A pA lda in n n")
io("langb", "AB pAB ldab in m n")
io("gbsv", "AB pAB ldab inout n n; B pB ldb inout n nrhs")
io("gbtrf", "AB pAB ldab inout m n")
io("gbtrs", "AB pAB ldab in n n; B pB ldb inout n nrhs")
io("pbsv", "AB pAB ldab inout n n; B pB ldb inout n nrhs")
io("pbtrf", "AB pAB ldab inout n n")
io("pbtrs", "AB pAB ldab in n n; B pB ldb inout n nrhs")
io("geinv getrf gelqf geqrf", "A pA lda inout m n")
io("gels", "A pA lda inout m n; B pB ldb inout max(m,n) nrhs")
io("gelqs", "A pA lda in m n; B pB ldb inout n nrhs")
io("geqrs", "A pA lda in m n; B pB ldb inout m nrhs")
io("gesdd", "A pA lda inout m n")
io("gesv", "A pA lda inout n n; B pB ldb inout n nrhs")
io("getri getri_aux lauum poinv potrf potri trtri", "A pA lda inout n n")
io("getrs potrs", "A pA lda in n n; B pB ldb inout n nrhs")
io("posv", "A pA lda inout n n; B pB ldb inout n nrhs")
io("hesv sysv", "A pA lda in? n n; T pT ldt out? n n; B pB ldb inout n nrhs")
io("hetrf sytrf", "A pA lda inout n n; T pT ldt out n n")
io("hetrs sytrs", "A pA lda in n n; T pT ldt in n n; B pB ldb inout n nrhs")
io("unglq orglq", "A pA lda in k n; Q pQ ldq out m n")
io("ungqr orgqr", "A pA lda in m k; Q pQ ldq out m n")
io("unmlq ormlq", "A pA lda in k %s; C pC ldc inout m n" % sd)
io("unmqr ormqr", "A pA lda in %s k; C pC ldc inout m n" % sd)
io("cgesv sgesv", "A pA lda in? n n; B pB ldb in n nrhs; X pX ldx out n nrhs")
io("cposv sposv", "A pA lda in? n n; B pB ldb in n nrhs; X pX ldx out n nrhs")
io("cgbsv sgbsv", "A pAB ldab in? n n; B pB ldb in n nrhs; X pX ldx out n nrhs")


def io_of(name, strip):
    """name: full routine name; strip: how many characters the precision takes"""
    s = name[len("plasma_"):]
    for k in (1, 2):
        if s[k:] in IO:
            return IO[s[k:]], s[:k]
    if s[1:] in IO:
        return IO[s[1:]], s[:1]
    return None, None
