"""Writes known_findings.json: repaired defects and open findings."""
import json, os
FIXED = [
 ("C01", "25342e9", "plasma_?getrs reported illegal arguments under the wrong position"),
 ("C01", "96acf49", "plasma_?gels reported an illegal trans under a generic code instead of -1"),
 ("C01", "0eb471f", "plasma_?gbmm reported illegal lda, ldb, ldc under the wrong positions"),
 ("C01", "24f649f", "plasma_?gbsv reported an illegal ldb under the wrong position"),
 ("C01", "5fbcb1c", "plasma_{zc,ds}gbsv did not check kl and ku and reported wrong positions"),
 ("C01", "90dce09", "plasma_{he,sy}{sv,trs} reported illegal arguments under the wrong positions"),
 ("C01", "65cb5c6", "plasma_?laset reported an illegal lda under the wrong position"),
 ("C01", "483cae5", "plasma_?pbtrs reported illegal arguments under the wrong positions"),
 ("C01", "b16a5cc", "plasma_?gesdd reported illegal ldu, ldvt under the wrong positions"),
 ("C01", "de3a567", "plasma_?geinv accepted lda = 0"),
 ("C01", "732db6e", "plasma_?tr{mm,sm} reported illegal lda, ldb under the wrong positions"),
 ("C02", "2f8d579", "plasma_request_fail dereferenced the NULL sequence or request its callers report"),
 ("C02", "d5a79c0", "plasma_omp_?{geinv,hesv,hetrf,hetrs} used descriptors they did not check"),
 ("C02", "f6e4789", "plasma_omp_?{pbsv,posv,gesdd} returned on illegal options without failing the sequence"),
 ("C04", "4cebcfb", "plasma_?getrf returned min(m,n)+index instead of the index of the zero pivot"),
 ("C09", "bf775aa", "plasma_?{geadd,tradd,lag2?} wrote the input-only matrix back"),
 ("C09", "ef995cc", "plasma_?{ungqr,unglq} generated only the first k columns or rows of Q"),
 ("C05", "830cbf7", "plasma_p?geswp applied uninitialised pivots (out-of-bounds swaps) after a failed LU factorisation"),
 ("C05", "22b2bb0", "plasma_p?hetrf_aasen and plasma_p?unmqr_blgtrd kept computing after the sequence failed"),
 ("C04", "6380dc2", "plasma_?gesdd returned success after a failed allocation or a bdsdc that did not converge"),
 ("C04", "857dcfe", "pzgbbrd_static replaced the failure code of the sequence"),
 ("C08", "38431eb", "pzgbbrd_static used its progress table without testing the allocation"),
 ("C05", "a2aae95", "plasma_omp_?gesdd overwrote U and VT and solved the bidiagonal problem on a failed sequence"),
 ("C08", "3dd5201", "plasma_omp_?gesdd used U and VT without testing their creation"),
 ("C17", "a7df598", "plasma_?hesv cleared T beyond its allocation for large ldt and read the uninitialised output T; both wrote ipiv beyond n"),
 ("C10", "83dc47c", "plasma_p?{her2k,syr2k} NoTrans addressed tiles of B with the leading dimension of A's tiles"),
 ("C12", "7c4c2b9", "plasma_p?{herk,syrk,her2k,syr2k} left C unscaled when k is zero"),
 ("C11", "cc420c1", "plasma_omp_dsgbsv called the double complex langb, gbtrf and tbsm on double matrices"),
 ("C07", "f252244", "22 blocking routines (gesv, getrs, gel*, geqr*, un*, gels, gesdd, he*, lan*, amax) leaked the tile matrices created so far when a later allocation failed"),
 ("C07", "27cbdfa", "plasma_?geinv leaked its workspace matrix on every call"),
 ("C07", "871c2b3", "plasma_tuning_init lost the Lua state it created, which also left tuning off"),
 ("C08", "2f2b4fc", "the trees and plasma_{zc,ds}{gesv,posv,gbsv} used memory whose allocation had failed"),
 ("C08", "509e3ab", "plasma_?stevx2 without eigenvectors read a null pointer and factorised an absent matrix; used memory whose allocation had failed; leaked T and the stein arrays"),
 ("C06", "572784f", "tasks of plasma_p?{getrf,gbtrf,geswp,hetrf_aasen} accessed single tiles and pivots other tasks depend on without declaring them"),
 ("C21", "09acb94", "plasma_omp_{zc,ds}{gesv,posv} reused the norm workspace while the norm tasks may still run"),
 ("C03", "c2e32fa", "plasma_tune left values on the Lua stack whenever a query failed, overflowing it after some calls"),
 ("C03", "2919ea5", "plasma_?{he,sy}{trf,sv} left max_panel_threads changed"),
 ("C03", "23ad821", "the default tuning file did not answer the gbtrf_ib and trtri_nb queries"),
 ("C23", "5ec6725", "the threads of a panel in p?{getrf,gbtrf,hetrf_aasen} each had their own info: all but the first divided by a zero pivot"),
 ("C16", "a35f039", "core_zgetrf multiplied a column by the reciprocal of a pivot below the safe minimum: the reciprocal overflows, the factor has Inf and NaN"),
 ("C19", "895915a", "plasma_desc_check did not check the rows of a lower band matrix (and checked those of an upper one against kl)"),
 ("C19", "051e058", "plasma_desc_check accepted submatrices with negative offsets"),
 ("C16", "d085fbd", "plasma_?lacpy(Lower, Trans or ConjTrans) read and wrote past a tile with more rows than columns"),
 ("C20", "390d095", "lapack_const gave A for PlasmaW and nothing for PlasmaA2 (the table was shifted by a missing comma)"),
]
OPEN = [
 ("C05", ["C05:plasma_core_omp_%s%s:plasma_core_%s%s" % (p, k, p, k) for p in "sdcz" for k in ("laset", "lacpy_lapack2tile_band", "lacpy_tile2lapack_band")],
  "tasks of plasma_core_omp_?{laset,lacpy_lapack2tile_band,lacpy_tile2lapack_band} have no sequence argument and run after a failure"),
]
out = [{"property": p, "status": "fixed", "commit": c, "what": w, "line": "fixed: property=%s %s %s" % (p, c, w)}
       for p, c, w in FIXED]
for p, keys, w in OPEN:
    for k in keys:
        out.append({"property": p, "status": "open", "key": k, "what": w})
json.dump(out, open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "known_findings.json"), "w"),
          indent=1)
