"""Does a parallel tile algorithm submit work for every legal call?"""
import interp
from client import *
from predicates import *
from c01 import scope

DOM = {"side": "one(side,Left,Right)", "uplo": "one(uplo,Upper,Lower)", "trans": "one(trans,NoTrans,Trans,ConjTrans)",
       "transa": "one(transa,NoTrans,Trans,ConjTrans)", "transb": "one(transb,NoTrans,Trans,ConjTrans)",
       "diag": "one(diag,NonUnit,Unit)", "norm": "one(norm,MaxNorm,OneNorm,InfNorm,FrobeniusNorm)",
       "colrow": "one(colrow,Columnwise,Rowwise)"}
UPLO3 = "one(uplo,Upper,Lower,General)"
# documented restrictions beyond the options
EXTRA = {"hetrf_aasen": ["uplo==Lower"], "sytrf_aasen": ["uplo==Lower"], "tbsm": ["side==Left"],
         "gemm": ["(A.type==General)|(A.type==GeneralBand)"], "lacpy": [UPLO3], "laset": [UPLO3], "lascl": [UPLO3],
         "lag2c": ["A.type==General", "As.type==General"],
         "lag2s": ["A.type==General", "As.type==General"],
         "lag2z": ["A.type==General", "As.type==General"],
         "lag2d": ["A.type==General", "As.type==General"]}
for _n in ("ungqr", "orgqr", "ungqr_tree", "orgqr_tree"):
    EXTRA[_n] = ["Q.mt==A.mt", "Q.nt>=A.nt", "A.mt>=A.nt", "Q.mt>=Q.nt"]
for _n in ("unglq", "orglq", "unglq_tree", "orglq_tree"):
    EXTRA[_n] = ["Q.nt==A.nt", "Q.mt>=A.mt", "A.nt>=A.mt", "Q.nt>=Q.mt"]
# band storage: which tiles exist depends on the bandwidth
# the trees of ung??: the tile columns come from the table of operations
SKIP = ("ungqr_tree", "orgqr_tree", "unglq_tree", "orglq_tree", "desc2pb", "pb2desc", "gb2desc", "gbbrd_static", "larft_blgtrd", "unmqr_blgtrd", "ormqr_blgtrd")
RANKK = ("gemm", "herk", "syrk", "her2k", "syr2k")


class Sub(Base):
    """cs: False nothing submitted, True submitted, None failed"""
    peel = True

    def __init__(self, pre):
        self.pre = pre
        self.rets = []

    def init(self):
        return False

    def mark(self, st):
        return interp.State(st.env, st.heap, st.pc, True if st.cs is False else st.cs)

    def call(self, ex, st, name, args, e):
        if name == "plasma_request_fail":
            return [(interp.State(st.env, st.heap, st.pc, None), args[2])]
        if (name.startswith("plasma_core_omp_") or name.startswith("plasma_p")) and name in KNOWN:
            s, v = ex.opaque(name, args, e, st)
            return [(self.mark(s), v)]
        if name == "plasma_tree_operations":
            s, v = ex.opaque(name, args, e, st)
            num = args[3]
            if num.op == "addr":
                k = num.args[0]
                n = s.env[k]
                s = s.copy()
                s.pc = s.pc | {lt(ZERO, n)}
            return [(s, v)]
        return None

    def task_begin(self, ex, st, kind, clauses, node):
        return st

    def task_end(self, ex, before, states, kind, clauses, node):
        return self.mark(before)

    def ret(self, ex, st, val, line):
        self.rets.append((st, line))


class D:
    def __init__(self, t, E):
        self.__dict__["t"], self.__dict__["E"] = t, E

    def __getattr__(self, n):
        return self.E(fld(self.t, n))


def preconditions(F, f, short, empty_inner=False):
    from c01 import E
    sc = scope(F, "z", {p[1]: p[1] for p in f["params"]})
    for p in f["params"]:
        if f["types"][p[2]].replace("struct ", "") == "plasma_desc_t":
            sc[p[1]] = D(sym(p[1]), E)
    out = []
    extra = EXTRA.get(short, [])
    for _, p, t in f["params"]:
        ty = f["types"][t]
        if p in DOM and not any(x.startswith("one(" + p) for x in extra):
            out.append(eval(DOM[p], {"__builtins__": {}}, sc).t)
        if ty.replace("struct ", "") == "plasma_desc_t":
            for a, b in (("m", "mt"), ("n", "nt")):
                x, y = fld(sym(p), a), fld(sym(p), b)
                if empty_inner and p in ("A", "B"):
                    out += [le(ZERO, x), or_(and_(eq(x, ZERO), eq(y, ZERO)), and_(lt(ZERO, x), lt(ZERO, y)))]
                else:
                    out += [lt(ZERO, x), lt(ZERO, y)]
            out += [lt(ZERO, fld(sym(p), "mb")), lt(ZERO, fld(sym(p), "nb"))]
        if "plasma_sequence_t" in ty:
            out.append(eq(mk("load", sym(p), ("status",)), ZERO))
    out += [eval(x, {"__builtins__": {}}, sc).t for x in extra]
    c = and_(*out)
    return frozenset(c.args if c.op == "and" else [c])


def nothing(F, f, short, empty_inner=False):
    """witnesses of legal calls that submit nothing; None if unsupported"""
    cl = Sub(preconditions(F, f, short, empty_inner))
    ex = interp.Exec(F, cl)
    ex.run(f)
    out = []
    for st, line in cl.rets:
        if st.cs is False:
            g, w = infeasible(pathcond(st), TRUE)
            if not g:
                out.append((line, show_row([x for x in w if x not in cl.pre])))
    return out


def algorithms(F):
    for n in sorted(F.funcs):
        f = F.funcs[n]
        if n.startswith("plasma_p") and f["file"].startswith("compute/p"):
            short = n[9:]
            yield n, f, short
