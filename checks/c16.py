"""C16: the tile kernels do what they are named for, with what they are given.

Three layers, each compared as sets of instances like the tile algorithms of
C22 (elimination in linear arithmetic, independent of how loops are written):
* a task-submitting wrapper calls its kernel, once, with its own arguments;
* a kernel that stands for one BLAS/LAPACK operation makes that call, once,
  with its own arguments;
* the kernels written out by elements assign to each element of their result,
  once, the value that defines the operation (checks/kernels.py); scaled sums
  of squares are updated by an algebraically right formula (checks/scaled.py)."""
import re
import interp, algs, kernels, scaled
from client import *
from common import *
from predicates import *
from c22 import Compare, canon, showarg, unroll, coeff, equations, head, svars, solve
from kernels import e, ne

PREC = re.compile(r"^(?:cblas_|LAPACKE_|LAPACK_|plasma_core_(?!omp_))?(dz|sc|iz|ic|is|id|zl(?=ag2)|cl(?=ag2)|[sdcz])?([a-z0-9_]+?)(_work|_64_?|_)?$")
LD = {"A": "lda", "B": "ldb", "C": "ldc", "As": "ldas", "T": "ldt", "A1": "lda1", "A2": "lda2", "V": "ldv"}
LD.update(C="ldc", work="ldwork", W="ldw")
OPTIONS = {"side": ("Left", "Right"), "trans": ("NoTrans", "ConjTrans"), "storev": ("Columnwise", "Rowwise"), "colrow": ("Columnwise", "Rowwise"), "op": ("W", "A2"),
           "direct": ("Forward",), "uplo": ("Upper", "Lower", "General"), "transa": ("NoTrans", "Trans", "ConjTrans"),
           "norm": ("OneNorm", "InfNorm"), "diag": ("NonUnit", "Unit")}
SHORT = re.compile(r"^plasma_core_(omp_)?(dz|sc|[sdcz])?([a-z0-9_]+)$")


REAL = {"unmqr": "ormqr", "unmlq": "ormlq", "gerc": "ger", "geru": "ger", "dotc": "dot", "dotu": "dot"}


def op_name(name):
    """the operation of a BLAS/LAPACK function, without prefix, precision and suffix"""
    x = re.match(r"^(?:cblas_|LAPACKE_|plasma_core_)?(.*?)(_work|_)?$", name).group(1)
    if x in ("memset", "ssq"):
        return x
    if x[:2] in ("dz", "sc") and x[2:] in ("amax", "asum", "nrm2"):
        return x[2:]
    return x[1:] if x[:1] in "sdcz" else x


def constants(body):
    """static variables of a function that are never assigned"""
    decl, asg = {}, set()

    def walk(x):
        if not isinstance(x, list) or not x:
            return
        if x[0] == "decl":
            for d in x[1]:
                if d[4]:
                    decl[d[0]] = (d[1], d[3])
        if x[0] == "asg" and x[2][:1] == ["var"]:
            asg.add(x[2][1])
        if x[0] == "un" and x[1] in ("++", "--", "p++", "p--") and x[2][:1] == ["var"]:
            asg.add(x[2][1])
        for y in x:
            walk(y)
    walk(body)
    out = {}
    for v, (name, init) in decl.items():
        while init and init[0] in ("cast", "paren"):
            init = init[-1]
        neg = False
        if init and init[0] == "un" and init[1] == "-":
            neg, init = True, init[2]
            while init and init[0] in ("cast", "paren"):
                init = init[-1]
        if v not in asg and init and init[0] in ("int", "flt") and float(init[1]) == int(float(init[1])):
            out[name] = const(int(float(init[1])) * (-1 if neg else 1))
    return out


class Events(Base):
    def __init__(self, me, own):
        self.me, self.own = me, own
        self.calls, self.stores, self.locals = [], [], []

    def init(self):
        return None

    def inline(self, name):
        if name in self.own:
            return True
        return not name.startswith("plasma_core_") and name != "ssq" and Base.inline(self, name)

    def call(self, ex, st, name, args, node):
        if name != self.me and name not in self.own and (re.match(r"(cblas_|LAPACKE_|plasma_core_)", name) or re.match(r"[sdcz][a-z0-9]+_$", name)
                                or name in ("ssq", "memset", "memcpy")):
            if name == "lapack_const" or name.endswith(("cabs1", "coreblas_error")):
                return None
            a = [ex.read(st, ("loc", x.args[0], x.args[1])) if isinstance(x, Term) and x.op == "addr" else x for x in args]
            self.calls.append(self.event(ex, st, name, a, node[4]))
        return None

    def event(self, ex, st, what, a, line):
        return dict(what=what, a=a, pc=st.pc, nest=list(ex.nest), line=line, pos=ex.pos((what, ex.frame, line, tuple(map(str, a)))),
                    file=ex.stack[-1][0]["file"])

    def store(self, ex, st, loc, val, node):
        line = next((x for x in reversed(node) if isinstance(x, int)), 0) if isinstance(node, list) else 0
        if loc[0] == "mem":
            self.stores.append(self.event(ex, st, "store", [loc[1] if loc[2] == () else mk("faddr", loc[1], loc[2]), val], line))
        elif loc[0] == "loc" and loc[2] == ():
            self.locals.append(self.event(ex, st, loc[1], [val], line))
        return st


class Undecided(Exception):
    pass


class Model:
    """events in terms of array elements"""

    def __init__(self, F, f, args, leaf, real):
        cl = Events(f["name"], {n for u, n in F.local if u == f["unit"] and n != "ssq"})
        self.statics, cs = constants(f["body"]), consts(F)
        ex = interp.Exec(F, cl)
        self.params = {p[1] for p in f["params"]}
        ex.run(f, args)
        self.ex, self.cl, self.real, self.sites = ex, cl, real, []
        self.uses = kernels.USES.get(short(f["name"])[1]) if leaf else None
        self.names = {}
        for c in cl.calls:
            a, k = [self.arg(x) for x in c["a"]], op_name(c["what"])
            if k == "memset" and isinstance(a[0], tuple) and a[1] is ZERO and a[2].op == "poly" and len(dict(a[2].args[0])) == 1:
                # zeroing the bytes of a contiguous matrix
                (mon, q), = dict(a[2].args[0]).items()
                mon = sorted([x for x in mon if "sizeof" not in str(x)], key=lambda x: x is not sym("m"))
                if q == 1 and len(mon) == 2 and "sizeof" in str(a[2]):
                    k, a = "laset", [const(102), const(cs["PlasmaGeneral"]), mon[0], mon[1], ZERO, ZERO, a[0], mon[0]]
            self.one(k, c, a)
        self.stored = []
        if self.uses:
            for c in cl.stores:
                self.gather(c, self.elem(c["a"][0]), c["a"][1], self.uses == "store")
            for c in cl.locals if self.uses == "local" else ():
                self.gather(c, algs.ANY, c["a"][0], True)
            return
        for c in cl.stores:
            self.assignment(c)
            self.stored.append(c["a"])

    # -- terms
    def elem(self, p):
        """('e', array, row, column) of an address"""
        b, off = (p.args[0], p.args[1]) if p.op == "padd" else (p, ZERO)
        if b.op == "load" and "spaces" in str(b):
            return ("w", off)
        if b.op != "sym":
            raise Undecided("address " + str(p)[:80])
        ld = LD.get(b.args[0])
        if ld is None or ld not in self.params:
            return ("e", b, off, ZERO)
        d = dict(off.args[0]) if off.op == "poly" else {(off,): 1} if not is_const(off) else {}
        col = row = ZERO
        for mon, k in d.items():
            x = const(k)
            mon = list(mon)
            s = sym(ld)
            inld = s in mon
            if inld:
                mon.remove(s)
            for y in mon:
                x = mul(x, y)
            if inld:
                col = add(col, x)
            else:
                row = add(row, x)
        if is_const(off):
            row = off
        return ("e", b, row, col)

    def value(self, v):
        m = {}
        for x in subterms(v):
            if x.op == "gvar" and x.args[0] in self.statics:
                m[x.uid] = self.statics[x.args[0]]
            if x.op == "load" and x.args[1] == () and x.args[0].op in ("padd", "sym"):
                t = self.elem(x.args[0])
                if t[0] == "e":
                    m[x.uid] = mk("el", *t[1:])
            elif x.op == "iv":
                # a variable whose address is handed out
                l = self.ex.loops.get(x.uid)
                if l and l["how"] <= {"addr", "&"}:
                    m[x.uid] = l["init"]
        v = subst(v, m)
        while True:
            m = {x.uid: mk("call", x.args[0][:-1], *x.args[1:]) for x in subterms(v)
                 if x.op == "call" and x.args[0] in ("conjf", "cabsf", "fabsf", "crealf")}
            m.update({x.uid: mk("call", "cabs1", *x.args[1:]) for x in subterms(v)
                      if x.op == "call" and x.args[0] in ("plasma_core_dcabs1", "plasma_core_scabs1")})
            for x in subterms(v):
                if x.op == "call" and x.args[0] == "lapack_const":
                    m[x.uid] = x.args[1]
            if not m:
                return v
            v = subst(v, m)

    def arg(self, a):
        if not isinstance(a, Term):
            return a
        if a.op == "padd" or a.op == "sym" and (a.args[0] in LD or a.args[0] in ("work", "value", "scale", "sumsq", "tau", "W", "X", "Y")):
            return self.elem(a)
        if a.op == "load" and a.args[0].op in ("padd", "sym", "faddr") and "spaces" in str(a):
            return ("w", ZERO)
        return self.value(a)

    def nest(self, c):
        nest, ivs, strided = [], [], []
        for pos, site in c["nest"]:
            L = [l for l in self.ex.loops.values() if l["site"] == site]
            w = [l for l in L if l["stride"] is not None and not is_const(l["stride"]) and isinstance(l["init"], Term)]
            u = [l for l in L if l["step"]]
            used = {x.uid for a in c["a"] if isinstance(a, Term) for x in subterms(a)}
            o = sorted(u or w or L, key=lambda l: l["iv"].uid not in used)
            if o and o[0] in w and not u:
                d = 1 if o[0]["stride"].op == "sym" else -1
                strided.append((o[0], d))
                nest.append((pos, site, o[0]["iv"], d))
                ivs.append(o[0]["iv"])
                continue
            nest.append((pos, site, o[0]["iv"] if o else None, u and o[0]["step"] or 0))
            ivs += [l["iv"] for l in u]
        return nest, ivs, strided

    def blocks(self, strided, nest, ivs, pc, args):
        """counters that move by a block size, marked as its multiples; those of the blocks replaced by their first index"""
        for l, d in strided:
            s = l["stride"] if d > 0 else sub(ZERO, l["stride"])
            if s.op != "sym":
                raise Undecided("stride %s" % s)
            v = mk("iv", l["iv"].args[0], l["iv"].args[1] + "#" + s.args[0])
            init = l["init"]
            q = [x for x in subterms(init) if x.op == "div" and mul(x, s) is init]
            if init is ZERO:
                x = ZERO
            elif d > 0 and init.op in ("sym", "poly") and (init is s or init.op == "poly" and all(s in mon for mon, k in init.args[0])):
                x = init
            elif q and d < 0 and q[0].args[1] is s:
                x = q[0].args[0]
            else:
                raise Undecided("start %s" % init)
            nest, ivs, pc, args = self.sub4({l["iv"].uid: v}, nest, ivs, pc, args)
            pc = and_(pc, le(x, v) if d > 0 else le(v, x))
        for t in list(ivs) if not self.uses else ():
            mons = {mon for a in args for y in (a if isinstance(a, tuple) else (a,)) if isinstance(y, Term)
                    for z in subterms(y) if z.op == "poly" for mon, k in z.args[0] if t in mon and len(mon) > 1}
            if not mons:
                continue
            s = {x for mon in mons for x in mon if x is not t}
            if any(len(mon) != 2 for mon in mons) or len(s) != 1 or next(iter(s)).op != "sym":
                raise Undecided("product with a counter")
            s, = s
            v = mk("iv", t.args[0], t.args[1] + "#" + s.args[0])
            out = []
            for c in (pc.args if pc.op == "and" else (pc,)):
                if c is le(ZERO, t):
                    out.append(le(ZERO, v))
                    continue
                u = c.args[0] if c.op == "lt" else add(c.args[0].args[0], ZERO) if c.op == "not" and c.args[0].op == "lt" else None
                q = [x for x in subterms(c) if x.op == "div" and x.args[1] is s and (c is lt(t, x) or c is le(add(t, ONE), x))]
                if q:
                    # below the number of blocks
                    out.append(lt(v, add(sub(q[0].args[0], s), ONE)))
                else:
                    out.append(c)
            w = mk("iv", "quot", v)
            nest, ivs, pc, args = self.sub4({mul(t, s).uid: v, t.uid: w}, nest, ivs, and_(*out), [self.times(a, t, s, v) for a in args])
            pc = self.times(pc, t, s, v)
            if any(w in set(subterms(y)) for a in args + [pc] for y in (a if isinstance(a, tuple) else (a,)) if isinstance(y, Term)):
                raise Undecided("counter of blocks")
            nest = [(p, l, v if x is w else x, d) for p, l, x, d in nest]
            ivs = [v if x is w else x for x in ivs]
        return nest, ivs, pc, args

    @staticmethod
    def times(a, t, s, v):
        """a with v for t*s"""
        def f(y):
            if not isinstance(y, Term):
                return y
            m = {}
            for z in subterms(y):
                if z.op == "poly" and any(t in mon for mon, k in z.args[0]):
                    o = ZERO
                    for mon, k in z.args[0]:
                        x = const(k)
                        for w in ([v] if t in mon and s in mon and len(mon) == 2 else mon):
                            x = mul(x, w)
                        o = add(o, x)
                    m[z.uid] = o
            return subst(y, m) if m else y
        return tuple(f(y) for y in a) if isinstance(a, tuple) else f(a)

    @staticmethod
    def sub4(m, nest, ivs, pc, args):
        f = lambda y: subst(y, m) if isinstance(y, Term) else y
        return ([(p, l, v and f(v), d) for p, l, v, d in nest], [f(v) for v in ivs], f(pc),
                [tuple(map(f, a)) if isinstance(a, tuple) else f(a) for a in args])

    def one(self, kernel, c, args):
        if kernel == "ssq" and isinstance(args[0], Term) and is_const(args[0]):
            return      # which one of equal contributions it is cannot be told
        nest, ivs, strided = self.nest(c)
        pc = []
        for x in c["pc"]:
            y = self.value(x)
            if "status" in str(y) or self.uses and any(
                    z.op in ("el", "call", "load", "clob", "phi", "op") or
                    z.op == "iv" and not (self.ex.loops.get(z.uid) or {"step": 0})["step"] for z in subterms(y)):
                continue
            pc.append(y)
        pc = and_(*pc)
        pc, args = self.exits(pc, args, nest)
        main = [v for _, _, v, _ in nest]
        ivs = [v for v in ivs if v in main or v in set(subterms(pc))]
        nest, ivs, pc, args = unroll(nest, ivs, pc, args)
        nest, ivs, pc, args = self.blocks(strided, nest, ivs, pc, args)
        # conditional scalars: one site for each case
        self.sites.append(dict(kernel=kernel, args=args, modes=[""] * len(args), pc=pc, nest=nest, pos=c["pos"],
                               where="%s:%d" % (c["file"], c["line"]), ivs=ivs))

    def exits(self, pc, args, nest):
        """the counter of a finished loop that moves by one stands at the bound it was compared with"""
        inner = {v for _, _, v, _ in nest}
        for x in list(subterms(pc)):
            l = self.ex.loops.get(x.uid) if x.op == "iv" and x not in inner else None
            if not l or l["step"] not in (1, -1) or not isinstance(l["init"], Term):
                continue
            up = l["step"] == 1
            for c in pc.args if pc.op == "and" else (pc,):
                bs = [self.bound(y, x, up) for y in (c.args if c.op == "or" else (c,))]
                if None not in bs and bs and bs != [l["init"]]:
                    b = bs[0]
                    for y in bs[1:]:
                        b = mnmx("min" if up else "max", b, y)
                    to = {x.uid: mnmx("max" if up else "min", l["init"], b)}
                    pc = subst(pc, to)
                    args = [tuple(subst(y, to) if isinstance(y, Term) else y for y in a) if isinstance(a, tuple) else subst(a, to)
                            if isinstance(a, Term) else a for a in args]
                    break
        return pc, args

    @staticmethod
    def bound(c, t, up):
        """b when c is t >= b (t <= b)"""
        if not up and c.op == "lt":
            b = sub(sub(t, c.args[0]), ONE)             # t - b - 1 < 0
        elif not up and c.op == "not" and c.args[0].op == "lt":
            b = add(c.args[0].args[0], t)               # b - t < 0 does not hold
        elif c.op == "not" and c.args[0].op == "lt":
            b = sub(t, c.args[0].args[0])               # t - b < 0 does not hold
        elif c.op == "lt":
            b = add(add(c.args[0], t), ONE)             # b - 1 - t < 0
        else:
            return None
        return b if t not in set(subterms(b)) else None

    def assignment(self, c):
        p, v = c["a"]
        t = self.elem(p)
        self.contribution(t, v, c, c, first=True)

    def gather(self, c, t, v, all_, seen=()):
        """what goes into a maximum or a scaled sum of squares, whatever way it is brought in"""
        for x in set(subterms(v)):
            # gathered in a local variable
            if self.uses == "store" and isinstance(t, tuple) and x.op in ("iv", "phi") and len(x.args) == 2 and isinstance(x.args[1], str) \
                    and not (self.ex.loops.get(x.uid) or {"step": 0})["step"]:
                for l in self.cl.locals:
                    if l["what"][3] == x.args[1] and l["nest"][:len(c["nest"])] == c["nest"] and not any(l is y for y in seen):
                        self.gather(l, t, l["a"][0], all_, seen + (l,))
        r = self.value(v)
        own = t[1] if isinstance(t, tuple) else None
        els = [x for x in set(subterms(r)) if x.op == "el" and x.args[0] is not own and "status" not in str(x)]
        for x in els:
            up = [y for y in set(subterms(r)) if y.op == "call" and x in y.args and len(y.args) == 2]
            while up:
                x = up[0]
                up = [y for y in set(subterms(r)) if y.op == "call" and x in y.args and len(y.args) == 2]
            if all_ and not (own is not None and str(own) in ("scale", "sumsq") and x.op == "el"):
                self.one("uses", c, [t if self.uses == "store" and str(own) not in ("scale", "sumsq") else algs.ANY, x])
        if els or not all_ and self.uses == "store":
            return
        f = self.times2(v)
        if f is not None:
            self.one("mul", c, [f])
        elif self.uses == "local" and isinstance(t, tuple):
            self.one("put", c, [t, algs.ANY])

    def times2(self, v):
        if v.op == "op" and v.args[0] == "*" and len(v.args) == 3:
            for x in v.args[1:]:
                if is_const(x) or x.op in ("const", "real", "num") or not list(y for y in subterms(x) if y.op in ("iv", "phi", "clob", "load", "el")):
                    return x
        return None

    def contribution(self, t, v, c, at, first=False):
        """an assignment to element t: v is its old content plus something, or something new"""
        if v.op == "op" and v.args[0] == "+":
            for x, y in (v.args[1:], v.args[:0:-1]):
                if self.old(x, t):
                    self.one("add", at, [t, self.clean(y)])
                    return
        if v.op in ("iv", "phi") and len(v.args) == 2 and isinstance(v.args[1], str):
            # the sum gathered in a local variable
            w = [l for l in self.cl.locals if l["what"][3] == v.args[1] and l["nest"][:len(c["nest"])] == c["nest"]]
            if not w:
                raise Undecided("variable " + v.args[1])
            self.one("set", c, [t])
            for l in w:
                self.local(t, l, v.args[1])
            return
        if first:
            self.one("put", at, [t, self.clean(v)]) if not self.sums else self.init_(t, v, at)

    sums = False

    def local(self, t, l, name):
        v, = l["a"]
        if v.op == "op" and v.args[0] == "+":
            for x, y in (v.args[1:], v.args[:0:-1]):
                if x.op in ("iv", "phi") and x.args[-1] == name:
                    self.one("add", l, [t, self.clean(y)])
                    return
        if v is not ZERO:
            self.one("add", l, [t, self.clean(v)])

    def init_(self, t, v, at):
        self.one("set", at, [t])
        if v is not ZERO:
            self.one("add", at, [t, self.clean(v)])

    def old(self, x, t):
        if x.op == "load" and x.args[1] == ():
            return self.elem(x.args[0]) == t
        if x.op == "clob":
            return self.elem(x.args[0]) == t
        if any(x is v and self.elem(p) == t for p, v in self.stored):
            return True
        return x.op == "phi" and len(x.args) >= 4 and x.args[1] == "heap" and self.elem(x.args[2]) == t

    def clean(self, v):
        v = self.value(v)
        for x in subterms(v):
            if x.op in ("phi", "undef", "out", "heapmem", "clob", "load") and not (x.op == "load" and "spaces" in str(x)):
                raise Undecided("value " + str(v)[:80])
        return v


class Sums(Model):
    """kernels whose results are sums: an assignment starts a sum"""
    sums = True


OPAQUE = ("call", "el", "op")


def multiples(v, w, name):
    """two multiples of a block size are the same or a block apart"""
    b = sym(name.split("#")[-1].split("@")[0])
    return or_(eq(v, w), le(add(v, b), w), le(add(w, b), v))


class Cmp(Compare):
    def __init__(self, impl, ref, pre):
        for L in (impl, ref):
            # what is its own inverse counts by its occurrence
            num = {}
            for s in sorted(L, key=lambda s: s["pos"]):
                if s["kernel"] == "lacgv":
                    b = str(s["args"][1][1])
                    num[b] = num.get(b, 0) + 1
                    s["args"] = s["args"] + [const(num[b])]
        for s in impl + ref:
            # calls on nothing do not count
            s["pc"] = and_(s["pc"], *[lt(ZERO, x) for x in kernels.empty_if(s)])
        Compare.__init__(self, impl, ref, None, pre)
        self.geo = pre

    def facts(self, c):
        return []

    def level(self, s, r, exact):
        """the instances of r that those of s are when counters at the same depth correspond"""
        if s["kernel"] == r["kernel"] and len(s["nest"]) == len(r["nest"]):
            e = [(y, v) for (_, _, v, d), (_, _, y, d1) in zip(s["nest"], r["nest"]) if v is not None]
            f = equations(r["args"], s["args"])
            z = f is not None and solve(e + f, svars(r)) or None
            if z and (z[1] is TRUE or not exact) and not z[2]:
                return and_(z[1], subst(r["pc"], z[0])), z[0]
        return None

    def partly(self, s, r):
        """those that the arguments determine, and counters at the same depth for the others"""
        if s["kernel"] != r["kernel"] or len(s["nest"]) != len(r["nest"]):
            return None
        f = equations(r["args"], s["args"])
        z = f is not None and solve(f, svars(r)) or None
        if not z or z[1] is not TRUE or not z[2]:
            return None
        free = set(z[2])
        e = [(y, v) for (_, _, v, d), (_, _, y, d1) in zip(s["nest"], r["nest"]) if v is not None and y in free]
        z = solve(f + e, svars(r))
        if z and z[1] is TRUE and not z[2]:
            return subst(r["pc"], z[0]), z[0]
        return None

    def pick(self, s, r, other):
        z = self.level(s, r, True)
        if z is None:
            z = self.partly(s, r)
        if z is None:
            z = other(s, r)
            for v in svars(r) if z is not None else ():
                if "#" in v.args[1] and v.uid in z[1]:
                    x = z[1][v.uid]
                    if x.op != "iv" or x.args[1].split("#")[-1].split("@")[0] != v.args[1].split("#")[-1].split("@")[0]:
                        z = None        # not known to be a multiple of the block size
                        break
            if z is None:
                z = self.level(s, r, False)
        return z

    def image_(self, s, r):
        return self.pick(s, r, lambda s, r: Compare.image_(self, s, r))

    def image(self, s, r):
        key = (id(s), id(r), "m")
        if key not in self.memo:
            self.memo[key] = self.pick(s, r, lambda s, r: Compare.image(self, s, r))
        return self.memo[key]

    def apart(self, s, u):
        return and_(*[multiples(v, w, x.args[1]) for v, w, x in zip(svars(s), svars(u), svars(s)) if "#" in x.args[1]])

    def empty(self, *cs):
        c = and_(*cs)
        by = {}
        for x in set(subterms(c)):
            if x.op == "iv" and isinstance(x.args[1], str) and "#" in x.args[1]:
                by.setdefault(x.args[1].split("#")[-1].split("@")[0], []).append(x)
        more = [multiples(v, w, v.args[1]) for vs in by.values() for i, v in enumerate(vs) for w in vs[:i]]
        return Compare.empty(self, c, *more)

    def touched(self, s):
        out = []

        def el(b, i, j, mode):
            out.append(((b.args[0], i, i, j, j), mode))
        k, a = s["kernel"], s["args"]
        if k in ("uses", "mul", "lassq"):
            el(sym("sumsq"), ZERO, ZERO, "w")
            vals = []
        elif k in ("put", "set", "add"):
            el(*a[0][1:], "w")
            vals = a[1:]
        else:
            vals = [x for x in a if isinstance(x, Term)]
        for v in vals:
            for x in subterms(v):
                if x.op == "el":
                    el(*x.args, "r")
        for f in kernels.FOOT.get(k, ()):
            vec = f[0] == "v"
            at, r, c, mode = f[1:] if vec else f
            if not isinstance(a[at], tuple) or a[at][0] != "e":
                continue
            _, b, i, j = a[at]
            size = lambda x: ONE if x == "1" else a[x]
            if vec:
                inc = ONE if c is None else a[c]
                last = (add(i, sub(size(r), ONE)), j) if inc is ONE else (i, add(j, sub(size(r), ONE))) if inc is sym(LD.get(b.args[0], "")) \
                    else (None, None)
            else:
                last = [None if x is None else add(y, sub(size(x), ONE)) for x, y in ((r, i), (c, j))]
            out.append(((b.args[0], i, last[0], j, last[1]), mode))
        return out

    def same(self, s, u):
        a, b = s["args"][0], u["args"][0]
        if s["kernel"] in ("put", "add", "set") and a[1] is not b[1]:
            return None
        if s["kernel"] == "put":        # an element is assigned once, whatever the value
            return equations(s["args"][:1], u["args"][:1])
        e = equations(s["args"], u["args"])
        if e and s["kernel"] == "add" and any(head(x) != head(y) for x, y in e if x.op in OPAQUE or y.op in OPAQUE):
            return None                 # contributions of different form
        return e

    def accumulates(self, s):
        return s["kernel"] in ("add", "ssq", "lassq", "uses")


class Ref(algs.Rec):
    def stride(self, hi, s, d=1):
        """multiples of s from 0 below hi"""
        L = algs.Rec.Loop(self, ZERO, hi, d)
        old = L.v
        L.v = mk("iv", "ref", old.args[1] + "#" + s.args[0])
        p, l, v, d = self.nest[-1]
        self.nest[-1] = (p, l, L.v, d)
        return L


def short(name):
    m = re.match(r"plasma_core_(omp_)?(.*)$", name)
    x = m.group(2)
    x = x[2:] if x in ("dzamax", "scamax") else x[1:]
    return m.group(1) is not None, {"ormqr": "unmqr", "ormlq": "unmlq"}.get(x, x)


def precision(name):
    return re.match(r"plasma_core_(?:omp_)?(.)", name).group(1)


def pre(f, o):
    ps = {p[1] for p in f["params"]}
    # no tile is empty
    out = [le(ONE if f["name"].endswith(("_aux", "trssq", "amax")) or short(f["name"])[1] in kernels.BLOCKED else ZERO, sym(x)) for x in ("m", "n", "k") if x in ps]
    for a, l in LD.items():
        if l in ps:
            out += [le(x, sym(l)) for x in (sym("m"), sym("n"), ONE) if x is ONE or x.args[0] in ps]
            out.append(ne(sym(a), ZERO))
    if "ib" in ps:
        out += [lt(ZERO, sym("ib"))] + [le(sym("ib"), sym(x)) for x in ("ldt",) if x in ps]
    out += [ne(sym(x), ZERO) for x in ("tau", "work", "T", "V", "W", "X", "Y") if x in ps]
    if o:
        out += kernels.PRE.get(short(f["name"])[1], lambda o: [])(o)
    out += [le(ZERO, sym(x)) for x in ("m1", "n1", "m2", "n2", "l", "ldv", "ldw", "ldwork", "lda1", "lda2") if x in ps]
    if {"alpha", "beta"} <= ps:
        # what leaves the result alone need not be done
        out.append(or_(ne(sym("alpha"), ZERO), ne(sym("beta"), ONE)))
    return and_(*out)


def combos(f, cs, k, real):
    """assignments of option arguments"""
    import itertools
    ps = [p[1] for p in f["params"]]
    free = [x for x in ps if x in OPTIONS]
    for vs in itertools.product(*[OPTIONS[x] for x in free]):
        o = dict(zip(free, vs))
        if o.get("uplo") == "General" and k not in ("lacpy", "laset"):
            continue
        # real kernels know no conjugate transposition; those that copy take it as the transposition
        v = {a: "Trans" if a == "trans" and b == "ConjTrans" and real else b for a, b in o.items()}
        yield o, [const(cs["Plasma" + v[x]]) if x in o else sym(x) for x in ps]


def settle(sites, p):
    """alternatives that cannot be chosen under the preconditions"""
    memo = {}

    def done(x):
        m = {}
        for y in subterms(x):
            if y.op == "ite" and not any(v.op == "iv" for v in subterms(y.args[0])):
                if y.uid not in memo:
                    memo[y.uid] = y.args[2] if infeasible(and_(p, y.args[0]))[0] else y.args[1] if infeasible(and_(p, not_(y.args[0])))[0] else None
                if memo[y.uid] is not None:
                    m[y.uid] = memo[y.uid]
        return subst(x, m) if m else x
    for s in sites:
        s["args"] = [tuple(done(y) if isinstance(y, Term) else y for y in x) if isinstance(x, tuple) else done(x) if isinstance(x, Term) else x
                     for x in s["args"]]
        s["pc"] = done(s["pc"])


def split(sites):
    """a site for each of the alternatives that depend on the instance"""
    todo, out = list(sites), []
    while todo:
        s = todo.pop(0)
        t = next((y for x in [s["pc"]] + list(s["args"]) for z in (x if isinstance(x, tuple) else (x,)) if isinstance(z, Term)
                  for y in subterms(z) if y.op == "ite" and not any(v.op == "ite" for v in subterms(y.args[0]))
                  and any(v.op == "iv" for v in subterms(y.args[0]))), None)
        cj = s["pc"].args if s["pc"].op == "and" else (s["pc"],)
        if t is None:
            # a condition with a case of its own for the first
            w = next((eq(v, ZERO) for v in s["ivs"] for z in cj if z.op == "or" and {eq(v, ZERO), not_(eq(v, ZERO))} & set(z.args)), None)
            if w is not None and w not in cj and not_(w) not in cj:
                todo[:0] = [dict(s, pc=and_(*[simp(z, c) for z in cj], c)) for c in (w, not_(w)) if not infeasible(and_(s["pc"], c))[0]]
                continue
        if t is None:
            m = {}
            for z in cj:
                v = next((v for v in s["ivs"] if z is eq(v, ZERO)), None)
                if v is not None:
                    m[v.uid] = ZERO
            out.append(dict(s, args=[repl(x, m) for x in s["args"]],
                            pc=and_(subst(s["pc"], m), *[eq(v, ZERO) for v in s["ivs"] if v.uid in m])) if m else s)
            continue
        new = []
        for c, v in ((t.args[0], t.args[1]), (not_(t.args[0]), t.args[2])):
            m = {t.uid: v}
            pc = and_(subst(s["pc"], m), c)
            if not infeasible(pc)[0]:
                new.append(dict(s, pc=pc, args=[repl(x, m) for x in s["args"]]))
        todo[:0] = new
    return out


def simp(z, c):
    """z where c holds"""
    if z.op == "or":
        return TRUE if c in z.args else or_(*[x for x in z.args if x is not not_(c)])
    return z


def repl(x, m):
    return tuple(repl(y, m) for y in x) if isinstance(x, tuple) else subst(x, m) if isinstance(x, Term) else x


def compare(rep, f, model, rec, real, opt, seen, o={}, Cmp=None, more=()):
    for s in rec.sites if real else ():
        s["kernel"] = REAL.get(s["kernel"], s["kernel"])
    a, b = {s["kernel"] for s in model.sites}, {s["kernel"] for s in rec.sites}
    one = {"put", "set", "add"}
    if rec.sites and not b & one and a & one or b and b <= one and a & {"copy", "swap", "scal", "axpy", "lacpy", "laset", "lascl", "memset", "memcpy"}:
        raise Undecided("written by elements where calls are expected, or the other way")
    settle(model.sites, pre(f, o))
    model.sites = split(model.sites)
    C = (Cmp or globals()["Cmp"])(model.sites, list(canon(rec.sites, real)), and_(pre(f, o), *more))
    C.run(lambda kind, s, good, t=None: note(rep, f, kind, s, good, t, opt, seen))


TEXT = {"extra": "%s is not part of the operation", "missing": "%s is not done", "twice": "%s is done more than once",
        "order": "%s and %s come out of order"}


def shows(s):
    return "%s(%s)" % (s["kernel"], ", ".join(showarg(x) for x in s["args"]))


def note(rep, f, kind, s, good, t, opt, seen):
    if kind == "twice" and s["kernel"] in ("set", "lacgv", "uses", "seek", "reduce") or \
            kind == "twice" and s["args"] and s["args"][0] == ("e", sym("info"), ZERO, ZERO):
        return
    if kind == "order" and {s["kernel"], t["kernel"]} == {"scal", "div"}:
        return              # either scales by the pivot
    k = (kind, s["kernel"], s["where"] if kind != "missing" else shows(s), t["where"] if t else "")
    x = seen.setdefault(k, [True, s, None])
    if not good and x[0]:
        x[0] = False
        x[2] = (TEXT[kind] % ((shows(s), shows(t)) if kind == "order" else shows(s))) + (" (%s)" % opt if opt else "")


def flush(rep, f, seen):
    num = {}
    for (kind, kern, w, w2), (good, s, msg) in seen.items():
        where = "%s (%s)" % (f["file"] if kind == "missing" else w, f["name"])
        num[kind, kern] = num.get((kind, kern), 0) + 1
        rep.check(good, kind, "C16:%s:%s:%s:%d" % (f["name"], kind, kern, num[kind, kern]), where, msg)


def named(x, model, f):
    """the argument that a name stands for"""
    if x == "?":
        return algs.ANY
    if x.isdigit():
        return const(int(x))
    return model.arg(sym(x)) if x in model.params else ("w", algs.ANY)


def analyse(F, only=None):
    rep = Report("C16", "the calls and assignments of each tile kernel and of its task, as sets of instances over their loops, equal "
                 "those that define the operation: same function, options, sizes, scalars, elements and values, each once")
    cs = consts(F)
    rep.assumptions = ["leading dimensions are at least the number of rows", "dimensions are not negative"]
    skipped = []
    for name in sorted(F.funcs):
        if not re.match(r"plasma_core_", name) or only and name not in only:
            continue
        f = F.funcs[name]
        f = f[0] if isinstance(f, list) else f
        if f.get("body") is None:
            continue
        omp, k = short(name)
        real = precision(name) in "sd" and not k.startswith("lag2") and "zamax" not in name and "camax" not in name
        seen = {}
        try:
            if omp and ("plasma_core_" + name[len("plasma_core_omp_"):]) in F.funcs:
                g = F.funcs["plasma_core_" + name[len("plasma_core_omp_"):]]
                g = g[0] if isinstance(g, list) else g
                M = Model(F, f, None, False, real)
                rec = Ref({}, {}, real, cs)
                args = []
                for p in g["params"]:
                    x = p[1]
                    if k == "laset" and x in ("A", "lda"):
                        x = {"A": ("e", sym("A"), add(sym("i"), mul(sym("j"), sym("mb"))), ZERO), "lda": sym("mb")}[x]
                        args.append(x)
                    else:
                        args.append(named(x, M, f) if x in M.params and not (x == "work" and k[:2] != "la") else algs.ANY)
                rec(k, *args)
                if k in ("gessq", "hessq", "syssq", "trssq"):
                    rec("put", e("scale", 0), ZERO)
                    rec("put", e("sumsq", 0), ONE)
                compare(rep, f, M, rec, real, "", seen)
            elif k in kernels.CALLS:
                M = Model(F, f, None, True, real)
                op, names = kernels.CALLS[k]
                rec = Ref({}, {}, real, cs)
                rec(op, *[named(x, M, f) for x in names.split()])
                if "value" in M.params:
                    rec("put", e("value", 0), algs.ANY)
                compare(rep, f, M, rec, real, "", seen)
            elif k in kernels.OTHER or k in kernels.BLOCKED:
                for o, args in combos(f, cs, k, real):
                    M = (Sums if k.endswith("_aux") else Model)(F, f, args, True, real)
                    rec = Ref(o, {}, real, cs)
                    if real and k not in kernels.BLOCKED:
                        rec.o = {a: "Trans" if b == "ConjTrans" else b for a, b in o.items()}
                    (kernels.OTHER.get(k) or kernels.BLOCKED[k])(rec)
                    compare(rep, f, M, rec, real, " ".join("%s=%s" % x for x in sorted(o.items())), seen, o)
            elif k in ("getrf", "geswp"):
                import panel
                panel.judge(rep, F, f, k, cs, real, seen)
            else:
                skipped.append(name)
                continue
        except Undecided as x:
            skipped.append("%s (%s)" % (name, x))
            continue
        flush(rep, f, seen)
    rep.skipped = skipped
    return rep, skipped


def sums(F, rep, only=None):
    todo = [f[0] if isinstance(f, list) else f for n, f in sorted(F.funcs.items()) if n.startswith("plasma_core_")]
    todo += [g for (u, n), g in sorted(F.local.items()) if u != "*" and "core_blas/" in u and not n.startswith("plasma_core_")]
    for f in todo:
        if f.get("body") is None or only and f["name"] not in only or "ssq" not in f["name"] and not any(p[1] == "sumsq" for p in f["params"]):
            continue
        try:
            found = scaled.check(F, f, Events(f["name"], {n for u, n in F.local if u == f["unit"]}))
        except Undecided:
            continue
        num = {}
        for c, bad, form in found:
            num[form] = num.get(form, 0) + 1
            rep.check(bad is None, "sums", "C16:%s:sums:%s:%d" % (f["name"], form, num[form]), "%s:%d (%s)" % (c["file"], c["line"], f["name"]),
                      "%s of a scaled sum of squares: %s" % (form, bad))


def run(F):
    rep, skipped = analyse(F)
    sums(F, rep)
    return finish(rep, {"extra": 840, "missing": 800, "twice": 780, "order": 2300, "sums": 40}, {"not analysed": skipped})
