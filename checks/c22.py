"""C22: every tile algorithm applies the right kernel, once, to every tile, in
the right order.

The kernel calls of an algorithm (under each combination of options) are sets
of instances: the arguments as affine functions of the iteration variables,
over the iterations the loops and conditions admit.  They are compared with
the loop nest that the mathematics of the operation asks for (checks/algs.py):
each instance is asked for, each instance asked for is made, none is made
twice, and two instances that share a tile at least one of them writes come in
the order asked for.  All by elimination in linear arithmetic; how the loops
are written (order, direction, index shifts, splitting into helpers) does not
matter."""
import itertools
import re
import interp, terms
from client import *
from common import *
from predicates import *
import shapes, algs, c10
from shapes import NB
from c10 import Norm, kernel, base, tile_of, facts, combos, strip, callis, VIEW
from shapes import SHAPE
from algs import KERN, ALG, TILES

# argument that numbers the threads of a kernel
PIN = {"getrf": 3}
UNM = ("unmqr", "ormqr", "unmlq", "ormlq", "unmqr_tree", "ormqr_tree", "unmlq_tree", "ormlq_tree")


class Calls(Base):
    def __init__(self):
        self.out = []

    def init(self):
        return None

    def inline(self, name):
        return name == "plasma_tree_get_operation" or Base.inline(self, name)

    def call(self, ex, st, name, args, e):
        if name == "plasma_tree_operations" and args[2].op == args[3].op == "addr":
            # the table of operations of a reduction tree: opaque, but the same for everyone
            self.out.append(dict(name="plasma_core_ztree", a=tuple(args[:2]), pc=st.pc, nest=list(ex.nest), line=e[4],
                                 pos=ex.pos(("call", ex.frame, e[4], name, tuple(args))), file=ex.stack[-1][0]["file"]))
            st = st.copy()
            st.env[args[2].args[0]], st.env[args[3].args[0]] = sym("#operations"), algs.OPS
            return [(st, mk("ret", name, ex.site(e)))]
        m = re.match(r"plasma_p[sdcz]([a-z0-9_]+)$", name)
        if m and "p" + m.group(1) in KERN:
            name = name[:7] + "core_" + name[8] + "p" + m.group(1)
            self.out.append(dict(name=name, a=tuple(args), pc=st.pc, nest=list(ex.nest), line=e[4],
                                 pos=ex.pos(("call", ex.frame, e[4], name, tuple(args))), file=ex.stack[-1][0]["file"]))
            return None
        if name.startswith("plasma_core_") and name in KNOWN:
            self.out.append(dict(name=name, a=tuple(args), pc=st.pc, nest=list(ex.nest), line=e[4],
                                 pos=ex.pos(("call", ex.frame, e[4], name, tuple(args))), file=ex.stack[-1][0]["file"]))
        return None


# ---- sites of the implementation -----------------------------------------
def arith(c, nest):
    """does a condition speak of the geometry and the iteration only?"""
    for x in subterms(c):
        if x.op in ("load", "undef", "phi", "out", "heapmem", "addr", "fresh", "ld"):
            return False
        if x.op == "call" and x.args[0] not in ("conj", "tree", c10.MV, c10.NV):
            return False
        if x.op == "iv" and x not in nest:
            return False
    return True


class Ends(Norm):
    """min(d, NB*(k+1)), the end of the k-th chunk of a dimension, is NB*k plus the extent of the chunk"""

    def __call__(self, t):
        if not isinstance(t, Term):
            return t
        r = Norm.__call__(self, t)
        # the tiles of T are as wide as those of A
        r = subst(r, {fld(sym("T"), "nb").uid: NB})
        m = {}
        for x in subterms(r):
            if x.op != "min" or len(x.args) != 2:
                continue
            for d, y in (x.args, x.args[::-1]):
                for k in "MNK":
                    # min(d - c, NB*(p+1) - c)
                    for z in (sub(d, sym("#d" + k)),):
                        p = coeff(sub(sub(y, z), NB), "#NB")
                        if p is not None and all(v.op != "sym" or not v.args[0].startswith("#d") for v in subterms(z)):
                            m[x.uid] = add(add(mul(NB, p), z), mk("ext", sym("#" + k), p))
        r = subst(r, m) if m else r
        m = {}
        for x in subterms(r):
            if x.op == "load" and x.args[1] == () and subject(x.args[0]) is sym("#operations"):
                y = algs.field(self.layout, index(x.args[0]))
                if y is not None:
                    m[x.uid] = algs.entry(*y)
            if x.op == "call" and x.args[0] == "conjf":
                m[x.uid] = mk("call", "conj", *x.args[1:])
            if x.op == "div" and x.args[1] is NB:
                y = self.tile(x.args[0])
                if y is not None:
                    m[x.uid] = y
        return subst(r, m) if m else r

    layout = {}

    @staticmethod
    def tile(x):
        """the tile that element x lies in, if that is a tile index"""
        p = coeff(x, "#NB")
        if p is not None:
            return p
        if x.op == "max" and len(x.args) == 2 and ZERO in x.args:
            p = coeff(x.args[x.args[0] is ZERO], "#NB")
            return p and mnmx("max", ZERO, p)
        e = [y for y in subterms(x) if y.op == "ext"]
        if len(e) == 1 and coeff(sub(add(x, ONE), e[0]), "#NB") is e[0].args[1]:
            # the last element of a chunk
            return mnmx("min", e[0].args[1], sub(sym("#t" + e[0].args[0].args[0][1:]), ONE))
        return None


def subject(p):
    return p.args[0] if p.op == "padd" else p


def index(p):
    return p.args[1] if p.op == "padd" else ZERO


class Stores(Base):
    def init(self):
        self.out = []
        return None

    def store(self, ex, st, loc, val, node):
        if loc[0] == "mem":
            self.out.append((loc[1], val))
        return st


def layout(F):
    """how plasma_tree_insert_operation lays out the table: offset in an entry -> (entry size, what)"""
    f = F.funcs.get("plasma_tree_insert_operation") or F.local.get(("*", "plasma_tree_insert_operation"))
    if f is None:
        return {}
    f = f[0] if isinstance(f, list) else f
    cl = Stores()
    interp.Exec(F, cl).run(f, None)
    names = [sym(p[1]) for p in f["params"]]
    out = {}
    for p, v in cl.out:
        if subject(p) is names[0] and v in names[3:]:
            q = terms._poly(index(p))
            k = q.pop((names[2],), None)
            if k and set(q) <= {()}:
                out[q.get((), 0)] = (k, names.index(v) - 3)
    return out


class Sites:
    def __init__(self, F, f, short, o, args, real):
        self.F, self.real, self.short = F, real, short
        cl = Calls()
        ex = interp.Exec(F, cl)
        if short.endswith("_tree"):
            # T holds two sets of tiles side by side
            args = [upd(sym("T"), ("nt",), algs.TNT) if a is sym("T") else a for a in args]
        ex.run(f, args)
        self.norm = Ends(SHAPE[short](o))
        if short.endswith("_tree"):
            self.norm.layout = layout(F)
        self.sites, self.problems = [], []
        for c in cl.out:
            k = kernel(c["name"])
            if k in KERN:
                self.site(ex, k, c)

    def site(self, ex, k, c):
        n = self.norm
        spec = algs.SPECIAL.get((self.short, k), KERN[k]).split()
        nest, ivs = [], []
        for pos, site in c["nest"]:
            L = [l for l in ex.loops.values() if l["site"] == site]
            u = [l for l in L if l["step"]]
            ivs += [l["iv"] for l in L if l["step"]]
            # the variable the arguments depend on
            used = {x.uid for p in spec for x in subterms(n(c["a"][int(p.rstrip("rws"))]))}
            m = sorted(u or L, key=lambda l: l["iv"].uid not in used)
            nest.append((pos, site, m[0]["iv"] if m else None, u and m[0]["step"] or 0))
            for l in L:
                if not l["step"]:
                    ivs.append(l["iv"])
        pc = []
        main = [v for _, _, v, _ in nest]
        other = [v for v in ivs if v not in main]
        for x in c["pc"]:
            y = n(x)
            # what the loops say of further counters holds of itself
            vs = {v for v in subterms(y) if v.op in ("sym", "iv")}
            if vs and all(v in other for v in vs) and len({v.args[1] for v in vs}) == 1:
                continue
            if arith(y, ivs):
                pc.append(y)
        if not any(v in subterms(y) for y in pc for v in other):
            ivs = [v for v in ivs if v in main]
        pc = and_(*pc)
        vals, modes = [], []
        for p in spec:
            i, m = int(p.rstrip("rws")), p[-1] if p[-1] in "rws" else ""
            v = c["a"][i]
            vals.append(self.arg(v, m in ("r", "w"), c["a"][i + 1] if (k[:2] == "la" or "amax" in k) and i + 1 < len(c["a"]) else None))
            modes.append(m)
        ops = {x.args[1] for y in [pc] + [z for v in vals for _, w in v for z in (w if isinstance(w, tuple) else (w,)) if isinstance(z, Term)]
               for x in subterms(y) if x.op == "call" and x.args[0] == "tree"}
        if len(ops) == 1:
            # the number of the operation identifies the instance
            vals.append([(TRUE, ops.pop())])
            modes.append("")
        if k in PIN:
            # the threads of the panel: one instance for all
            z = c["a"][PIN[k]]
            if nest and nest[-1][2] is z:
                pc = subst(pc, {z.uid: ZERO})
                ivs.remove(z)
                nest.pop()
        where = "%s:%d" % (c["file"], c["line"])
        # conditional arguments: one site for each case
        alts = [(pc, [])]
        for v in vals:
            nxt = []
            for cond, pre in alts:
                for cc, w in v:
                    z = and_(cond, cc)
                    if z is not FALSE:
                        nxt.append((z, pre + [w]))
            alts = nxt
        k0, a = k, c["a"]
        for cond, args in alts:
            k, modes1 = k0, modes
            nest1, ivs1, cond, args = unroll(nest, ivs, cond, args)
            if k == "gemm" and (a[4] is ZERO or args[2] is ZERO):
                k, args, modes1 = "scale", args[5:], ["", "w"]
            elif k in ("herk", "syrk") and a[3] is ZERO:
                k, args, modes1 = "trscale", [args[0], args[4], args[5]], ["", "", "w"]
            elif k in ("her2k", "syr2k") and a[3] is ZERO:
                k, args, modes1 = "trscale", [args[0], args[5], args[6]], ["", "", "w"]
            self.sites.append(dict(kernel=k, args=args, modes=modes1, pc=cond, nest=nest1, pos=c["pos"], where=where, ivs=ivs1))

    def whole(self, x):
        """LAPACK storage starts with the first tile"""
        m = {fld(sym(d), f).uid: ZERO for d in self.norm.shape for f in "ij"}
        for y in subterms(x):
            if y.op == "mod" and y.args[0].uid in m:
                m[y.uid] = ZERO
        return subst(x, m)

    def arg(self, v, tile, ld=None):
        n = self.norm
        if not tile:
            v = n(v)
        out = []
        for c, x in leaves(v):
            c = n(c)
            if tile:
                t = tile_of(x)
                d = t and base(t[0])
                view = callis(strip(x), VIEW)
                if view and base(x):
                    out.append((c, ("v", base(x)) + tuple(n(y) for y in strip(x).args[2:6])))
                    continue
                if d is None:
                    out.append((c, ("?", self.whole(n(x))) + ((n(ld),) if ld is not None else ())))
                    continue
                i, j, off = n(t[1]), n(t[2]), self.whole(n(t[3]))
                out.append((c, ("t", d, i, j) + ((off,) if off is not ZERO else ())))
            else:
                x = n(x)
                if self.real and is_const(x) and x.args[0] == 113:
                    x = const(112)
                out.append((c, x))
        return out


def unroll(nest, ivs, pc, args):
    """a loop over t that uses t/D and t%D is one over the quotients and, inside, one over the remainders"""
    for at, (pos, site, t, d) in enumerate(nest):
        if t is None or not d:
            continue
        ds = {x.args[1] for y in [pc] + [z for a in args for z in (a if isinstance(a, tuple) else (a,)) if isinstance(z, Term)]
              for x in subterms(y) if x.op in ("div", "mod") and len(x.args) == 2 and x.args[0] is t}
        if len(ds) != 1 or next(iter(ds)).op != "sym":
            continue
        D, = ds
        q, r = mk("iv", site, t.args[1] + "/"), mk("iv", site, t.args[1] + "%")
        whole = {t.uid: add(mul(D, q), r)}

        def f(x):
            if isinstance(x, tuple):
                return tuple(f(y) for y in x)
            if not isinstance(x, Term):
                return x
            return subst(subst(x, {mk("div", t, D).uid: q, mk("mod", t, D).uid: r}), whole)
        out = [le(ZERO, r), lt(r, D)]
        for c in (pc.args if pc.op == "and" else (pc,)):
            e = None
            u = c.args[0] if c.op == "lt" else c.args[0].args[0] if c.op == "not" and c.args[0].op == "lt" else None
            if u is not None and t in subterms(u):
                # the bounds t >= 0 and t < D*E
                if c is le(ZERO, t):
                    e = le(ZERO, q)
                else:
                    # u < 0 with u = t - D*E, or u >= 0 with u = D*E - t - 1
                    k = coeff(sub(t, u) if c.op == "lt" else add(add(u, t), ONE), D.args[0])
                    e = lt(q, k) if k is not None and t not in subterms(k) else None
            out.append(e if e is not None else f(c))
        return (nest[:at] + [(pos, site, q, d), (pos, site + "%", r, d)] + nest[at + 1:],
                [v for v in ivs if v is not t] + [q, r], and_(*out), [f(a) for a in args])
    return nest, ivs, pc, args


# ---- instance sets --------------------------------------------------------
def rename(s, tag):
    m = {v.uid: mk("iv", tag, v.args[1] + "@" + str(v.args[0])) for v in svars(s)}

    def f(x):
        if isinstance(x, tuple):
            return tuple(f(y) for y in x)
        return subst(x, m) if isinstance(x, Term) else x
    r = dict(s)
    r["args"] = [f(x) for x in s["args"]]
    r["pc"] = f(s["pc"])
    r["nest"] = [(p, l, v and f(v), d) for p, l, v, d in s["nest"]]
    if "ivs" in s:
        r["ivs"] = [f(v) for v in s["ivs"]]
    return r


def svars(s):
    if "ivs" in s:
        return s["ivs"]
    return [v for _, _, v, _ in s["nest"] if v is not None]


def head(t):
    """what a value is made of, leaving out the indices"""
    if t.op == "el":
        return t.args[0]
    return (t.op,) + tuple(head(x) if isinstance(x, Term) else x for x in t.args) if t.op in ("call", "op") else t


def equations(a, b):
    """[(x, y)] of terms that must agree, None when the arguments differ"""
    out = []

    def both(u, v):
        if "padd" in (u.op, v.op):
            (p, i), (q, j) = [w.args if w.op == "padd" else (w, ZERO) for w in (u, v)]
            if p is q:
                u, v = i, j
        if u is not v and u.op == v.op and u.op in ("el", "call", "op", "tile") and len(u.args) == len(v.args):
            a, b = list(u.args), list(v.args)
            if u.op == "op" and a[0] in ("+", "*") and len(a) == 3 and head(a[1]) != head(b[1]):
                b[1:] = b[:0:-1]
            if all(x == y for x, y in zip(a, b) if not isinstance(x, Term) or not isinstance(y, Term)):
                for x, y in zip(a, b):
                    if isinstance(x, Term):
                        both(x, y)
                return
        out.append((u, v))
    for x, y in zip(a, b):
        if algs.ANY in (x, y):
            continue
        if isinstance(x, tuple) != isinstance(y, tuple):
            return None
        if isinstance(x, tuple):
            if len(x) != len(y) or x[0] != y[0] or x[0] == "e" and x[1] is not y[1] and not x[1].op == y[1].op == "tile":
                return None
            for u, v in zip(x, y):
                if isinstance(u, Term) and isinstance(v, Term):
                    both(u, v)
                elif u != v:
                    return None
        else:
            both(x, y)
    return out


def offset(p, base):
    """p - base"""
    return p.args[1] if p.op == "padd" and p.args[0] is base else ZERO if p is base else mk("unknown", p)


def solve(eqs, vs):
    """express the variables by the other side: (substitution, residual condition) or None"""
    m = {}
    todo = [v for v in vs]
    progress = True
    work = list(eqs)
    while progress and todo:
        progress = False
        for x, y in work:
            d = sub(x, y)
            d = coeff(d, "#NB") or d
            if d.op not in ("poly", "iv"):
                continue
            p = dict(d.args[0]) if d.op == "poly" else {(d,): 1}
            for v in todo:
                c = p.get((v,), 0)
                if abs(c) != 1 or sum(1 for z in subterms(d) if z is v) != 1 or \
                        any(v in mon and mon != (v,) for mon in p):
                    continue
                # c*v + rest == 0
                e = sub(v, d) if c == 1 else add(v, d)
                m1 = {v.uid: e}
                m = {u: subst(t, m1) for u, t in m.items()}
                m[v.uid] = e
                work = [(subst(a, m1), subst(b, m1)) for a, b in work]
                todo.remove(v)
                progress = True
                break
            if progress:
                break
    res = []
    for x, y in work:
        if x is y:
            continue
        d = sub(x, y)
        e = eq(coeff(d, "#NB"), ZERO) if coeff(d, "#NB") else eq(x, y)
        if e is FALSE:
            return None
        if e is not TRUE:
            res.append(e)
    return m, and_(*res), todo


def part(off, size, full):
    """(first, last) tile of the extent size at offset off; None: unbounded"""
    p = coeff(off, "#NB")
    if p is None:
        return ZERO, None
    if size.op == "ext" and size.args[1] is p or size is NB:
        return p, p
    return p, None


def coeff(t, name):
    """t = coefficient * sym(name)"""
    if t is ZERO:
        return ZERO
    p = dict(t.args[0]) if t.op == "poly" else {(t,): 1}
    v, out = sym(name), ZERO
    for mon, c in p.items():
        mon = list(mon)
        if v not in mon:
            return None
        mon.remove(v)
        x = const(c)
        for y in mon:
            x = mul(x, y)
        out = add(out, x)
    return out


def overlap(x, y):
    c = []
    for i in range(1, min(len(x), len(y)), 2):
        for a, b in ((x, y), (y, x)):
            if b[i + 1] is not None:
                c.append(le(a[i], b[i + 1]))
    return and_(*c)


class Compare:
    def __init__(self, impl, ref, norm, pre=TRUE):
        self.impl = [rename(s, "I%d" % i) for i, s in enumerate(impl)]
        self.ref = [rename(s, "R%d" % i) for i, s in enumerate(ref)]
        self.norm = norm
        self.geo = and_(pre, *[le(ZERO, TILES[k]) for k in "MNK"] +
                        [or_(and_(lt(ZERO, sym("#d" + k)), lt(ZERO, TILES[k])), and_(eq(sym("#d" + k), ZERO), eq(TILES[k], ZERO)))
                         for k in "MNK"])
        self.memo = {}
        for s in self.impl + self.ref:
            s["D"] = and_(s["pc"], *self.facts(s["pc"]))

    def facts(self, c):
        return facts(c, self.norm)

    def empty(self, *cs):
        c = and_(self.geo, *cs)
        if c is FALSE:
            return True
        if c.uid not in self.memo:
            self.memo[c.uid] = infeasible(c)[0]
        return self.memo[c.uid]

    def image(self, s, r):
        """(condition under which the instance of s is an instance of r, substitution of r's variables)"""
        key = (id(s), id(r))
        if key in self.memo:
            return self.memo[key]
        out = None
        if s["kernel"] == r["kernel"]:
            e = equations(r["args"], s["args"])
            z = e is not None and solve(e, svars(r)) or None
            if z is not None:
                m, res, free = z
                if free:
                    # conditions that tie further variables
                    more = [(x.args[0], ZERO) for x in (r["pc"].args if r["pc"].op == "and" else (r["pc"],)) if x.op == "eq"]
                    z = solve(e + more, svars(r))
                    if z is not None:
                        m, _, free = z
                if not free:
                    out = (and_(res, subst(r["pc"], m)), m)
                elif all(not self.mentions(r, v) for v in free):
                    out = (and_(res, subst(r["pc"], m)), m)
                else:
                    # variables the arguments do not determine: a violation shows up as an instance made repeatedly
                    out = (None, m)
        self.memo[key] = out
        return out

    def mentions(self, s, v):
        return any(x is v for x in subterms(s["pc"]))

    def covered(self, s, others):
        alts = []
        for r in others:
            z = self.image(s, r)
            if z is None or z[0] is None:
                continue
            alts.append(z[0])
        g = and_(*[f for a in alts for f in self.facts(a)])
        return self.empty(s["D"], g, *[not_(a) for a in alts])

    def run(self, check):
        for s in self.impl:
            check("extra", s, self.covered(s, self.ref))
        for r in self.ref:
            check("missing", r, self.covered(r, self.impl))
        # none twice
        for i, s in enumerate(self.impl):
            for u in self.impl[:i + 1]:
                if s["kernel"] != u["kernel"]:
                    continue
                if u is s:
                    u = rename(s, "X")
                    u["D"] = and_(u["pc"], self.apart(s, u), *self.facts(u["pc"]))
                    e = self.same(s, u)
                    z = solve(e, svars(u))
                    m, res, free = z
                    check("twice", s, all(self.empty(s["D"], res, subst(u["D"], m), not_(eq(m.get(v.uid, v), w)))
                                          for v, w in zip(svars(u), svars(s)) if m.get(v.uid) is not w
                                          and (v.uid in m or any(v is y for _, _, y, _ in u["nest"]))))
                else:
                    e = self.same(s, u)
                    z = e is not None and solve(e, svars(u)) or None
                    if z is None:
                        continue
                    m, res, free = z
                    check("twice", s, self.empty(s["D"], res, subst(u["D"], m)), u)
        self.orders(check)

    def apart(self, s, u):
        """what the counters of two instances of a site obey"""
        return TRUE

    def same(self, s, u):
        """equations under which two sites do the same"""
        return equations(s["args"], u["args"])

    # ---- order
    def before(self, a, b):
        """conditions (one for each way) under which a's instance comes before b's"""
        out, pre = [], []
        for (p, l, v, d), (q, k, w, e) in itertools.zip_longest(a["nest"], b["nest"], fillvalue=(None, None, None, 0)):
            if l != k or l is None:
                break
            if d == 0:
                return out + [and_(*pre)]       # order of the iterations unknown
            out.append(and_(*(pre + [lt(v, w) if d > 0 else lt(w, v)])))
            pre.append(eq(v, w))
        i = len(pre)
        pa = a["nest"][i][0] if i < len(a["nest"]) else a["pos"]
        pb = b["nest"][i][0] if i < len(b["nest"]) else b["pos"]
        if pa < pb:
            out.append(and_(*pre))
        return out

    def orders(self, check):
        for a in self.impl:
            for b0 in self.impl:
                b = b0
                if a is b0:
                    b = rename(b0, "Y")
                    b["D"] = and_(b["pc"], *self.facts(b["pc"]))
                shares = []
                for x, mx in self.touched(a):
                    for y, my in self.touched(b):
                        if mx + my in ("rr", "ss") or x[0] != y[0]:
                            continue
                        if mx + my == "ww" and self.accumulates(a) and self.accumulates(b):
                            continue
                        shares.append(overlap(x, y))
                if not shares:
                    continue
                good = True
                for sh in dict.fromkeys(shares):
                    for bf in self.before(a, b):
                        pre = and_(sh, bf, a["D"], b["D"])
                        if pre is FALSE or self.empty(pre):
                            continue
                        good = good and self.ordered(pre, a, b)
                check("order", a, good, b0)

    def touched(self, s):
        """[((what, first row, last row, first column, last column), mode)] in tiles"""
        out = []
        for x, m in zip(s["args"], s["modes"]):
            if not m:
                continue
            if m == "s" or isinstance(x, tuple) and x[0] == "?":
                out.append((("work", ZERO, None, ZERO, None), m))
            elif isinstance(x, tuple) and x[0] == "t":
                out.append(((x[1], x[2], x[2], x[3], x[3]), m))
            elif isinstance(x, tuple) and x[0] == "v":
                out.append(((x[1],) + part(x[2], x[4], None) + part(x[3], x[5], None), m))
        if s["kernel"] == "getrf":
            # pivots of the panel
            k = coeff(offset(s["args"][1], sym("ipiv")), "#NB")
            out.append((("ipiv",) + ((k, k) if k is not None else (ZERO, None)) + (ZERO, ZERO), "w"))
        elif s["kernel"] == "geswp":
            # pivots k1..k2, counted from the given one
            v, k1, k2, p = s["args"][1:5]
            a = coeff(add(sub(k1, ONE), offset(p, sym("ipiv"))), "#NB")
            b = add(k2, offset(p, sym("ipiv")))
            one = a is not None and sub(b, mul(NB, a))
            out.append((("ipiv", a if a is not None else ZERO, a if one is not False and one.op == "ext" else None, ZERO, ZERO), "r"))
        return out

    def accumulates(self, s):
        """adds to the tile: such updates commute"""
        if s["kernel"] in ("gemm", "hemm", "symm", "her2k", "syr2k"):
            return s["args"][5] is ONE
        return s["kernel"] in ("herk", "syrk") and s["args"][4] is ONE

    def ordered(self, pre, a, b):
        for r in self.ref:
            z = self.image(a, r)
            if z is None or z[0] is None:
                continue
            c1 = and_(pre, z[0])
            if c1 is FALSE or self.empty(c1):
                continue
            for q in self.ref:
                if q is r:
                    q1 = rename(q, "Z")
                else:
                    q1 = q
                y = self.image(b, q1) if q1 is q else self.image_(b, q1)
                if y is None or y[0] is None:
                    continue
                # the reference asks for b's instance first
                for bf in self.before(q1, r):
                    c = subst(subst(bf, z[1]), y[1])
                    if not self.empty(c1, y[0], c):
                        return False
        return True

    def image_(self, s, r):
        if s["kernel"] != r["kernel"]:
            return None
        e = equations(r["args"], s["args"])
        z = e is not None and solve(e, svars(r)) or None
        if z is None:
            return None
        m, res, free = z
        return (None if free else and_(res, subst(r["pc"], m)), m)


def canon(r, real):
    """conditional arguments of the reference: one site for each case"""
    for s in r:
        vals = []
        for x in s["args"]:
            vals.append([(TRUE, x)] if isinstance(x, tuple) else leaves(x))
        alts = [(s["pc"], [])]
        for v in vals:
            alts = [(and_(c, cc), p + [w]) for c, p in alts for cc, w in v]
        k = s["kernel"]
        for c, a in alts:
            if c is not FALSE:
                t = dict(s)
                t["args"], t["pc"] = a, c
                yield t


def pre(short, cs):
    """what the tile algorithm may rely on"""
    if short == "gemm":
        a = fld(sym("A"), "type")
        return or_(eq(a, const(cs["PlasmaGeneral"])), eq(a, const(cs["PlasmaGeneralBand"])))
    if short in ("lag2c", "lag2s", "lag2z", "lag2d"):
        return and_(*[eq(fld(sym(x), "type"), const(cs["PlasmaGeneral"])) for x in ("A", "As")])
    if short == "ge2gb":
        # a matrix with more rows has no fewer tile rows
        M, N, tM, tN = sym("#dM"), sym("#dN"), TILES["M"], TILES["N"]
        return or_(and_(le(N, M), le(tN, tM)), and_(lt(M, N), le(tM, tN)))
    u = [const(cs["Plasma" + x]) for x in ("Upper", "Lower", "General")]
    if short in ("pb2desc", "desc2pb"):
        return or_(*[eq(fld(sym("A"), "uplo"), x) for x in u])
    return TRUE


def legal(short, o, real):
    """transpositions the routine documents"""
    x = o.get("trans")
    if short in UNM or short in ("herk", "her2k"):
        return x != ("ConjTrans" if real else "Trans")
    if short in ("syrk", "syr2k"):
        return x != "ConjTrans"
    return True


def showarg(x):
    if isinstance(x, tuple):
        return "%s(%s)" % (x[1], ", ".join(show(y) for y in x[2:])) if x[0] in "tv" else ", ".join(show(y) for y in x[1:])
    return show(x)


def shows(s):
    return "%s(%s)" % (s["kernel"], ", ".join(showarg(x) for x in s["args"]))


def run(F, only=None):
    import tilework
    rep = Report("C22", "the kernel calls of each tile algorithm, as sets of instances over its iteration space, equal those of "
                 "the loop nest that the operation asks for: same kernel, options, scalars and tiles, each once, conflicting "
                 "ones in the same order")
    cs = consts(F)
    rep.assumptions = ["descriptors passed together have the same square tile size", "dimensions are not negative"]
    for n, f, short in tilework.algorithms(F):
        if short not in ALG or (only and n not in only):
            continue
        real = n[8] in "sd" and not n.startswith(("plasma_pdz", "plasma_psc"))
        R = Routine(rep, f)
        for o, args in combos(F, f, short):
            if not legal(short, o, real):
                continue
            S = Sites(F, f, short, o, args, real)
            if real:
                o = {k: ("Trans" if v == "ConjTrans" else v) for k, v in o.items()}
            opt = " ".join("%s=%s" % x for x in sorted(o.items()))
            results = []
            for alg in [ALG[short]] + algs.VARIANTS.get(short, []):
                rec = algs.Rec(o, SHAPE[short](o), real, cs)
                alg(rec)
                C = Compare(S.sites, list(canon(rec.sites, real)), S.norm, pre(short, cs))
                res = []
                C.run(lambda kind, s, good, t=None: res.append((kind, s, good, t)))
                results.append(res)
                if all(x[2] for x in res):
                    break
            for kind, s, good, t in min(results, key=lambda r: sum(not x[2] for x in r)):
                R.add(kind, s, good, t, opt)
        R.flush()
    return finish(rep, {"extra": 1100, "missing": 1650, "order": 3500, "twice": 1400})


TEXT = {"extra": "%s is not part of the operation (%s)", "missing": "%s is not done (%s)", "twice": "%s is done more than once (%s)",
        "order": "%s comes out of order (%s)"}


class Routine:
    def __init__(self, rep, f):
        self.rep, self.f, self.seen = rep, f, {}

    def add(self, kind, s, good, t, opt):
        k = (kind, s["kernel"], s["where"] if kind != "missing" else shows(s), t["where"] if t else "")
        x = self.seen.setdefault(k, [True, s, None])
        if not good and x[0]:
            x[0], x[2] = False, TEXT[kind] % (shows(s) + (" and " + shows(t) if t and kind == "order" else ""), opt)

    def flush(self):
        num = {}
        for (kind, kern, w, w2), (good, s, msg) in self.seen.items():
            where = "%s (%s)" % (self.f["file"], self.f["name"]) if kind == "missing" else "%s (%s)" % (w, self.f["name"])
            num[kind, kern] = num.get((kind, kern), 0) + 1
            self.rep.check(good, kind, "C22:%s:%s:%s:%d" % (self.f["name"], kind, kern, num[kind, kern]), where, msg)
