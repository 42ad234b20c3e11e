"""Predicate abstraction: conditions as truth tables over their atoms, with
the arithmetically impossible rows (difference bounds, one value per variable)
left out.  A finite enumeration; no solver."""
import math
from terms import *
import terms as T


class Table:
    def __init__(self, formulas, limit=18):
        ats = {}
        for f in formulas:
            atoms(f, ats)
        self.atoms = [ats[u] for u in sorted(ats)]
        n = len(self.atoms)
        if n > limit:
            raise ValueError("too many atoms: %d" % n)
        self.n = n
        self.size = 1 << n
        self.full = (1 << self.size) - 1
        self.mask = {}
        for i, a in enumerate(self.atoms):
            blk = 1 << i
            unit = ((1 << blk) - 1) << blk
            m = unit
            w = 2 * blk
            while w < self.size:
                m |= m << w
                w *= 2
            self.mask[a.uid] = m
        self._cons = None

    def tab(self, f):
        if f is TRUE:
            return self.full
        if f is FALSE:
            return 0
        if f.op == "and":
            r = self.full
            for a in f.args:
                r &= self.tab(a)
            return r
        if f.op == "or":
            r = 0
            for a in f.args:
                r |= self.tab(a)
            return r
        if f.op == "not":
            return self.full & ~self.tab(f.args[0])
        return self.mask[f.uid]

    def row(self, i):
        return [(a, bool(i >> k & 1)) for k, a in enumerate(self.atoms)]

    def witness(self, t):
        """a feasible row of the table, or None"""
        while t:
            i = (t & -t).bit_length() - 1
            r = self.row(i)
            if feasible(r):
                return r
            t &= t - 1
        return None

    def holds(self, t):
        """true when t has no feasible row"""
        return self.witness(t) is None


def feasible(row):
    """difference-bound check of a conjunction of literals over the integers"""
    edges = {}      # (u, v) -> c : u - v <= c
    nodes = set([None])

    def le_edge(u, v, c):
        nodes.update((u, v))
        k = (u, v)
        if k not in edges or edges[k] > c:
            edges[k] = c
    neq = []

    def diff(p):
        """poly without constant as (u, v) meaning u - v, or None"""
        ms = [(m, c) for m, c in p.items() if m]
        if len(ms) == 1 and ms[0][1] in (1, -1):
            x = ms[0][0]
            return (x, None) if ms[0][1] == 1 else (None, x)
        if len(ms) == 2 and sorted(c for _, c in ms) == [-1, 1]:
            u = [m for m, c in ms if c == 1][0]
            v = [m for m, c in ms if c == -1][0]
            return (u, v)
        return None
    gen = {}
    for a, val in row:
        if a.op not in ("lt", "eq"):
            continue
        p = T._poly(a.args[0])
        c = p.get((), 0)
        d = diff(p)
        if d is None:
            # opaque linear form: treat the whole form as one variable
            ms = {m: k for m, k in p.items() if m}
            if ms and ms[min(ms, key=lambda m: [x.uid for x in m])] < 0:
                d = (None, (T._unpoly({m: -k for m, k in ms.items()}),))
            else:
                d = ((T._unpoly(ms),), None)
        u, v = d
        if a.op == "lt":
            if val:            # u - v + c < 0
                le_edge(u, v, -c - 1)
            else:              # u - v + c >= 0
                le_edge(v, u, c)
        else:
            if val:
                le_edge(u, v, -c)
                le_edge(v, u, c)
            else:
                neq.append((u, v, -c))
    # facts about min and max nodes
    for nd in list(nodes):
        if nd and len(nd) == 1 and nd[0].op in ("min", "max"):
            for x in nd[0].args:
                if is_const(x):
                    w, k = None, x.args[0]
                else:
                    p = T._poly(x)
                    ms = [m for m in p if m]
                    if len(ms) != 1 or p[ms[0]] != 1:
                        continue
                    w, k = ms[0], p.get((), 0)
                if nd[0].op == "min":
                    le_edge(nd, w, k)
                else:
                    le_edge(w, nd, -k)
    nodes = list(nodes)
    INF = float("inf")
    idx = {x: i for i, x in enumerate(nodes)}
    N = len(nodes)
    D = [[0 if i == j else INF for j in range(N)] for i in range(N)]
    for (u, v), c in edges.items():
        i, j = idx[u], idx[v]
        D[i][j] = min(D[i][j], c)
    for k in range(N):
        Dk = D[k]
        for i in range(N):
            Di = D[i]
            x = Di[k]
            if x == INF:
                continue
            for j in range(N):
                y = x + Dk[j]
                if y < Di[j]:
                    Di[j] = y
    for i in range(N):
        if D[i][i] < 0:
            return False
    for u, v, c in neq:
        if u in idx and v in idx:
            i, j = idx[u], idx[v]
            if D[i][j] == c and D[j][i] == -c:
                return False
    return True


def linear(row):
    """Fourier-Motzkin elimination on the literals that are no difference
    bounds; False when they are contradictory"""
    R, differ = [], []
    wide = False
    for a, val in row:
        if a.op not in ("lt", "eq"):
            continue
        p = dict(T._poly(a.args[0]))
        if a.op == "eq" and not val:
            differ.append(p)
        if len([m for m in p if m]) > 2:
            wide = True
        if a.op == "lt":
            if val:
                p[()] = p.get((), 0) + 1
                R.append(p)
            else:
                R.append({m: -c for m, c in p.items()})
        elif val:
            R.append(p)
            R.append({m: -c for m, c in p.items()})
    if not wide:
        return True
    rows = {}
    for p in R:
        _fm_add(rows, p)
    for p in differ:
        # at most zero and not zero
        for f in (1, -1):
            q = {}
            _fm_add(q, {m: f * c for m, c in p.items()})
            for k, c in q.items():
                if rows.get(k) == c:
                    rows[k] = c + 1
    while True:
        vs = {}
        for k, c in rows.items():
            if not k:
                if c > 0:
                    return False
                continue
            for m, x in k:
                vs.setdefault(m, [0, 0])[x > 0] += 1
        if not vs:
            return True
        v = min(vs, key=lambda m: vs[m][0] * vs[m][1] - vs[m][0] - vs[m][1])
        if vs[v][0] * vs[v][1] > 300 or len(rows) > 600:
            return True
        pos, neg, rest = [], [], {}
        for k, c in rows.items():
            x = dict(k).get(v, 0)
            if x > 0:
                pos.append((k, c, x))
            elif x < 0:
                neg.append((k, c, x))
            else:
                rest[k] = c
        rows = rest
        for k1, c1, x1 in pos:
            for k2, c2, x2 in neg:
                p = {}
                for k, f in ((k1, -x2), (k2, x1)):
                    for m, x in k:
                        p[m] = p.get(m, 0) + f * x
                p[()] = c1 * -x2 + c2 * x1
                _fm_add(rows, p)


def _fm_add(rows, p):
    """p <= 0, coprime integer coefficients, constant rounded up"""
    c = p.get((), 0)
    k = [(m, x) for m, x in p.items() if m and x]
    g = 0
    for _, x in k:
        g = math.gcd(g, x)
    if g > 1:
        k = [(m, x // g) for m, x in k]
        c = -((-c) // g)
    k = tuple(sorted(k, key=lambda mx: [y.uid for y in mx[0]]))
    if k not in rows or rows[k] < c:
        rows[k] = c


def show_row(r):
    return ", ".join(show(a) if v else show(not_(a)) for a, v in r)


def lits(c):
    """split a formula into (literals, non-literals); None when contradictory"""
    todo = list(c.args) if c.op == "and" else [c]
    L, N = [], []
    for x in todo:
        (N if x.op in ("or", "and") else L).append(x)
    return L, N


def apply(f, val, memo):
    """simplify f under fixed literals (val: uid of atom -> bool)"""
    r = memo.get(f.uid)
    if r is not None:
        return r
    if f.op == "and":
        r = and_(*[apply(x, val, memo) for x in f.args])
    elif f.op == "or":
        r = or_(*[apply(x, val, memo) for x in f.args])
    elif f.op == "not":
        r = not_(apply(f.args[0], val, memo))
    else:
        v = val.get(f.uid)
        r = f if v is None else (TRUE if v else FALSE)
    memo[f.uid] = r
    return r


def cases(c, row=None, budget=None):
    """a consistent set of literals implying c, or None when there is none:
    case split over the disjunctions, difference bounds on the literals"""
    budget = [20000] if budget is None else budget
    budget[0] -= 1
    if budget[0] < 0:
        raise ValueError("case analysis too large")
    row = dict(row or {})
    while True:
        if c is FALSE:
            return None
        L, N = lits(c)
        new = False
        for x in L:
            if x is TRUE:
                continue
            a, v = (x.args[0], False) if x.op == "not" else (x, True)
            if row.get(a, v) != v:
                return None
            if a not in row:
                row[a] = v
                new = True
        if not new:
            break
        val = {a.uid: v for a, v in row.items()}
        memo = {}
        c = and_(*[apply(x, val, memo) for x in N])
    if not feasible(list(row.items())):
        return None
    if c is TRUE or not N:
        return list(row.items()) if linear(list(row.items())) else None
    d = min(N, key=lambda x: (len(x.args), x.uid))
    rest = [x for x in N if x is not d]
    prev = []
    for alt in d.args:
        w = cases(and_(alt, *(prev + rest)), row, budget)
        if w is not None:
            return w
        prev.append(not_(alt))
    return None


def infeasible(p, q=TRUE):
    """(True, None) when p and q cannot hold together, else (False, witness)"""
    c = and_(p, q)
    if c is FALSE:
        return True, None
    w = cases(c)
    if w is not None:
        d = define(c)
        if d is not c:
            w = cases(d)
    return w is None, w


def define(c):
    """minima, maxima and conditional values as variables of their own, with their definition"""
    nodes = {}
    for a in atoms(c).values():
        for x in subterms(a):
            if x.op in ("min", "max", "ite") and x.op not in T.BOOL:
                nodes[x.uid] = x
    if not nodes:
        return c
    m, defs = {}, []
    for x in sorted(nodes.values(), key=lambda x: len(list(subterms(x)))):
        v = mk("iv", "def", x)
        y = subst(x, m)         # smaller ones are in already
        m[x.uid] = v
        if y.op == "ite":
            defs.append(or_(and_(y.args[0], eq(v, y.args[1])), and_(not_(y.args[0]), eq(v, y.args[2]))))
        elif y.op in ("min", "max"):
            defs += [le(v, z) if y.op == "min" else le(z, v) for z in y.args]
            defs.append(or_(*[eq(v, z) for z in y.args]))
        else:
            defs.append(eq(v, y))
    c = subst(c, m)
    new = {v.uid for v in m.values()}
    eqs = {a.uid: a for a in atoms(c).values() if a.op == "eq" and any(x.uid in new for x in subterms(a))}

    def f(t):
        """different is less or greater"""
        if t.op in ("and", "or"):
            return (and_ if t.op == "and" else or_)(*[f(x) for x in t.args])
        if t.op == "not" and t.args[0].uid in eqs:
            x = t.args[0].args[0]
            return or_(lt(x, ZERO), lt(ZERO, x))
        return t
    return and_(f(c), *defs)
