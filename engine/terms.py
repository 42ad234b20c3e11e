"""Hash-consed terms: gated value numbering over a polynomial normal form for
integers and a simplified propositional normal form for conditions."""

_table = {}
_order = []


class Term:
    __slots__ = ("op", "args", "uid")

    def __repr__(self):
        return show(self)

    def __add__(self, o):
        return add(self, o if isinstance(o, Term) else const(o))

    __radd__ = __add__

    def __sub__(self, o):
        return sub(self, o if isinstance(o, Term) else const(o))

    def __rsub__(self, o):
        return sub(o if isinstance(o, Term) else const(o), self)

    def __mul__(self, o):
        return mul(self, o if isinstance(o, Term) else const(o))

    __rmul__ = __mul__


def mk(op, *args):
    key = (op,) + args
    t = _table.get(key)
    if t is None:
        t = Term()
        t.op, t.args, t.uid = op, args, len(_order)
        _table[key] = t
        _order.append(t)
    return t


def _k(t):
    return t.uid


TRUE, FALSE = mk("true"), mk("false")


def const(n):
    return mk("int", int(n))


ZERO, ONE = const(0), const(1)


def sym(name):
    return mk("sym", name)


def is_const(t):
    return t.op == "int"


BOOL = {"true", "false", "eq", "lt", "and", "or", "not", "bsym"}


# ---- integers: polynomials ------------------------------------------------
def _poly(t):
    """term -> dict monomial(tuple of terms) -> coefficient"""
    if t.op == "int":
        return {(): t.args[0]} if t.args[0] else {}
    if t.op == "poly":
        return dict(t.args[0])
    if t.op == "true":
        return {(): 1}
    if t.op == "false":
        return {}
    return {(t,): 1}


def _unpoly(d):
    d = {m: c for m, c in d.items() if c}
    if not d:
        return ZERO
    if len(d) == 1:
        (m, c), = d.items()
        if m == ():
            return const(c)
        if c == 1 and len(m) == 1:
            return m[0]
    return mk("poly", tuple(sorted(d.items(), key=lambda x: ([t.uid for t in x[0]], x[1]))))


def add(a, b, s=1):
    if a.op == "ite" and is_const(b):
        return ite(a.args[0], add(a.args[1], b, s), add(a.args[2], b, s))
    d = _poly(a)
    for m, c in _poly(b).items():
        d[m] = d.get(m, 0) + s * c
    return _unpoly(d)


def sub(a, b):
    return add(a, b, -1)


def mul(a, b):
    pa, pb = _poly(a), _poly(b)
    if len(pa) * len(pb) > 64:
        return mk("op", "*", *sorted((a, b), key=_k))
    d = {}
    for m1, c1 in pa.items():
        for m2, c2 in pb.items():
            m = tuple(sorted(m1 + m2, key=_k))
            d[m] = d.get(m, 0) + c1 * c2
    return _unpoly(d)


def div(a, b):
    if is_const(a) and is_const(b) and b.args[0]:
        q = abs(a.args[0]) // abs(b.args[0])
        return const(q if (a.args[0] < 0) == (b.args[0] < 0) else -q)
    if b is ONE:
        return a
    return mk("div", a, b)


def mod(a, b):
    if is_const(a) and is_const(b) and b.args[0]:
        return sub(a, mul(div(a, b), b))
    return mk("mod", a, b)


# ---- conditions -----------------------------------------------------------
def lt(a, b):
    """a < b over the integers"""
    d = sub(a, b)
    if is_const(d):
        return TRUE if d.args[0] < 0 else FALSE
    for x, y, flip in ((a, b, False), (b, a, True)):
        if x.op == "ite":
            f = (lambda v: lt(v, y)) if not flip else (lambda v: lt(y, v))
            return or_(and_(x.args[0], f(x.args[1])), and_(not_(x.args[0]), f(x.args[2])))
        if x.op == "max" and not flip:   # max(..) < y
            return and_(*[lt(v, y) for v in x.args])
        if x.op == "max" and flip:       # y < max(..)
            return or_(*[lt(y, v) for v in x.args])
        if x.op == "min" and not flip:
            return or_(*[lt(v, y) for v in x.args])
        if x.op == "min" and flip:
            return and_(*[lt(y, v) for v in x.args])
    # canonical orientation: d < 0  or  not(-d-1 < 0)
    p = _poly(d)
    lead = next(iter(sorted((m for m in p if m), key=lambda m: [t.uid for t in m])))
    if p[lead] < 0:
        n = {m: -c for m, c in p.items()}
        n[()] = n.get((), 0) - 1
        return not_(mk("lt", _unpoly(n)))
    return mk("lt", d)


def le(a, b):
    return not_(lt(b, a))


def eq(a, b):
    if a is b:
        return TRUE
    for x, y in ((a, b), (b, a)):
        if x.op == "ite":
            return or_(and_(x.args[0], eq(x.args[1], y)), and_(not_(x.args[0]), eq(x.args[2], y)))
        if x.op in BOOL and is_const(y):
            return x if y.args[0] == 1 else (not_(x) if y.args[0] == 0 else FALSE)
        if x.op in ("addr", "fn", "str") and y is ZERO:
            return FALSE
        # min(..)==0 style tests stay symbolic, except with non-negative hints
    d = sub(a, b)
    if is_const(d):
        return TRUE if d.args[0] == 0 else FALSE
    p = _poly(d)
    lead = next(iter(sorted((m for m in p if m), key=lambda m: [t.uid for t in m])))
    if p[lead] < 0:
        d = _unpoly({m: -c for m, c in p.items()})
    return mk("eq", d)


_notc, _naryc, _atomc = {}, {}, {}


def not_(a):
    r = _notc.get(a)
    if r is None:
        r = _notc[a] = _not(a)
    return r


def _not(a):
    if a is TRUE:
        return FALSE
    if a is FALSE:
        return TRUE
    if a.op == "not":
        return a.args[0]
    if a.op == "and":
        return or_(*[not_(x) for x in a.args])
    if a.op == "or":
        return and_(*[not_(x) for x in a.args])
    return mk("not", a)


def _nary(op, unit, zero, args):
    key = (op,) + tuple(args)
    r = _naryc.get(key)
    if r is None:
        r = _naryc[key] = _nary1(op, unit, zero, args)
    return r


def _nary1(op, unit, zero, args):
    out = []
    seen = set()
    for a in args:
        if a is unit:
            continue
        if a is zero:
            return zero
        for x in (a.args if a.op == op else (a,)):
            if x.uid not in seen:
                seen.add(x.uid)
                out.append(x)
    for x in out:
        if not_(x).uid in seen and not_(x).op not in (op,):
            return zero
    # absorption: and(a, or(a, b)) = a ; and(a, or(not a, b)) = and(a, b)
    dual = "or" if op == "and" else "and"
    changed = False
    res = []
    for x in out:
        if x.op == dual:
            if any(y.uid in seen for y in x.args):
                changed = True
                continue
            keep = [y for y in x.args if not_(y).uid not in seen]
            if len(keep) != len(x.args):
                changed = True
                x = (or_ if dual == "or" else and_)(*keep)
        res.append(x)
    if changed:
        return _nary(op, unit, zero, res)
    if not out:
        return unit
    if len(out) == 1:
        return out[0]
    return mk(op, *sorted(out, key=_k))


def and_(*a):
    return _nary("and", TRUE, FALSE, a)


def or_(*a):
    return _nary("or", FALSE, TRUE, a)


def truth(t):
    if t.op in BOOL:
        return t
    if t.op == "ite":
        return or_(and_(t.args[0], truth(t.args[1])), and_(not_(t.args[0]), truth(t.args[2])))
    return not_(eq(t, ZERO))


def ite(c, a, b):
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    if a.op in BOOL and b.op in BOOL:
        return or_(and_(c, a), and_(not_(c), b))
    if c.op == "not":
        return ite(c.args[0], b, a)
    # x < y ? .. : ..   as min / max
    if c.op == "lt":
        d = sub(a, b)
        e = c.args[0]          # condition is e < 0
        if e is d:             # a - b < 0 ? a : b
            return mnmx("min", a, b)
        if e is sub(b, a):     # b - a < 0 ? a : b
            return mnmx("max", a, b)
        if e is sub(d, ONE):   # a - b - 1 < 0  i.e. a <= b
            return mnmx("min", a, b)
        if e is sub(sub(b, a), ONE):
            return mnmx("max", a, b)
        if e is add(d, ONE):   # a < b-... strictly a+1<b : not a min
            pass
    return mk("ite", c, a, b)


def mnmx(op, *args):
    out = []
    for a in args:
        for x in (a.args if a.op == op else (a,)):
            if x not in out:
                out.append(x)
    cs = [x for x in out if is_const(x)]
    if len(cs) > 1:
        v = (min if op == "min" else max)(c.args[0] for c in cs)
        out = [x for x in out if not is_const(x)] + [const(v)]
    if len(out) == 1:
        return out[0]
    return mk(op, *sorted(out, key=_k))


# ---- pointers -------------------------------------------------------------
def padd(p, off):
    if off is ZERO:
        return p
    if p.op == "padd":
        return padd(p.args[0], add(p.args[1], off))
    if p.op == "addr" and is_const(off) and p.args[1] and isinstance(p.args[1][-1], int):
        return mk("addr", p.args[0], p.args[1][:-1] + (p.args[1][-1] + off.args[0],))
    if p.op == "ite":
        return ite(p.args[0], padd(p.args[1], off), padd(p.args[2], off))
    return mk("padd", p, off)


def fld(t, name):
    if t.op == "ite":
        return ite(t.args[0], fld(t.args[1], name), fld(t.args[2], name))
    if t.op == "upd":
        base, path, val = t.args
        if path[0] == name:
            if len(path) == 1:
                return val
            return upd(fld(base, name), path[1:], val)
        return fld(base, name)
    return mk("fld", t, name)


def upd(base, path, val):
    return mk("upd", base, path, val)


# ---- traversal ------------------------------------------------------------
def subterms(t, seen=None):
    seen = set() if seen is None else seen
    stack = [t]
    while stack:
        x = stack.pop()
        if not isinstance(x, Term) or x.uid in seen:
            continue
        seen.add(x.uid)
        yield x
        for a in x.args:
            if isinstance(a, Term):
                stack.append(a)
            elif isinstance(a, tuple):
                _push(a, stack)


def _push(a, stack):
    for b in a:
        if isinstance(b, Term):
            stack.append(b)
        elif isinstance(b, tuple):
            _push(b, stack)


def mentions(t, pred):
    return any(pred(x) for x in subterms(t))


def natoms(f):
    r = _atomc.get(f)
    if r is None:
        r = _atomc[f] = 1 if f.op not in ("and", "or", "not") else sum(natoms(a) for a in f.args)
    return r


def atoms(f, out=None):
    """the atomic conditions of a formula"""
    out = {} if out is None else out
    if f.op in ("and", "or", "not"):
        for a in f.args:
            atoms(a, out)
    elif f.op not in ("true", "false"):
        out[f.uid] = f
    return out


def subst(t, m, memo=None):
    """m: dict uid -> term"""
    memo = {} if memo is None else memo
    if not isinstance(t, Term):
        if isinstance(t, tuple):
            return tuple(subst(x, m, memo) for x in t)
        return t
    if t.uid in m:
        return m[t.uid]
    r = memo.get(t.uid)
    if r is not None:
        return r
    op = t.op
    if op in ("int", "sym", "true", "false", "addr", "fn", "str"):
        r = t
    elif op == "poly":
        r = ZERO
        for mon, c in t.args[0]:
            p = const(c)
            for x in mon:
                p = mul(p, subst(x, m, memo))
            r = add(r, p)
    else:
        a = [subst(x, m, memo) for x in t.args]
        if op == "eq":
            r = eq(a[0], ZERO)
        elif op == "lt":
            r = lt(a[0], ZERO)
        elif op == "and":
            r = and_(*a)
        elif op == "or":
            r = or_(*a)
        elif op == "not":
            r = not_(a[0])
        elif op == "ite":
            r = ite(*a)
        elif op in ("min", "max"):
            r = mnmx(op, *a)
        elif op == "padd":
            r = padd(*a)
        elif op == "div":
            r = div(*a)
        elif op == "mod":
            r = mod(*a)
        elif op == "fld":
            r = fld(*a)
        else:
            r = mk(op, *a)
    memo[t.uid] = r
    return r


# ---- display --------------------------------------------------------------
def show(t, depth=0):
    if not isinstance(t, Term):
        return str(t)
    if depth > 9:
        return ".."
    s = lambda x: show(x, depth + 1)
    o, a = t.op, t.args
    if o == "int":
        return str(a[0])
    if o == "sym":
        return str(a[0])
    if o == "poly":
        out = []
        for m, c in a[0]:
            b = "*".join(s(x) for x in m)
            if not m:
                out.append(("%+d" % c))
            elif c == 1:
                out.append("+" + b)
            elif c == -1:
                out.append("-" + b)
            else:
                out.append("%+d*%s" % (c, b))
        r = "".join(out)
        return "(" + (r[1:] if r[0] == "+" else r) + ")"
    if o == "eq":
        return "%s==0" % s(a[0])
    if o == "lt":
        return "%s<0" % s(a[0])
    if o == "not":
        if a[0].op == "eq":
            return "%s!=0" % s(a[0].args[0])
        if a[0].op == "lt":
            return "%s>=0" % s(a[0].args[0])
        return "!" + s(a[0])
    if o == "and":
        return "(" + " && ".join(s(x) for x in a) + ")"
    if o == "or":
        return "(" + " || ".join(s(x) for x in a) + ")"
    if o == "ite":
        return "(%s ? %s : %s)" % tuple(s(x) for x in a)
    if o == "fld":
        return "%s.%s" % (s(a[0]), a[1])
    if o == "load":
        return "*(%s)%s" % (s(a[0]), "".join("." + str(x) for x in a[1]))
    if o == "padd":
        return "%s+%s" % (s(a[0]), s(a[1]))
    if o == "addr":
        return "&%s%s" % (a[0][-1] if isinstance(a[0], tuple) else a[0], "".join("." + str(x) for x in a[1]))
    if o == "call":
        return "%s(%s)" % (a[0], ", ".join(s(x) for x in a[1:] if isinstance(x, Term)))
    if o in ("iv", "phi"):
        return str(a[-1])
    if o in ("op",):
        return "(" + (" %s " % a[0]).join(s(x) for x in a[1:]) + ")"
    return "%s(%s)" % (o, ", ".join(s(x) for x in a))
