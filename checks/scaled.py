"""Scaled sums of squares: (scale, sumsq) stands for scale^2 * sumsq.

Every assignment that divides is one of the two updates that add a square (or another scaled sum) to it:
  rescaling      scale < x:       sumsq' = s + sumsq * (scale/x)^2,  scale' = x
  accumulation   scale >= x, scale not 0:  sumsq' = sumsq + s * (x/scale)^2,  scale' = scale
with s = 1 for an element x and s = the other sum for x = the other scale.  Decided on the terms assigned on each
path, as rational functions, and on the comparisons made on that path.
"""
import re
from fractions import Fraction
import interp
from terms import *


def rational(t):
    """{((factor, exponent), ...): coefficient} or None"""
    def one(k):
        return {(): Fraction(k)}

    def times(a, b):
        r = {}
        for x, p in a.items():
            for y, q in b.items():
                d = dict(x)
                for f, e in y:
                    d[f] = d.get(f, 0) + e
                k = tuple(sorted(((f, e) for f, e in d.items() if e), key=lambda z: (z[0].uid, z[1])))
                r[k] = r.get(k, 0) + p * q
        return r

    def plus(a, b, s=1):
        r = dict(a)
        for k, v in b.items():
            r[k] = r.get(k, 0) + s * v
        return {k: v for k, v in r.items() if v}
    if is_const(t) and isinstance(t.args[0], (int, Fraction)):
        return one(t.args[0])
    if t.op == "poly":
        r = {}
        for mon, q in t.args[0]:
            m = one(q)
            for f in mon:
                m = times(m, rational(f))
            r = plus(r, m)
        return r
    if t.op == "op" and len(t.args) == 3 and t.args[0] in ("+", "-", "*", "/"):
        a, b = rational(t.args[1]), rational(t.args[2])
        if a is None or b is None:
            return None
        if t.args[0] == "*":
            return times(a, b)
        if t.args[0] in "+-":
            return plus(a, b, 1 if t.args[0] == "+" else -1)
        if len(b) != 1:
            return None
        (k, v), = b.items()
        return times(a, {tuple((f, -e) for f, e in k): 1 / v})
    return {((t, 1),): Fraction(1)}


def comparisons(pc):
    """(kind, a, b): a < b, a <= b, a == b, a != b with None for zero; integer slack read as strictness"""
    out = []
    for p in pc:
        neg = p.op == "not"
        if neg:
            p = p.args[0]
        if p.op == "eq":
            r = rational(p.args[0])
            if r and len(r) == 1 and len(list(r)[0]) == 1:
                out.append(("!=" if neg else "==", list(r)[0][0][0], None))
            continue
        if p.op != "lt":
            continue
        r = rational(p.args[0])
        if not r:
            continue
        k = r.pop((), 0)
        pos = [m[0][0] for m, v in r.items() if len(m) == 1 and m[0][1] == 1 and v == 1]
        low = [m[0][0] for m, v in r.items() if len(m) == 1 and m[0][1] == 1 and v == -1]
        if len(pos) + len(low) != len(r) or len(pos) > 1 or len(low) > 1 or k not in (0, -1):
            continue
        a, b = (pos or [None])[0], (low or [None])[0]       # a - b + k < 0
        if neg:
            out.append(("<" if k else "<=", b, a))          # a - b >= 1 or 0
        else:
            out.append(("<=" if k else "<", a, b))
    return out


def inner(x):
    """the value whose magnitude x is: it is zero exactly when x is"""
    while x.op == "call" and isinstance(x.args[0], str) and re.match(r"(c?abs[fl]?|fabs[fl]?|conj[fl]?)$", x.args[0]) and len(x.args) == 2:
        x = x.args[1]
    return x


def nonzero(x, facts, seen=()):
    if x is None or any(x is y for y in seen):
        return False
    for k, a, b in facts:
        if k == "!=" and (inner(a) is inner(x)):
            return True
        if k == "<" and b is x:                              # a < x, a not negative
            return True
        if k == "<=" and b is x and nonzero(a, facts, seen + (x,)):
            return True
    return False


def below(a, b, facts):
    return any(k in ("<", "<=") and x is a and y is b for k, x, y in facts)


def old(x, target, own):
    if own[0] == "v":
        return x.op in ("iv", "phi") and len(x.args) >= 2 and x.args[-1] == own[3]
    if x.op in ("load", "clob"):
        return x.args[0] is target and (x.op == "clob" or x.args[1] == ())
    return x.op == "phi" and len(x.args) >= 4 and x.args[1] == "heap" and x.args[2] is target


def updates(cl):
    """(event, problem or None, form) for every assignment that divides"""
    evs = [(c, c["what"], c["a"][0], c["a"][1]) for c in cl.stores] + [(c, c["what"], None, c["a"][0]) for c in cl.locals]
    for c, own, target, v in evs:
        if not any(x.op == "op" and x.args[0] == "/" for x in subterms(v)):
            continue
        facts = comparisons(c["pc"])
        bad = None
        for x in subterms(v):
            if x.op == "op" and x.args[0] == "/":
                d = rational(x.args[2])
                for mon in d or {}:
                    for f, e in mon:
                        if not nonzero(f, facts):
                            bad = "divides by %s, which can be zero here" % f
        r = rational(v)
        if r is None:
            continue
        if len(r) == 1:
            yield c, bad, "ratio", None, None, None
            continue
        form = scale = None
        if len(r) == 2 and all(q == 1 for q in r.values()):
            for m, s in (list(r), list(r)[::-1]):
                m, s = dict(m), dict(s)
                sq = [f for f, e in m.items() if e == 2]
                inv = [f for f, e in m.items() if e == -2]
                rest = [f for f, e in m.items() if e == 1]
                if len(sq) != 1 or len(inv) != 1 or len(rest) > 1 or len(m) != 2 + len(rest) or len(s) > 1 or any(e != 1 for e in s.values()):
                    continue
                a, b, g, w = sq[0], inv[0], (rest or [None])[0], (list(s) or [None])[0]
                if g is not None and old(g, target, own):
                    form, scale, x, part = "rescaling", a, b, w
                elif w is not None and old(w, target, own):
                    form, scale, x, part = "accumulation", b, a, g
        if form is None:
            yield c, bad or "neither of the two updates of a scaled sum", "?", None, None, None
            continue
        same = [d for d in cl.stores + cl.locals if d is not c and d["pc"] == c["pc"] and d["nest"] == c["nest"]]
        sets = [d for d in same if d["a"][-1] is x and old(scale, d["a"][0] if d["what"] == "store" else None, d["what"])]
        moved = [d for d in same if old(scale, d["a"][0] if d["what"] == "store" else None, d["what"])]
        if bad is None and not below(*((scale, x) if form == "rescaling" else (x, scale)), facts):
            bad = "made when the scale can be the %s of the two" % ("larger" if form == "rescaling" else "smaller")
        if bad is None and form == "rescaling" and not sets:
            bad = "the scale is not set to %s" % x
        if bad is None and form == "accumulation" and moved:
            bad = "the scale changes as well"
        # the partial sum that belongs to the scale x
        if bad is None:
            if x.op == "load":
                i = x.args[0]
                j = part.args[0] if part is not None and part.op == "load" else None
                if j is None or offset(i) is not offset(j) or base(i) is base(j):
                    bad = "%s is not the sum that goes with %s" % (part if part is not None else 1, x)
            elif part is not None:
                bad = "an element enters with weight %s" % part
        yield c, bad, form, scale, own if own[0] == "v" else target, x


def base(p):
    return p.args[0] if p.op == "padd" else p


def offset(p):
    return p.args[1] if p.op == "padd" else ZERO


def check(F, f, events):
    """obligations of one function: (line, file, problem, text)"""
    ex = interp.Exec(F, events)
    ex.run(f, None)
    out = []
    scales, forms = set(), {}
    for c, bad, form, scale, own, x in updates(events):
        if x is not None:
            forms.setdefault((str(c["nest"]), x.uid), {}).setdefault(form, (c, x))
        if scale is not None and scale.op in ("iv", "phi") and isinstance(scale.args[-1], str):
            scales.add((scale.args[-1], own[3] if isinstance(own, tuple) and own[0] == "v" else None))
        out.append((c, bad, form))
    for d in forms.values():
        for a, b in (("rescaling", "accumulation"), ("accumulation", "rescaling")):
            if a in d and b not in d:
                out.append((d[a][0], "no %s for %s when the scale is the %s" % (b, d[a][1], "larger" if a == "rescaling" else "smaller"), b))
    if scales and all(s for _, s in scales):
        for c in events.locals:
            for s, _ in scales:
                if c["what"][3] == s and is_const(c["a"][0]):
                    out.append((c, None if c["a"][0] is ZERO else "the sum starts with scale %s" % c["a"][0], "start"))
        for c in events.stores:
            v = c["a"][1]
            if v is ZERO:
                continue
            ok = v.op == "op" and v.args[0] == "*" and len(v.args) == 3 and any(
                a.op in ("iv", "phi") and b.op == "call" and re.match("sqrt[fl]?$", str(b.args[0])) and b.args[1].op in ("iv", "phi", "op", "poly")
                and any((a.args[-1], y.args[-1]) in scales for y in subterms(b.args[1]) if y.op in ("iv", "phi"))
                for a, b in (v.args[1:], v.args[:0:-1]))
            out.append((c, None if ok else "the result is not scale * sqrt(sumsq)", "result"))
    return out
