"""C20: option constants, LAPACK letters and CBLAS values agree."""
import re
import facts, interp
from client import *
from common import *

RULE = ("every translator from LAPACK letters gives, for each of the 256 characters, the constant the letter stands for "
        "and the invalid (or general) one otherwise; lapack_const gives the letter of every option constant and none for "
        "any other integer; constants passed on to CBLAS have the values CBLAS gives them; no two constants of one "
        "option, and no two error codes, coincide")

# oracle: the letters of the LAPACK interface
LETTERS = {
    "plasma_diag_const": ({"N": "PlasmaNonUnit", "U": "PlasmaUnit"}, "PlasmaInvalid"),
    "plasma_direct_const": ({"F": "PlasmaForward", "B": "PlasmaBackward"}, "PlasmaInvalid"),
    "plasma_norm_const": ({"O": "PlasmaOneNorm", "1": "PlasmaOneNorm", "2": "PlasmaTwoNorm", "F": "PlasmaFrobeniusNorm",
                           "E": "PlasmaFrobeniusNorm", "I": "PlasmaInfNorm", "M": "PlasmaMaxNorm"}, "PlasmaInvalid"),
    "plasma_side_const": ({"L": "PlasmaLeft", "R": "PlasmaRight"}, "PlasmaInvalid"),
    "plasma_storev_const": ({"C": "PlasmaColumnwise", "R": "PlasmaRowwise"}, "PlasmaInvalid"),
    "plasma_trans_const": ({"N": "PlasmaNoTrans", "T": "PlasmaTrans", "C": "PlasmaConjTrans"}, "PlasmaInvalid"),
    "plasma_uplo_const": ({"U": "PlasmaUpper", "L": "PlasmaLower"}, "PlasmaGeneral"),
    "plasma_job_const": ({"A": "PlasmaAllVec", "S": "PlasmaSomeVec", "V": "PlasmaVec", "N": "PlasmaNoVec",
                          "I": "PlasmaIVec"}, "PlasmaInvalid"),
    "plasma_range_const": ({"A": "PlasmaRangeAll", "V": "PlasmaRangeV", "I": "PlasmaRangeI"}, "PlasmaInvalid"),
}
LETTER_OF = {"PlasmaNoTrans": "N", "PlasmaTrans": "T", "PlasmaConjTrans": "C", "PlasmaUpper": "U", "PlasmaLower": "L",
             "PlasmaGeneral": "G", "PlasmaNonUnit": "N", "PlasmaUnit": "U", "PlasmaLeft": "L", "PlasmaRight": "R",
             "PlasmaOneNorm": "O", "PlasmaTwoNorm": "T", "PlasmaFrobeniusNorm": "F", "PlasmaInfNorm": "I",
             "PlasmaMaxNorm": "M", "PlasmaForward": "F", "PlasmaBackward": "B", "PlasmaColumnwise": "C",
             "PlasmaRowwise": "R", "PlasmaW": "W", "PlasmaA2": "A"}
# the constants that have no letter of their own; what lapack_const gives for them is not specified
SILENT = {"PlasmaGeneralBand", "PlasmaRealOneNorm", "PlasmaRealInfNorm", "PlasmaRealMaxNorm", "PlasmaNoVec", "PlasmaVec",
          "PlasmaCount", "PlasmaIVec", "PlasmaAllVec", "PlasmaSomeVec", "PlasmaRangeAll", "PlasmaRangeV", "PlasmaRangeI"}
CBLAS = {"PlasmaNoTrans": 111, "PlasmaTrans": 112, "PlasmaConjTrans": 113, "PlasmaUpper": 121, "PlasmaLower": 122,
         "PlasmaNonUnit": 131, "PlasmaUnit": 132, "PlasmaLeft": 141, "PlasmaRight": 142}
SIZES = {"char": 1, "int": 4, "long": 8, "plasma_enum_t": 4}


BITS = {"|": lambda x, y: x | y, "&": lambda x, y: x & y, "^": lambda x, y: x ^ y, "<<": lambda x, y: x << y,
        ">>": lambda x, y: x >> y, "+": lambda x, y: x + y, "-": lambda x, y: x - y, "*": lambda x, y: x * y}


class Opaque(Exception):
    pass


class Outside(Exception):
    pass


def elements(F, name):
    c = [d for (_, x), d in F.gvars.items() if x == name and d.get("init")]
    if len(c) != 1 or c[0]["init"][0] != "init":
        raise Opaque("the table %s" % name)
    r = []
    for e in c[0]["init"][1]:
        while e[0] in ("cast", "icast"):
            e = e[2]
        if e[0] in ("str", "int"):
            r.append(e[1])
        else:
            raise Opaque("an element of " + name)
    return r


class Value:
    """the value of a term without unknowns; tables and strings are read from their initialisers"""
    def __init__(self, F):
        self.F, self.tabs = F, {}

    def tab(self, g):
        if g not in self.tabs:
            self.tabs[g] = elements(self.F, g)
        return self.tabs[g]

    def size(self, ty):
        m = re.match(r"(.*)\[(\d+)\]$", ty)
        if m:
            return int(m.group(2)) * self.size(m.group(1).strip())
        if ty.rstrip().endswith("*"):
            return 8
        return SIZES.get(ty.replace("const ", "").replace("unsigned ", "").strip()) or self.stop(ty)

    def stop(self, t):
        raise Opaque(str(t))

    def at(self, seq, i):
        if isinstance(seq, str):
            if not 0 <= i <= len(seq):
                raise Outside("character %d of \"%s\"" % (i, seq))
            return ord(seq[i]) if i < len(seq) else 0
        if not isinstance(seq, list):
            raise Opaque("element of a number")
        if not 0 <= i < len(seq):
            raise Outside("element %d of a table of %d" % (i, len(seq)))
        return seq[i]

    def __call__(self, t):
        o, a = t.op, t.args
        if o == "int":
            return a[0]
        if o == "true":
            return 1
        if o == "false":
            return 0
        if o == "str":
            return a[0]
        if o == "sizeof":
            return self.size(a[0])
        if o == "poly":
            r = 0
            for mon, c in a[0]:
                x = c
                for z in mon:
                    x *= self(z)
                r += x
            return r
        if o == "div":
            return self(a[0]) // self(a[1])
        if o == "mod":
            return self(a[0]) % self(a[1])
        if o == "lt":
            return int(self(a[0]) < (self(a[1]) if len(a) > 1 else 0))
        if o == "eq":
            return int(self(a[0]) == (self(a[1]) if len(a) > 1 else 0))
        if o == "not":
            return int(not self(a[0]))
        if o == "and":
            return int(all(self(x) for x in a))
        if o == "or":
            return int(any(self(x) for x in a))
        if o == "ite":
            return self(a[1]) if self(a[0]) else self(a[2])
        if o == "op" and len(a) == 3 and a[0] in BITS:
            return BITS[a[0]](self(a[1]), self(a[2]))
        if o == "op" and len(a) == 2 and a[0] == "~":
            return ~self(a[1])
        if o == "gvar":
            return self.tab(a[0])
        if o == "fld":
            return self.at(self(a[0]), a[1] if isinstance(a[1], int) else self(a[1]))
        if o == "load":
            if a[1] != ():
                p, i = self.place(a[0])
                for k in a[1]:
                    p = self.at(p, k if isinstance(k, int) else self(k))
                return p
            p, i = self.place(a[0])
            return self.at(p, i)
        return self.stop(show(t))

    def place(self, t):
        if t.op == "padd":
            p, i = self.place(t.args[0])
            return p, i + self(t.args[1])
        if t.op == "addr" and t.args[0][0] == "g":
            path, v = t.args[1], self.tab(t.args[0][1])
            for k in path[:-1]:
                v = self.at(v, k)
            return v, path[-1] if path else 0
        return self(t), 0


class Lib(Base):
    """ctype.h on constants"""
    def call(self, ex, st, name, args, node):
        if name in ("tolower", "toupper") and is_const(args[0]):
            c = args[0].args[0]
            r = c + 32 if name == "tolower" and 65 <= c <= 90 else c - 32 if name == "toupper" and 97 <= c <= 122 else c
            return [(st, const(r))]
        return super().call(ex, st, name, args, node)


def results(F, V, f, c):
    """the values f may return for the constant c"""
    out = set()
    ex = interp.Exec(F, Lib())
    for s, v, _ in ex.run(f, args=[const(c)]):
        if ex.unsupported:
            raise Opaque(ex.unsupported[0])
        if V(pathcond(s)):
            out.add(V(v))
    if ex.unsupported:
        raise Opaque(ex.unsupported[0])
    return out


def run(F):
    rep = Report("C20", RULE)
    rep.assumptions = ["the letters of the LAPACK interface and the values of the CBLAS enumerations are those of their "
                       "reference implementations", "characters are those of the ASCII set"]
    E = {}
    for items in F.enums.values():
        E.update({a: b for a, b in items})
    need = set(CBLAS) | set(LETTER_OF) | {x for m, d in LETTERS.values() for x in list(m.values()) + [d]} | SILENT
    if need - set(E):
        raise AnalysisBroken("constants missing: %s" % sorted(need - set(E)))
    V = Value(F)
    for n, (m, dflt) in sorted(LETTERS.items()):
        f = F.funcs.get(n)
        if f is None or isinstance(f, list):
            raise AnalysisBroken("%s is gone or ambiguous" % n)
        names = {v: k for k, v in E.items() if k in set(m.values()) | {dflt}}
        for c in range(-128, 128):
            ch = chr(c) if c >= 0 else ""
            want = E[m.get(ch.upper(), dflt) if "a" <= ch.lower() <= "z" or ch.isdigit() else dflt]
            try:
                got = results(F, V, f, c)
            except Opaque as e:
                raise AnalysisBroken("%s: %s" % (n, e))
            except Outside as e:
                rep.bad("letter", "C20:%s:%d" % (n, c), "%s (%s)" % (f["file"], n), "reads %s for character %d" % (e, c))
                continue
            rep.check(got == {want}, "letter", "C20:%s:%d" % (n, c), "%s (%s)" % (f["file"], n),
                      "'%s' (%d) is translated to %s instead of %s"
                      % (ch if ch.isprintable() else "?", c, sorted(names.get(g, g) for g in got) if got else None, names[want]))
    f = next((x for (u, n), x in F.local.items() if n == "lapack_const" and u in ("*", "verif_headers.c")), None) \
        or F.funcs.get("lapack_const")
    if f is None:
        raise AnalysisBroken("lapack_const is gone")
    byval = {}
    for k in sorted(set(LETTER_OF) | SILENT):
        byval.setdefault(E[k], []).append(k)
    for c in list(range(-4, 700)) + [-2 ** 31, 2 ** 31 - 1]:
        ks = byval.get(c, [])
        where = "%s (lapack_const)" % f["file"]
        try:
            got = results(F, V, f, c)
        except Opaque as e:
            raise AnalysisBroken("lapack_const: %s" % e)
        except Outside as e:
            rep.bad("constant", "C20:lapack_const:%s" % (ks[0] if ks else c), where, "reads %s for %d" % (e, c))
            continue
        if ks and ks[0] in SILENT:
            rep.check(True, "constant", "", "", "")
            continue
        want = ord(LETTER_OF[ks[0]]) if ks else 0
        rep.check(got == {want}, "constant", "C20:lapack_const:%s" % (ks[0] if ks else c), where,
                  "%s (%d) is translated to %s instead of '%s'"
                  % (ks[0] if ks else "no constant", c, sorted(chr(g) if 0 < g < 128 else g for g in got),
                     LETTER_OF[ks[0]] if ks else "\\0"))
    for k, v in sorted(CBLAS.items()):
        rep.check(E[k] == v, "cblas", "C20:%s" % k, "include/plasma_types.h", "%s is %d, CBLAS uses %d" % (k, E[k], v))
    consts = sorted(set(LETTER_OF) | SILENT | {"PlasmaInvalid"})
    for i, a in enumerate(consts):
        clash = [b for b in consts[:i] if E[a] == E[b]]
        rep.check(not clash, "distinct", "C20:distinct:%s" % a, "include/plasma_types.h",
                  "%s has the value of %s" % (a, ", ".join(clash)))
    errs = sorted(k for k in E if k.startswith("PlasmaError") and k != "PlasmaErrorUnknown")
    for i, a in enumerate(errs):
        clash = [b for b in errs[:i] if E[a] == E[b]]
        rep.check(not clash and E[a] < -64, "distinct", "C20:error:%s" % a, "include/plasma_types.h",
                  "%s (%d) %s" % (a, E[a], "has the value of " + ", ".join(clash) if clash else
                                  "can be confused with an argument position or with success"))
    rep.check(E.get("PlasmaSuccess") == 0, "distinct", "C20:success", "include/plasma_types.h", "PlasmaSuccess is not zero")
    return finish(rep, {"letter": 2300, "constant": 700, "cblas": 9, "distinct": 40})
