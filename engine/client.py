"""Shared client behaviour: which functions stay calls and which are inlined.
Functions that existed when the rules were written keep their names as
anchors (engine/known.json); anything else - a helper split off later - is
inlined, so that splitting code does not change a verdict."""
import json, os
import interp, facts
from terms import *
import terms as T

KNOWN = frozenset(json.load(open(os.path.join(os.path.dirname(__file__), "known.json"))))
ERRFN = {"plasma_error_func_line_file", "plasma_fatal_error_func_line_file",
         "plasma_coreblas_error_func_line_file", "plasma_error", "plasma_fatal_error"}

ALWAYS = frozenset(("imin", "imax"))


class Base(interp.Client):
    opaque_known = True
    keep = frozenset()        # known names to inline nevertheless

    def inline(self, name):
        if name in ALWAYS or name in self.keep:
            return True
        return name not in KNOWN


def pathcond(st):
    return and_(*sorted(st.pc, key=lambda t: t.uid))


def root(p):
    """what a pointer term points into: ('sym', name), ('addr', var), ..."""
    seen = 0
    while isinstance(p, Term) and seen < 50:
        seen += 1
        if p.op in ("padd", "faddr"):
            p = p.args[0]
        elif p.op == "poly" or p.op == "op":
            return p
        else:
            return p
    return p


def leaves(v, c=TRUE):
    """[(condition, leaf)] of a gated value"""
    if v.op == "ite":
        return leaves(v.args[1], and_(c, v.args[0])) + leaves(v.args[2], and_(c, not_(v.args[0])))
    return [(c, v)]


def consts(F):
    """all enumeration constants by name"""
    c = getattr(F, "_consts", None)
    if c is None:
        c = F._consts = {n: v for items in F.enums.values() for n, v in items}
    return c
