"""C07: everything a routine acquires is released exactly once on every path."""
import resources
from common import *

KINDS = ("leak", "double-release", "release", "use-after-release", "release-in-use")
RULE = ("typestate of every acquired object (malloc, calloc, descriptor, workspace, list of operations, Lua state, file) on "
        "every path of every function that acquires or releases: released exactly once with the matching call before the "
        "function or task that acquired it ends, unless handed to the caller; not used afterwards; not released before "
        "the tasks that were given it are joined")


def run(F):
    rep = Report("C07", RULE)
    for f, cl, uns in resources.analyse(F):
        if uns:
            raise AnalysisBroken("%s: unsupported construct %s" % (f["name"], uns[0]))
        for (kind, key), (good, where, msg) in cl.obl.items():
            if kind in KINDS:
                rep.check(good, kind, "C07:%s:%s" % (kind, key), where, msg)
    return finish(rep, {"leak": 450, "double-release": 450})
