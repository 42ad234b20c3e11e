"""C05: a failed sequence does no further computation."""
import facts, interp
from client import *
from common import *
from predicates import infeasible, show_row

RULE = ("in every tile algorithm and every task-submitting kernel wrapper: each call of a computational kernel and each "
        "store to matrix data lies on paths whose condition implies that the sequence was tested successful - inside a "
        "task, tested by the task itself (a value read before the task does not count); outside tasks, tested since entry")

# helpers that neither read nor write matrix data
BENIGN = {"plasma_barrier_init", "plasma_barrier_wait", "plasma_context_self", "plasma_request_fail", "plasma_error",
          "plasma_fatal_error", "plasma_error_func_line_file", "plasma_fatal_error_func_line_file", "malloc", "calloc",
          "free", "omp_get_thread_num", "omp_get_num_threads", "omp_get_max_threads", "printf", "fprintf",
          "plasma_rh_tree_create", "plasma_rh_tree_operation_count", "plasma_rh_tree_insert_operation",
          "plasma_rh_tree_destroy", "plasma_tree_flat_gt", "plasma_rh_tree_operations", "plasma_desc_destroy",
          "plasma_workspace_destroy", "plasma_workspace_create", "plasma_desc_general_create", "plasma_descT_create",
          "conv", "LAPACKE_dlamch_work", "LAPACKE_slamch_work", "plasma_ceildiv", "findVTpos", "findVTsiz"}

# sequential drivers without a sequence of their own
OUTSIDE = ("stevx2", "laebz2", "laneg2")


def has_sequence(f):
    return any("plasma_sequence_t" in f["types"][t] if isinstance(t, int) else "plasma_sequence_t" in str(t)
               for _, _, t in f["params"])


def submits(node):
    if isinstance(node, list):
        if node and node[0] == "omp" and node[1] in ("task", "taskloop"):
            return True
        return any(submits(x) for x in node if isinstance(x, list))
    return False


def is_guarded_callee(name):
    return name.startswith("plasma_core_omp_") or name.startswith("plasma_p") or name.startswith("plasma_omp_")


class C(Base):
    def __init__(self, seqs):
        self.seqs = seqs
        self.eff = []
        self.n = 0

    def init(self):
        return ()

    def task_begin(self, ex, st, kind, clauses, node):
        st = st.copy()
        for s in self.seqs:
            st.heap[(s, ("status",))] = mk("taskstatus", s, "%s@%d" % (ex.frame, node[4]))
        # conditions about the outside status do not carry over
        st.pc = st.pc
        return interp.State(st.env, st.heap, st.pc, st.cs + (node[4],))

    def task_end(self, ex, before, states, kind, clauses, node):
        return before

    def effect(self, ex, st, what, line):
        self.eff.append((st, what, ex.where(line), ex.cur()))

    def call(self, ex, st, name, args, e):
        line = e[4]
        if name in ("memset", "memcpy") or not (name in BENIGN or name in interp.PURE or name in interp.NOEFFECT
                                                or name.startswith("__builtin") or is_guarded_callee(name)):
            if self.inline(name) and ex.find(name) is not None:
                return None
            local = [root(a) for a in args]
            if name in ("memset", "memcpy") and local and local[0].op in ("addr", "ret"):
                return None
            self.effect(ex, st, "calls " + name, line)
        elif name.startswith("plasma_core_omp_"):
            self.effect(ex, st, "submits " + name, line)
        return None

    def store(self, ex, st, loc, val, node):
        if loc[0] == "mem":
            r = root(loc[1])
            if r.op == "sym" and r in self.seqs or r.op == "addr" or r.op == "ret":
                return st
            if node[0] == "asg" and ex.isint(node[4]) or node[0] == "un" and ex.isint(node[3]):
                return st           # pivots, progress tables and the like
            if ex.fn["name"].startswith("plasma_omp_") and is_const(val) and r is sym("value"):
                return st           # the norm of an empty matrix
            self.effect(ex, st, "stores through %s" % show(loc[1])[:60], ex.cur()['line'])
        return st


def run(F):
    rep = Report("C05", RULE)
    fs = []
    for f in F.funcs.values():
        n = f["name"]
        if not f["file"].startswith(("compute/", "core_blas/")):
            continue
        if any(x in n for x in OUTSIDE):
            continue
        isseq = has_sequence(f)
        if isseq and n.startswith(("plasma_p", "plasma_core_omp_", "plasma_omp_")) or not isseq and submits(f["body"]):
            fs.append(f)
    for f in sorted(fs, key=lambda f: (f["file"], f["line"])):
        n = f["name"]
        if n in ("plasma_core_omp_dummy",):
            continue
        seqs = [sym(p) for _, p, t in f["params"]
                if "plasma_sequence_t" in (f["types"][t] if isinstance(t, int) else str(t))]
        cl = C(seqs)
        ex = interp.Exec(F, cl)
        ex.run(f)
        if ex.unsupported:
            raise AnalysisBroken("%s: unsupported construct %s" % (n, ex.unsupported[0]))
        fw = "%s (%s)" % (f["file"], n)
        if not cl.eff:
            rep.ok("delegates", fw, "no direct effect")
        for st, what, where, fn in cl.eff:
            pc = pathcond(st)
            intask = bool(st.cs)
            good = False
            for s in seqs:
                # inside nested tasks the test of any enclosing task counts:
                # the inner tasks are parts of one kernel
                # (clob: read again in the task after some call)
                vs = [t for t in subterms(pc) if t.op in ("taskstatus", "clob", "phi") and s in t.args] if intask \
                    else [mk("load", s, ("status",))]
                good = good or any(infeasible(pc, not_(eq(v, ZERO)))[0] for v in vs)
            kind = "submit" if what.startswith("submits") else ("task" if intask else "direct")
            rep.check(good, kind, "C05:%s:%s" % (n, "store" if what.startswith("stores") else what.split(" ")[1]), where,
                      "%s %s without having found the sequence successful" % (what, "in a task" if intask else ""))
    return finish(rep, {"task": 400, "submit": 400})
