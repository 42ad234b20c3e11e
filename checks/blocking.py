"""Abstract execution of the blocking routines: descriptors, translations,
computation, results.  Shared by several checks."""
import interp
from client import *
import terms as T
from predicates import infeasible, show_row

CREATE = {"plasma_desc_general_create": ("ge", ["precision", "mb", "nb", "lm", "ln", "i", "j", "m", "n"]),
          "plasma_desc_triangular_create": ("tr", ["precision", "uplo", "mb", "nb", "lm", "ln", "i", "j", "m", "n"]),
          "plasma_desc_general_band_create": ("band", ["precision", "uplo", "mb", "nb", "lm", "ln", "i", "j", "m", "n",
                                                       "kl", "ku"])}
TIN = {"ge2desc": "ge", "tr2desc": "tr", "pb2desc": "band", "gb2desc": "gb"}
TOUT = {"desc2ge": "ge", "desc2tr": "tr", "desc2pb": "band"}
FREES = {"plasma_desc_destroy", "plasma_workspace_destroy"}


class Desc:
    def __init__(self, term, kind, args, where, line):
        self.term, self.kind, self.args, self.where, self.line = term, kind, args, where, line


def base_desc(v):
    """the descriptor a value stands for (through views and field updates)"""
    while v.op == "upd":
        v = v.args[0]
    return v


class Blk(Base):
    """cs: frozenset of items
       ("live", loc, kind)   a resource created at loc and not released
       ("pend", obj)         handed to asynchronous work since the last join
       ("in", d, p)          descriptor d holds user array p
       ("run",)              the computation was called
       ("dirty", d)          d was given to the computation and not copied out since
       ("out", d, p)         d copied back to user array p
       ("reg", k)            inside region k"""
    def __init__(self):
        self.desc = {}          # base term -> Desc
        self.events = []        # (kind, cs, pc, data, line)
        self.rets = []

    def init(self):
        return frozenset()

    def ev(self, tag_, st, line, **data):
        self.events.append((tag_, st, data, line))

    @staticmethod
    def put(st, add=(), drop=()):
        cs = (st.cs - frozenset(drop)) | frozenset(add)
        return interp.State(st.env, st.heap, st.pc, cs)

    def setvar(self, ex, st, ptr, val):
        st = st.copy()
        if ptr.op == "addr":
            if ptr.args[1] == ():
                st.env[ptr.args[0]] = val
            else:
                st.env[ptr.args[0]] = upd(st.env.get(ptr.args[0], mk("undef", ptr.args[0])), ptr.args[1], val)
        else:
            st.heap[(ptr, ())] = val
        return st

    def split(self, ex, st, name, e):
        """two states: the call succeeded / failed"""
        site = ex.site(e)
        err = mk("err", name, site)
        a, b = st.copy(), st.copy()
        b.pc = b.pc | {not_(eq(err, ZERO))}
        return a, b, err

    def call(self, ex, st, name, args, e):
        line = e[4] if len(e) > 4 else 0
        if name in CREATE:
            kind, names = CREATE[name]
            a, b, err = self.split(ex, st, name, e)
            t = mk("desc", ex.site(e), args[-1])
            d = dict(zip(names, args))
            v = t
            for k, f in (("m", "m"), ("n", "n"), ("i", "i"), ("j", "j"), ("mb", "mb"), ("nb", "nb"), ("lm", "gm"),
                         ("ln", "gn"), ("precision", "precision")):
                v = upd(v, (f,), d[k])
            self.desc[t] = Desc(t, kind, d, ex.where(line), line)
            self.ev("create", st, line, desc=self.desc[t], to=args[-1])
            a = self.setvar(ex, self.put(a, [("live", args[-1], "desc")]), args[-1], v)
            b = self.setvar(ex, b, args[-1], mk("nodesc", ex.site(e)))
            return [(a, ZERO), (b, err)]
        if name == "plasma_descT_create":
            a, b, err = self.split(ex, st, name, e)
            t = mk("descT", ex.site(e), *args)
            self.ev("createT", st, line, args=args, term=t)
            own = root(args[-1]).op != "sym"
            a = self.setvar(ex, self.put(a, [("live", args[-1], "desc")] if own else []), args[-1], t)
            b = self.setvar(ex, b, args[-1], mk("nodesc", ex.site(e)))
            return [(a, ZERO), (b, err)]
        if name == "plasma_workspace_create":
            a, b, err = self.split(ex, st, name, e)
            t = mk("wspace", ex.site(e), *args[1:])
            self.ev("workspace", st, line, args=args, term=t)
            a = self.setvar(ex, self.put(a, [("live", args[0], "workspace")]), args[0], t)
            b = self.setvar(ex, b, args[0], mk("nospace", ex.site(e)))
            return [(a, ZERO), (b, err)]
        if name in ("malloc", "calloc"):
            t = mk("heapmem", ex.site(e))
            a, b = st.copy(), st.copy()
            self.ev("malloc", st, line, name=name, args=args, term=t)
            a.pc = a.pc | {not_(eq(t, ZERO))}
            return [(self.put(a, [("live", t, "memory")]), t), (b, ZERO)]
        if name == "free" or name in FREES:
            return [(self.release(ex, st, args[0], name, line), ZERO)]
        if name in ("plasma_sequence_init", "plasma_request_init"):
            st = self.setvar(ex, st, args[0], upd(mk("fresh", ex.site(e)), ("status",), ZERO))
            return [(st, ZERO)]
        if name == "plasma_request_fail":
            self.ev("fail", st, line, args=args)
            st = st.copy()
            for p in args[:2]:
                if p.op == "addr" and p.args[1] == ():
                    st.env[p.args[0]] = upd(st.env.get(p.args[0], mk("undef", p.args[0])), ("status",), args[2])
            return [(st, args[2])]
        if name in ERRFN or name in interp.PURE or name in interp.NOEFFECT or name.startswith("__builtin") \
                or name in ("plasma_context_self",):
            return None
        if self.inline(name) and ex.find(name) is not None:
            return None
        return self.other(ex, st, name, args, e, line)

    def release(self, ex, st, p, name, line):
        kinds = {"free": "memory", "plasma_desc_destroy": "desc", "plasma_workspace_destroy": "workspace"}
        k = kinds[name]
        if p is ZERO and name == "free":
            return st
        live = ("live", p, k)
        self.ev("release", st, line, obj=p, kind=k, live=live in st.cs, name=name)
        return self.put(st, [("gone", p, k)], [live])

    def other(self, ex, st, name, args, e, line):
        m = name.split("_")
        short = name[len("plasma_omp_"):][1:] if name.startswith("plasma_omp_") else None
        objs = []
        for a in args:
            if base_desc(a) in self.desc or base_desc(a).op in ("descT", "wspace"):
                objs.append(base_desc(a))
            elif a.op == "addr" or a.op == "heapmem":
                objs.append(a)
        pend = [("pend", o) for o in objs]
        if short in TIN or short in TOUT:
            out = short in TOUT
            pA, ld, A, seq, req = (args[1], args[2], args[0], args[3], args[4]) if out else args[:5]
            self.ev("out" if out else "in", st, line, name=name, prec=name[len("plasma_omp_")],
                    kind=(TOUT if out else TIN)[short], p=pA, ld=ld, d=A, seq=seq, req=req)
            b = base_desc(A)
            if out:
                st = self.put(st, pend + [("out", b, pA)], [("dirty", b)])
            else:
                st = self.put(st, pend + [("in", b, pA)])
            return [self.async_opaque(ex, st, name, args, e)]
        if name.startswith("plasma_omp_") or name.startswith("plasma_p") and name in KNOWN:
            self.ev("run", st, line, name=name, args=args)
            st = self.put(st, pend + [("run",)] + [("dirty", o) for o in objs if o in self.desc],
                          [x for x in st.cs if x[0] == "out"])
            return [self.async_opaque(ex, st, name, args, e)]
        self.ev("call", st, line, name=name, args=args)
        return None

    def async_opaque(self, ex, st, name, args, e):
        return ex.opaque(name, args, e, st)

    def omp_begin(self, ex, st, kind, clauses, node):
        return self.put(st, [("reg", kind)])

    def omp_end(self, ex, st, kind, clauses, node):
        drop = [("reg", kind)]
        if kind.startswith("parallel"):
            drop += [x for x in st.cs if x[0] == "pend"]
            vars_ = {x[1].args[0] for x in st.cs if x[0] == "pend" and x[1].op == "addr"}
            st = self.put(st, [], drop)
            st = st.copy()
            for k in vars_:
                st.env[k] = mk("joined", "%s@%d" % (ex.frame, node[4]), k[-1], st.env.get(k, ZERO))
            return st
        return self.put(st, [], drop)

    def omp(self, ex, st, kind, clauses, node):
        self.ev("omp", st, node[4], kind=kind)
        return st

    def ret(self, ex, st, val, line):
        self.rets.append((st, val, line))
