"""Typestate of everything a function acquires: memory, descriptors,
workspaces, Lua states and files.  Shared by C07 (released exactly once) and
C08 (failures tested and reported)."""
import re

import interp
from client import *
from predicates import infeasible

DESC = {"plasma_desc_general_create", "plasma_desc_triangular_create", "plasma_desc_general_band_create"}
MEM = {"malloc", "calloc", "realloc", "luaL_newstate", "fopen", "strdup"}
RELEASE = {"free": "memory", "lua_close": "memory", "fclose": "memory", "plasma_desc_destroy": "desc",
           "plasma_workspace_destroy": "workspace"}
FACTOR = {"plasma_zgeqrf", "plasma_zgelqf", "plasma_zgels", "plasma_zgesdd"}   # hand out T
PREC = re.compile(r"(?<=plasma_)[sdcz](?=ge)")
WAITS = ("taskwait", "barrier")


class Res(Base):
    """cs: frozenset of
       ("live", key, kind, name)   acquired and not released
       ("bad", key, name)          the acquisition failed
       ("gone", key)               released
       ("pend", key)               unfinished tasks may use it
       ("said",)                   the failure was reported to the sequence
       ("depth", n)                nested in n tasks"""

    def __init__(self, F, f):
        self.F, self.f = F, f
        self.obl = {}          # (kind, key) -> [good, where, message]
        self.res = {}          # key term -> name
        self.base = frozenset()
        self.used = []

    def init(self):
        return frozenset()

    def ob(self, good, kind, key, where, msg=""):
        k = (kind, key)
        if k not in self.obl:
            self.obl[k] = [good, where, msg]
        elif self.obl[k][0] and not good:
            self.obl[k] = [good, where, msg]

    @staticmethod
    def put(st, add=(), drop=()):
        return interp.State(st.env, st.heap, st.pc, (st.cs - frozenset(drop)) | frozenset(add))

    # -- resources -------------------------------------------------------
    def setvar(self, ex, st, ptr, val):
        if ptr.op == "addr":
            if ptr.args[1] == ():
                st.env[ptr.args[0]] = val
            else:
                st.env[ptr.args[0]] = upd(st.env.get(ptr.args[0], mk("undef", ptr.args[0])), ptr.args[1], val)
        else:
            st.heap[(ptr, ())] = val

    def place(self, ex, ptr):
        """readable, line independent name of a location"""
        if ptr.op == "addr":
            return ".".join([str(ptr.args[0][-1])] + [str(x) for x in ptr.args[1]])
        return show(ptr)[:60]

    def acquire(self, ex, st, key, kind, name):
        return self.put(st, [("live", key, kind, name)], [("gone", key)] + [x for x in st.cs if x[0] == "bad" and x[1] is key])

    def fail(self, ex, st, key, name):
        return self.put(st, [("bad", key, name)], [("said",)])

    def mentions(self, t):
        m = self.__dict__.setdefault("memo", {})
        r = m.get(t.uid)
        if r is None:
            r = m[t.uid] = [x for x in subterms(t) if x.uid in self.keys]
        return r

    @property
    def keys(self):
        return self.__dict__.setdefault("_keys", {})

    def newkey(self, t, key):
        self.keys[t.uid] = key
        self.memo = {}

    def uses(self, ex, st, t, line, what):
        """a value is used by a call or an access"""
        for x in self.mentions(t):
            key = self.keys[x.uid]
            nm = self.res.get(key, "?")
            for c in st.cs:
                if c[0] == "bad" and c[1] is key:
                    self.ob(False, "untested", "%s:%s" % (self.where(ex), nm), ex.where(line),
                            "%s uses %s although acquiring it may have failed" % (what, nm))
                if c[0] == "gone" and c[1] is key:
                    self.ob(False, "use-after-release", "%s:%s" % (self.where(ex), nm), ex.where(line),
                            "%s uses %s after it was released" % (what, nm))
            self.ob(True, "use", "%s:%s:%s" % (self.where(ex), nm, what), ex.where(line))
            if self.used:
                self.used[-1].add(key)

    def where(self, ex):
        return self.f["name"]

    # -- calls -------------------------------------------------------------
    def call(self, ex, st, name, args, e):
        line = e[4]
        if name in DESC or name in ("plasma_descT_create", "plasma_workspace_create"):
            for a in args:
                self.uses(ex, st, a, line, name)
            ptr = args[0] if name == "plasma_workspace_create" else args[-1]
            kind = "workspace" if name == "plasma_workspace_create" else "desc"
            nm = self.place(ex, ptr)
            self.res[ptr] = nm
            err = mk("err", name, ex.site(e))
            a, b = st.copy(), st.copy()
            b.pc = b.pc | {not_(eq(err, ZERO))}
            v = mk("object", ex.site(e), ptr)
            w = mk("noobject", ex.site(e), ptr)
            self.newkey(v, ptr)
            self.newkey(w, ptr)
            handed = root(ptr).op == "sym" and not self.localptr(root(ptr))
            self.ob(True, "acquire", "%s:%s" % (self.f["name"], nm), ex.where(line))
            old = [x for x in st.cs if x[0] == "live" and x[1] is ptr]
            if old:
                self.ob(False, "leak", "%s:%s:overwritten" % (self.f["name"], nm), ex.where(line),
                        "creates %s again without having released it" % nm)
            if not handed:
                a = self.acquire(ex, a, ptr, kind, nm)
            b = self.fail(ex, b, ptr, nm)
            self.setvar(ex, a, ptr, v)
            self.setvar(ex, b, ptr, w)
            return [(a, ZERO), (b, err)]
        if self.f["name"] != name and PREC.sub("z", name, 1) in FACTOR:
            for a in args:
                self.uses(ex, st, a, line, name)
            ptr = args[-1] if PREC.sub("z", name, 1) in ("plasma_zgeqrf", "plasma_zgelqf") else \
                next((a for a, t in zip(args, self.ptypes(name)) if "plasma_desc_t" in t), None)
            if ptr is not None and ptr.op == "addr":
                nm = self.place(ex, ptr)
                self.res[ptr] = nm
                err = mk("err", name, ex.site(e))
                a, b = st.copy(), st.copy()
                b.pc = b.pc | {not_(eq(err, ZERO))}
                v, w = mk("object", ex.site(e), ptr), mk("noobject", ex.site(e), ptr)
                self.newkey(v, ptr)
                self.newkey(w, ptr)
                self.ob(True, "acquire", "%s:%s" % (self.f["name"], nm), ex.where(line))
                a = self.acquire(ex, a, ptr, "desc", nm)
                b = self.fail(ex, b, ptr, nm)
                self.setvar(ex, a, ptr, v)
                self.setvar(ex, b, ptr, w)
                return [(a, ZERO), (b, err)]
        if name in MEM:
            for a in args:
                self.uses(ex, st, a, line, name)
            t = mk("heapmem", ex.site(e), e[6] if len(e) > 6 else 0)
            nm = "%s#%s" % (name, len([x for x in self.res if x.op == "heapmem"])) if t not in self.res else self.res[t]
            self.res[t] = nm
            self.newkey(t, t)
            self.ob(True, "acquire", "%s:%s" % (self.f["name"], nm), ex.where(line))
            a, b = st.copy(), st.copy()
            a.pc = a.pc | {not_(eq(t, ZERO))}
            b.pc = b.pc | {eq(t, ZERO)}
            return [(self.acquire(ex, a, t, "memory", nm), t), (self.fail(ex, b, t, nm), t)]
        if name == "plasma_rh_tree_operations":
            # allocates the list of operations; NULL reports failure
            ptr = [a for a in args if a.op == "addr"]
            if ptr:
                t = mk("heapmem", ex.site(e), 0)
                self.res[t] = self.place(ex, ptr[0])
                self.newkey(t, t)
                self.ob(True, "acquire", "%s:%s" % (self.f["name"], self.res[t]), ex.where(line))
                a, b = st.copy(), st.copy()
                a.pc = a.pc | {not_(eq(t, ZERO))}
                b.pc = b.pc | {eq(t, ZERO)}
                for s in (a, b):
                    self.setvar(ex, s, ptr[0], t)
                    for k, p in enumerate(ptr[1:]):
                        self.setvar(ex, s, p, mk("out", ex.site(e), k))
                return [(self.acquire(ex, a, t, "memory", self.res[t]), ZERO), (self.fail(ex, b, t, self.res[t]), ZERO)]
        if name in RELEASE:
            return [(self.release(ex, st, args[0], name, line), ZERO)]
        if name in ("plasma_sequence_init", "plasma_request_init"):
            st = st.copy()
            self.setvar(ex, st, args[0], upd(mk("fresh", ex.site(e)), ("status",), ZERO))
            return [(st, ZERO)]
        if name == "plasma_request_fail":
            if infeasible(pathcond(st), eq(args[2], ZERO))[0]:
                st = self.put(st, [("said",)])
            for p in args[:2]:
                if p.op == "addr" and p.args[1] == ():
                    st = st.copy()
                    st.env[p.args[0]] = upd(st.env.get(p.args[0], mk("undef", p.args[0])), ("status",), args[2])
                elif p.op == "sym":
                    st = st.copy()
                    st.heap[(p, ("status",))] = args[2]
            return [(st, args[2])]
        if name == "plasma_barrier_init":
            return [(st, ZERO)]
        if name in ERRFN or name in interp.PURE or name.startswith("__builtin") or name in ("plasma_context_self",):
            return None
        if self.inline(name) and ex.find(name) is not None:
            return None
        for a in args:
            self.uses(ex, st, a, line, name)
        if name.startswith(("plasma_omp_", "plasma_core_omp_", "plasma_p")) and name in KNOWN:
            new = [("pend", self.keys[x.uid]) for a in args for x in self.mentions(a)]
            if new and leaves_tasks(self.F, name):
                st = self.put(st, new)
            return [ex.opaque(name, args, e, st)]
        return None

    def ptypes(self, name):
        f = self.F.funcs[name]
        return [f["types"][p[2]] for p in f["params"]]

    def localptr(self, r):
        return False

    def release(self, ex, st, p, name, line):
        kind = RELEASE[name]
        key = p if kind != "memory" else p
        for r in self.mentions(p) if kind == "memory" else ():
            if r is p:
                key = self.keys[r.uid]
        nm = self.res.get(key)
        if kind == "desc" and p.op == "addr" and p.args[0] in st.env:
            v = st.env[p.args[0]]
            for x in p.args[1]:
                v = fld(v, x)
            if fld(v, "matrix") is ZERO:
                return st
        if nm is None:
            if kind != "memory" and p.op == "addr":
                self.ob(False, "release", "%s:%s" % (self.f["name"], self.place(ex, p)), ex.where(line),
                        "releases %s, which was not created" % self.place(ex, p))
            elif p.op == "load" and not any(x.op == "iv" for x in subterms(p)):
                # an element found in memory: twice the same one?
                self.ob(("elem", p) not in st.cs, "double-release", "%s:%s" % (self.f["name"], show(p)[:40]), ex.where(line),
                        "releases %s twice" % show(p)[:40])
                return self.put(st, [("elem", p)])
            elif p.op == "load" and self.f["name"] == "plasma_workspace_destroy":
                # each thread's space, from the first to the last
                n = mk("load", sym(self.f["params"][0][1]), ("nthread",))
                pc = pathcond(st)
                for x in subterms(p):
                    if x.op == "iv":
                        for i in (ZERO, sub(n, ONE)):
                            self.ob(not infeasible(and_(pc, lt(ZERO, n)), eq(x, i))[0], "leak", "plasma_workspace_destroy:spaces",
                                    ex.where(line), "does not release the space of thread %s" % show(i))
            return st
        live = [x for x in st.cs if x[0] == "live" and x[1] is key]
        bad = [x for x in st.cs if x[0] == "bad" and x[1] is key]
        gone = [x for x in st.cs if x[0] == "gone" and x[1] is key]
        k = "%s:%s" % (self.f["name"], nm)
        if bad and not live:
            return st            # nothing there: a null pointer is released
        if live and live[0][2] != kind:
            self.ob(False, "release", k, ex.where(line), "%s releases %s with %s" % (self.f["name"], nm, name))
        self.ob(not gone or bool(live), "double-release", k, ex.where(line), "releases %s twice" % nm)
        if not live and not gone and not bad:
            handed = root(key).op == "sym"
            self.ob(handed, "release", k, ex.where(line), "releases %s, which was not created on this path" % nm)
        pend = [x for x in st.cs if x[0] == "pend" and x[1] is key]
        self.ob(not pend, "release-in-use", k, ex.where(line),
                "releases %s while tasks that use it may still be running" % nm)
        return self.put(st, [("gone", key)], live + pend)

    # -- memory accesses ----------------------------------------------------
    def store(self, ex, st, loc, val, node):
        if loc[0] == "mem":
            r = root(loc[1])
            self.uses(ex, st, r, ex.cur()["line"], "a store")
            if r is ZERO:
                self.ob(False, "null", "%s:%s" % (self.where(ex), show(loc[1])[:40]), ex.where(ex.cur()["line"]),
                        "writes through a null pointer")
            if r.op != "addr":
                # handed out through a parameter, a global or another object
                for x in self.mentions(val):
                    key = self.keys[x.uid]
                    live = [c for c in st.cs if c[0] == "live" and c[1] is key]
                    if live and val is x:
                        st = self.put(st, [], live)
        elif loc[0] == "glob":
            live = [c for c in st.cs if c[0] == "live" and any(self.keys[x.uid] is c[1] for x in self.mentions(val))]
            if live:
                st = self.put(st, [], live)
        return st

    def load(self, ex, st, loc, node):
        if loc[0] == "mem":
            if root(loc[1]) is ZERO:
                self.ob(False, "null", "%s:%s" % (self.where(ex), show(loc[1])[:40]), ex.where(ex.cur()["line"]),
                        "reads through a null pointer")
            self.uses(ex, st, root(loc[1]), ex.cur()["line"], "a load")
        return st

    # -- OpenMP ------------------------------------------------------------
    def omp(self, ex, st, kind, clauses, node):
        if kind in WAITS:
            st = self.put(st, [], [x for x in st.cs if x[0] == "pend"])
        return st

    def omp_end(self, ex, st, kind, clauses, node):
        if kind.startswith("parallel") or kind == "taskgroup":
            st = self.put(st, [], [x for x in st.cs if x[0] == "pend"])
            # scalars written by the threads
        return st

    def task_begin(self, ex, st, kind, clauses, node):
        self.used.append(set())
        return self.put(st, [("task", node[4])], [x for x in st.cs if x[0] in ("pend", "said")])

    def task_end(self, ex, before, states, kind, clauses, node):
        line = node[4]
        old = {x for x in before.cs}
        for s in states:
            self.final(ex, s, None, line, old, True)
        u = self.used.pop()
        if self.used:
            self.used[-1] |= u
        live = {x[1] for x in before.cs if x[0] == "live"}
        new = [("pend", k) for k in u if k in live]
        freed = set()
        for s in states:
            freed |= {x for x in s.cs if x[0] == "gone"} - old
        st = before
        if freed:
            # the task releases it: no longer ours
            gone = {x[1] for x in freed}
            st = self.put(st, [], [x for x in st.cs if x[0] == "live" and x[1] in gone])
        return self.put(st, new) if new else st

    # -- ends ---------------------------------------------------------------
    def ret(self, ex, st, val, line):
        if len(ex.stack) > 1:
            return
        self.final(ex, st, val, line, frozenset(), False)

    def final(self, ex, st, val, line, old, task):
        n = self.f["name"]
        for x in st.cs:
            if x in old:
                continue
            if x[0] == "live":
                if val is not None and any(self.keys[y.uid] is x[1] for y in self.mentions(val)):
                    continue
                self.ob(False, "leak", "%s:%s" % (n, x[3]), ex.where(line),
                        "%s without releasing %s" % ("a task ends" if task else "returns", x[3]))
            elif x[0] == "gone":
                self.ob(True, "leak", "%s:%s" % (n, self.res.get(x[1], "?")), ex.where(line))
            elif x[0] == "bad":
                if ("said",) in st.cs or x[2].startswith(("luaL_newstate", "fopen")):
                    good = True         # tuning is optional
                elif val is not None and not task and not self.void():
                    good = infeasible(pathcond(st), eq(val, ZERO))[0] or \
                        val.op == "flt" and val.args[0] != 0 or val is ZERO and self.f["types"][self.f["ret"]].endswith("*")
                else:
                    good = False
                self.ob(good, "unreported", "%s:%s" % (n, x[2]), ex.where(line),
                        "%s without reporting that acquiring %s failed" % ("a task ends" if task else "returns", x[2]))

    def void(self):
        return self.f["types"][self.f["ret"]] == "void"


def leaves_tasks(F, name, stack=()):
    """may tasks created by the function still run when it returns?"""
    memo = F.__dict__.setdefault("_leaves_tasks", {})
    if name in memo:
        return memo[name]
    f = F.funcs.get(name)
    if f is None:
        return name.startswith("plasma_")

    def walk(n):
        if not isinstance(n, list) or not n:
            return False
        if n[0] == "omp":
            if n[1].startswith("parallel") or n[1] == "taskgroup":
                return False
            if n[1] in ("task", "taskloop"):
                return True
        if n[0] == "call" and isinstance(n[1], str) and n[1] in F.funcs and n[1] not in stack \
                and leaves_tasks(F, n[1], stack + (name,)):
            return True
        return any(walk(x) for x in n if isinstance(x, list))
    memo[name] = walk(f["body"])
    return memo[name]


def relevant(node, names):
    if isinstance(node, list):
        if node and node[0] == "call" and node[1] in names:
            return True
        return any(relevant(x, names) for x in node if isinstance(x, list))
    return False


def analyse(F):
    r = getattr(F, "_resources", None)
    if r is not None:
        return r
    names = {"plasma_" + p + x[8:] for x in FACTOR for p in "sdcz"} | DESC | MEM | set(RELEASE) | {"plasma_descT_create", "plasma_workspace_create", "plasma_rh_tree_operations"}
    out = []
    fs = list(F.funcs.values()) + [f for f in F.local.values()]
    # helpers that are inlined are analysed with their callers, too
    todo = [f for f in fs if f["file"].startswith(("compute/", "control/", "core_blas/")) and relevant(f["body"], names)]
    callers = set(f["name"] for f in todo)
    for f in sorted(todo, key=lambda f: (f["file"], f["line"])):
        cl = Res(F, f)
        ex = interp.Exec(F, cl)
        ex.run(f)
        out.append((f, cl, ex.unsupported))
    F._resources = out
    return out
