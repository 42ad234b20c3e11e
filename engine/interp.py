"""A path-merging abstract interpreter (property simulation) over the resolved
syntax trees.  Values are gated value numbers (terms.py); states that agree on
the client's typestate are merged at joins; calls to functions that a client
does not model are inlined, so the verdict does not depend on how the code is
split into helpers.  No solver is involved and nothing is executed."""
from terms import *
import terms as T
from facts import AnalysisBroken

PURE = {
    "plasma_tile_addr", "plasma_tile_mview", "plasma_tile_nview", "plasma_tile_mmain",
    "plasma_tile_nmain", "plasma_tile_mmain_band", "plasma_desc_view", "plasma_element_size",
    "plasma_tile_addr_general", "plasma_tile_addr_general_band", "plasma_tile_addr_triangle",
    "plasma_tile_addr_general_band", "conj", "creal", "cimag", "fabs", "cabs", "sqrt", "ceil", "log10",
    "plasma_core_dcabs1", "plasma_core_scabs1", "conjf", "crealf", "cimagf", "fabsf", "cabsf", "sqrtf",
    "omp_get_num_threads", "omp_get_max_threads", "abs", "floor", "pow",
    "plasma_desc_check", "lapack_const", "lapack_const_t",
}
NOEFFECT = {"printf", "fprintf", "free", "malloc", "calloc", "memset", "memcpy", "__assert_fail",
            "plasma_error_print", "plasma_fatal_error_print", "omp_get_thread_num"}
MAXSTATES = 64
LIM = 120


class State:
    __slots__ = ("env", "heap", "pc", "cs")

    def __init__(self, env, heap, pc, cs):
        self.env, self.heap, self.pc, self.cs = env, heap, pc, cs

    def copy(self):
        return State(dict(self.env), dict(self.heap), self.pc, self.cs)


class Client:
    """hooks; a client state (cs) is any hashable value"""
    max_depth = 8

    def init(self):
        return ()

    def inline(self, name):
        return True

    def call(self, ex, st, name, args, node):
        return None          # or list of (state, value)

    def store(self, ex, st, loc, val, node):
        return st

    def load(self, ex, st, loc, node):
        return st

    def omp_begin(self, ex, st, kind, clauses, node):
        return st

    def omp_end(self, ex, st, kind, clauses, node):
        return st

    def omp(self, ex, st, kind, clauses, node):
        return st

    def task_begin(self, ex, st, kind, clauses, node):
        return st

    def task_end(self, ex, before, states, kind, clauses, node):
        """returns the state after the task construct"""
        return before

    def branch(self, ex, st, cond):
        return st

    def merge_cs(self, a, b):
        return None          # None: keep apart

    def ret(self, ex, st, val, line):
        pass


def number_calls(fn):
    """give every call expression of a function an ordinal (once)"""
    if fn.get("numbered"):
        return
    cnt = [0]

    def w(n):
        if isinstance(n, list):
            if n and n[0] == "call":
                n.append(cnt[0])
                cnt[0] += 1
            elif n and n[0] in ("for", "while", "do", "omp", "if", "switch"):
                pass
            for x in n:
                if isinstance(x, list):
                    w(x)
    w(fn["body"])
    fn["numbered"] = True


def has_effects(e, pure=PURE):
    if not isinstance(e, list):
        return False
    if e and e[0] == "asg":
        return True
    if e and e[0] == "un" and e[1] in ("++", "--", "p++", "p--"):
        return True
    if e and e[0] == "call" and e[1] not in pure:
        return True
    return any(has_effects(x) for x in e if isinstance(x, list))


def base_var(e, types):
    """the local variable that holds the object denoted by lvalue e"""
    while isinstance(e, list):
        if e[0] == "var":
            return e
        if e[0] == "mem" and not e[3]:
            e = e[1]
        elif e[0] == "idx":
            e = e[1]
            b = e
            while isinstance(b, list) and b[0] in ("cast", "icast"):
                b = b[2]
            if isinstance(b, list) and b[0] in ("var", "mem") and not types[b[4]].endswith("]"):
                return None         # element of what a pointer points to
        elif e[0] in ("cast", "icast"):
            e = e[2]
        else:
            return None
    return None


def assigned(node, types, out=None):
    """declids possibly assigned in a subtree: {id: [how, ...]}"""
    out = {} if out is None else out
    if not isinstance(node, list) or not node:
        return out
    k = node[0]
    if k == "asg":
        b = base_var(node[2], types)
        if b is not None:
            how = "set"
            if node[1] == "+=" and node[3][0] == "int":
                how = "inc" if node[3][1] > 0 else "dec"
            elif node[1] == "-=" and node[3][0] == "int":
                how = "dec" if node[3][1] > 0 else "inc"
            elif node[1] == "=" and node[2][0] == "var" and isinstance(node[3], list) and node[3][0] == "bin" \
                    and node[3][1] in "+-" and isinstance(node[3][2], list) and node[3][2][:2] == node[2][:2] \
                    and isinstance(node[3][3], list) and node[3][3][0] == "int":
                how = "inc" if (node[3][1] == "+") == (node[3][3][1] > 0) else "dec"
            if node[2][0] != "var":
                how = "set"
            out.setdefault(b[1], []).append(how)
    elif k == "un":
        if node[1] in ("++", "p++", "--", "p--"):
            b = base_var(node[2], types)
            if b is not None:
                out.setdefault(b[1], []).append("inc" if "+" in node[1] else "dec")
        elif node[1] == "&":
            b = base_var(node[2], types)
            if b is not None and node[2][0] != "idx":
                out.setdefault(b[1], []).append("addr")
            elif b is not None and node[2][0] == "idx":
                # &arr[i] of a local array
                out.setdefault(b[1], []).append("elt")
    elif k == "decl":
        for v in node[1]:
            out.setdefault(v[0], []).append("decl")
    elif k == "omp":
        for c in node[2]:
            pass
    for x in node:
        if isinstance(x, list):
            assigned(x, types, out)
    return out


def unit(n, vid):
    """does every iteration of loop n move variable vid by exactly one? +1, -1 or 0"""
    s = step(n, vid)
    return s[0] * s[1][1] if s and s[1][0] == "int" and abs(s[1][1]) == 1 else 0


def step(n, vid):
    """(sign, expression) by which every iteration of loop n moves variable vid, or None"""
    hits = []

    def one(e):
        if not isinstance(e, list) or not e:
            return None
        if e[0] == "un" and e[1] in ("++", "p++", "--", "p--") and e[2][:2] == ["var", vid]:
            return (1 if "+" in e[1] else -1), ["int", 1]
        if e[0] == "asg" and e[2][:2] == ["var", vid]:
            c = e[3]
            if e[1] in ("+=", "-="):
                return (1 if e[1] == "+=" else -1), c
            if e[1] == "=" and c[0] == "bin" and c[1] in "+-" and c[2][:2] == ["var", vid]:
                return (1 if c[1] == "+" else -1), c[3]
            if e[1] == "=" and c[0] == "bin" and c[1] == "+" and c[3][:2] == ["var", vid]:
                return 1, c[2]
        return None

    def count(x):
        """assignments to the variable in a subtree"""
        if not isinstance(x, list) or not x:
            return 0
        a = 0
        if x[0] == "asg" and isinstance(x[2], list) and x[2][:2] == ["var", vid] or \
                x[0] == "un" and x[1] in ("++", "p++", "--", "p--", "&") and isinstance(x[2], list) and x[2][:2] == ["var", vid]:
            a = 1
        return a + sum(count(y) for y in x if isinstance(y, list))
    parts = n[2:5] if n[0] == "for" else n[1:3]
    if sum(count(x) for x in parts if isinstance(x, list)) != 1:
        return None

    def walk(x, top):
        if not isinstance(x, list) or not x:
            return
        if top and one(x):
            hits.append(one(x))
        if x[0] == "block":
            for y in x[1]:
                walk(y, True)
        elif x[0] == "expr":
            walk(x[1], True)
        elif x[0] == "comma" or x[0] == "bin" and x[1] == ",":
            for y in x[1:]:
                walk(y, True)

    def always(x):
        """parts of the loop condition evaluated whenever it is"""
        if not isinstance(x, list) or not x:
            return
        if one(x):
            hits.append(one(x))
        if x[0] == "bin" and x[1] in ("&&", "||"):
            always(x[2])
        elif x[0] == "bin":
            always(x[2])
            always(x[3])
        elif x[0] == "un" and x[1] not in ("++", "p++", "--", "p--", "&"):
            always(x[2])
        elif x[0] == "cast":
            always(x[-1])
    always(n[2] if n[0] == "for" else n[1])
    if n[0] == "for":
        walk(n[3], True)
        walk(n[4], True)
        if hits and not one(n[3]) and any(z == "continue" for z in _kinds(n[4])):
            return None
    else:
        body = n[2] if n[0] == "while" else n[2]
        walk(body, True)
        if any(z == "continue" for z in _kinds(body)):
            return None
    return hits[0] if len(hits) == 1 else None


def _kinds(x):
    if isinstance(x, list):
        if x and isinstance(x[0], str):
            yield x[0]
        for y in x:
            yield from _kinds(y)


class Exec:
    def __init__(self, facts, client):
        self.F, self.client = facts, client
        self.stack = []
        self.loops = {}
        self.read_memo = {}
        self.nest = []          # the loops around the statement being analysed, outermost first
        self.order = {}         # loops and calls in the order in which they are met
        self.unsupported = []
        self.unit = None
        self.steps = 0

    # ---- helpers ----------------------------------------------------------
    def stride(self, s, asg, st):
        """the amount by which a loop moves its counter, when the loop leaves it alone"""
        if s is None:
            return None
        e = s[1]
        sign = s[0]
        if e[0] == "un" and e[1] == "-":
            sign, e = -sign, e[2]
        if e[0] == "int":
            return const(sign * e[1])
        if e[0] != "var" or e[1] in asg:
            return None
        v = next((v for k, v in st.env.items() if k[0] == "v" and k[1] == self.frame and k[2] == e[1]), None)
        return v if v is None or sign > 0 else sub(ZERO, v)

    def ptrstores(self, node, f, seen=frozenset()):
        """may the code store a pointer through memory?  (an integer store
        leaves pointers in memory alone)"""
        if not isinstance(node, list) or not node:
            return False
        if node[0] == "asg" and node[2][0] != "var" and isinstance(node[4], int) \
                and f["types"][node[4]].rstrip().endswith("*"):
            return True
        if node[0] == "call":
            name = node[1]
            if name not in NOEFFECT and name not in PURE:
                g = self.find(name) if isinstance(name, str) else None
                if g is None or name in seen or len(seen) > 4 or self.ptrstores(g["body"], g, seen | {name}):
                    return True
        return any(self.ptrstores(x, f, seen) for x in node if isinstance(x, list))

    def find(self, name):
        f = self.F.local.get((self.unit, name))
        if f is None:
            f = self.F.funcs.get(name)
        if f is None:
            f = self.F.local.get(("verif_headers.c", name))
        return f

    def run(self, fn, args=None, cs=None):
        number_calls(fn)
        self.unit = fn["unit"]
        self.fn = fn
        env = {}
        frame = fn["name"]
        for i, (pid, pname, pty) in enumerate(fn["params"]):
            env[("v", frame, pid, pname)] = args[i] if args else sym(pname)
        st = State(env, {}, frozenset(getattr(self.client, "pre", ())), self.client.init() if cs is None else cs)
        self.stack = [(fn, frame)]
        outs = self.stmt(fn["body"], [st])
        rets = []
        for kind, s, v in outs:
            if kind == "return":
                rets.append((s, v[0], v[1]))
            elif kind == "fall":
                rets.append((s, None, fn["endline"]))
            elif kind[:4] == "goto":
                self.unsupported.append((fn["name"], "goto " + kind[5:]))
        for s, v, l in rets:
            self.client.ret(self, s, v, l)
        self.stack = []
        return rets

    @property
    def frame(self):
        return self.stack[-1][1]

    def cur(self):
        return self.stack[-1][0]

    def tyname(self, t):
        return self.cur()["types"][t]

    def where(self, line):
        f = self.cur()
        return "%s:%d (%s)" % (f["file"], line, f["name"])

    # ---- path conditions --------------------------------------------------
    def simp(self, st, c):
        """simplify a condition under the path condition"""
        if c in (TRUE, FALSE):
            return c
        pc = st.pc
        if c in pc:
            return TRUE
        n = not_(c)
        if n in pc:
            return FALSE
        if c.op in ("and", "or"):
            r = (and_ if c.op == "and" else or_)(*[self.simp(st, x) for x in c.args])
            if r is not c:
                return self.simp(st, r)
            return c
        a = c.args[0] if c.op == "not" else c
        neg = c.op == "not"
        v = self.known(st, a)
        if v is not None:
            return TRUE if (v != neg) else FALSE
        return c

    def known(self, st, a):
        pc = st.pc
        if a in pc:
            return True
        if not_(a) in pc:
            return False
        if a.op == "eq":
            # x == c1 known, asking x == c2
            d = a.args[0]
            var, k = _var_const(d)
            if var is not None:
                for f in pc:
                    if f.op == "eq":
                        v2, k2 = _var_const(f.args[0])
                        if v2 is var:
                            return k == k2
                    elif f.op == "or" and all(x.op == "eq" for x in f.args):
                        vs = [_var_const(x.args[0]) for x in f.args]
                        if all(v2 is var for v2, _ in vs) and all(k2 != k for _, k2 in vs):
                            return False
                lo, hi = bounds(pc, var)
                if lo is not None and k < lo or hi is not None and k > hi:
                    return False
        elif a.op == "lt":
            p = T._poly(a.args[0])
            c = p.get((), 0)
            body = T._unpoly({m: v for m, v in p.items() if m})
            neg = T._unpoly({m: -v for m, v in p.items() if m})
            lo, hi = bounds(pc, body)
            if hi is not None and hi + c < 0:
                return True
            if lo is not None and lo + c >= 0:
                return False
            lo, hi = bounds(pc, neg)
            if lo is not None and -lo + c < 0:
                return True
            if hi is not None and -hi + c >= 0:
                return False
        return None

    def assume(self, st, c):
        """state under condition c, or None when c contradicts the path"""
        c = self.simp(st, c)
        if c is FALSE:
            return None
        if c is TRUE:
            return st
        new = set(st.pc)
        todo = list(c.args) if c.op == "and" else [c]
        new.update(todo)
        # unit propagation on disjunctions
        changed = True
        while changed:
            changed = False
            tmp = State(None, None, frozenset(x for x in new if x.op != "or"), None)
            for f in [x for x in new if x.op == "or"]:
                keep = []
                done = False
                for d in f.args:
                    s = self.simp(tmp, d)
                    if s is TRUE:
                        done = True
                        break
                    if s is not FALSE:
                        keep.append(s)
                if done:
                    new.discard(f)
                elif len(keep) != len(f.args) or any(x is not y for x, y in zip(keep, f.args)):
                    new.discard(f)
                    g = or_(*keep)
                    if g is FALSE:
                        return None
                    new.update(g.args if g.op == "and" else [g])
                    changed = True
        # contradictory literals
        lits = frozenset(new)
        for x in lits:
            if x is FALSE or not_(x) in lits:
                return None
        s2 = State(st.env, st.heap, lits - {TRUE}, st.cs)
        return s2

    def feasible(self, st):
        from predicates import infeasible
        return not infeasible(and_(*sorted(st.pc, key=lambda t: t.uid)), TRUE)[0]

    # ---- merging ----------------------------------------------------------
    def merge(self, states):
        groups, order = {}, []
        for s in states:
            if s.cs in groups:
                groups[s.cs].append(s)
            else:
                groups[s.cs] = [s]
                order.append(s.cs)
        out = []
        for k in order:
            g = groups[k]
            m = g[0]
            for s in g[1:]:
                m = self.merge2(m, s)
            out.append(m)
        if len(out) > 1:
            # let the client join compatible typestates
            res = []
            for s in out:
                for i, r in enumerate(res):
                    cs = self.client.merge_cs(r.cs, s.cs)
                    if cs is not None:
                        m = self.merge2(r, s)
                        m.cs = cs
                        res[i] = m
                        break
                else:
                    res.append(s)
            out = res
        if len(out) > MAXSTATES:
            raise AnalysisBroken("state explosion in " + self.cur()["name"])
        return out

    @staticmethod
    def trim(pc, common):
        """drop oversized disjunctions (a sound weakening of the path condition)"""
        return frozenset(x for x in pc if x in common or natoms(x) <= LIM)

    def merge2(self, a, b):
        common = a.pc & b.pc
        a.pc, b.pc = self.trim(a.pc, common), self.trim(b.pc, common)
        ra = and_(*[x for x in a.pc if x not in common])
        rb = and_(*[x for x in b.pc if x not in common])
        j = or_(ra, rb)
        pc = set(common)
        if natoms(j) > LIM:
            j = TRUE
        if j is not TRUE:
            pc.update(j.args if j.op == "and" else [j])
        env = {}
        excl = [None]

        def join(x, y, tag):
            if x is y:
                return x
            if excl[0] is None:
                # the guard may select a value only if it really separates
                # the two sides
                if natoms(ra) > LIM or ra is TRUE:
                    excl[0] = "no"
                else:
                    excl[0] = "yes" if rb is not_(ra) or self.assume(b, ra) is None else "no"
            if excl[0] == "no":
                return mk("phi", x, y, tag)
            return ite(ra, x, y)
        for k, v in a.env.items():
            w = b.env.get(k)
            if w is not None:
                env[k] = join(v, w, k[-1])
        heap = {}
        for k in set(a.heap) | set(b.heap):
            v = a.heap.get(k) or mk("load", k[0], k[1])
            w = b.heap.get(k) or mk("load", k[0], k[1])
            heap[k] = join(v, w, "m")
        return State(env, heap, frozenset(pc), a.cs)

    # ---- locations --------------------------------------------------------
    def varkey(self, e):
        if e[3] == "g":
            return ("g", e[2])
        vid = e[1]
        # variables of enclosing frames do not occur: C has no closures
        return ("v", self.frame, vid, e[2])

    def lval(self, e, st):
        """list of (state, loc); loc = ("loc", varkey, path) | ("mem", ptr, path)"""
        k = e[0]
        if k == "var":
            return [(st, ("loc", self.varkey(e), ()))]
        if k == "mem":
            if e[3]:
                return [(s, self.deref(p, (e[2],))) for s, p in self.ev(e[1], st)]
            if e[1][0] in ("var", "mem", "idx", "un"):
                return [(s, (l[0], l[1], l[2] + (e[2],))) for s, l in self.lval(e[1], st)]
            return [(s, ("val", v, (e[2],))) for s, v in self.ev(e[1], st)]
        if k == "idx":
            out = []
            for s, p in self.ev(e[1], st):
                for s2, i in self.ev(e[2], s):
                    out.append((s2, self.deref(padd(p, i), ())))
            return out
        if k == "sec":
            out = []
            for s, p in self.ev(e[1], st):
                for s2, i in (self.ev(e[2], s) if e[2] is not None else [(s, ZERO)]):
                    out.append((s2, self.deref(padd(p, i), ())))
            return out
        if k == "un" and e[1] == "*":
            return [(s, self.deref(p, ())) for s, p in self.ev(e[2], st)]
        if k in ("cast", "icast"):
            return self.lval(e[2], st)
        return [(s, ("val", v, ())) for s, v in self.ev(e, st)]

    def deref(self, p, path):
        if p.op == "addr":
            return ("loc", p.args[0], p.args[1] + path)
        return ("mem", p, path)

    def addr(self, loc):
        if loc[0] == "loc":
            return mk("addr", loc[1], loc[2])
        if loc[0] == "mem":
            if loc[2] == ():
                return loc[1]
            return mk("faddr", loc[1], loc[2])
        return mk("tmpaddr", loc[1], loc[2])

    def read(self, st, loc):
        if loc[0] == "loc":
            v = st.env.get(loc[1])
            if v is None:
                v = mk("gvar", loc[1][1]) if loc[1][0] == "g" else mk("undef", loc[1])
            for f in loc[2]:
                v = fld(v, f)
            return v
        if loc[0] == "mem":
            p = loc[1]
            path = loc[2]
            if p.op == "faddr":
                path = p.args[1] + path
                p = p.args[0]
            v = st.heap.get((p, path))
            if v is not None:
                return v
            for n in range(len(path) - 1, -1, -1):
                v = st.heap.get((p, path[:n]))
                if v is not None:
                    for f in path[n:]:
                        v = fld(v, f)
                    return v
            return mk("load", p, path)
        v = loc[1]
        for f in loc[2]:
            v = fld(v, f)
        return v

    def write(self, st, loc, val, node):
        st = self.client.store(self, st, loc, val, node)
        st = st.copy()
        if loc[0] == "loc":
            if loc[2] == ():
                st.env[loc[1]] = val
            else:
                old = st.env.get(loc[1])
                if old is None:
                    old = mk("gvar", loc[1][1]) if loc[1][0] == "g" else mk("undef", loc[1])
                st.env[loc[1]] = upd(old, loc[2], val)
        elif loc[0] == "mem":
            p, path = loc[1], loc[2]
            if p.op == "faddr":
                path = p.args[1] + path
                p = p.args[0]
            nonptr = isinstance(node, list) and node[0] == "asg" and not self.tyname(node[4]).rstrip().endswith("*")
            for k in list(st.heap):
                if k[0] is not p and k[1][-1:] == path[-1:] and not (st.heap[k].op == "heapmem" and nonptr):
                    st.heap[k] = mk("clob", k[0], k[1], val)
                elif k[0] is p and k[1][:len(path)] == path and k[1] != path:
                    del st.heap[k]
            st.heap[(p, path)] = val
        return st

    # ---- expressions ------------------------------------------------------
    def isint(self, t):
        n = self.tyname(t)
        return not ("float" in n or "double" in n or "_Complex" in n)

    def ev(self, e, st):
        self.steps += 1
        k = e[0]
        if k == "int":
            return [(st, const(e[1]))]
        if k == "enum":
            return [(st, const(e[2]))]
        if k == "flt":
            x = float(e[1])
            return [(st, const(int(x)) if x == int(x) and abs(x) < 1e9 else mk("flt", e[1]))]
        if k == "str":
            return [(st, mk("str", e[1]))]
        if k == "fn":
            return [(st, mk("fn", e[1]))]
        if k == "imag":
            return [(st, mk("imagc", "1"))]
        if k == "sizeof":
            return [(st, mk("sizeof", self.tyname(e[1])))]
        if k in ("icast", "cast"):
            return self.ev(e[2], st)
        if k == "var":
            t = self.tyname(e[4])
            if t.endswith("]"):     # array decays to its address
                key = self.varkey(e)
                return [(st, mk("addr", key, (0,)))]
            st = self.client.load(self, st, ("loc", self.varkey(e), ()), e)
            return [(st, self.read(st, ("loc", self.varkey(e), ())))]
        if k in ("mem", "idx") or (k == "un" and e[1] == "*"):
            out = []
            arr = k == "mem" and self.tyname(e[4]).endswith("]") or \
                k == "idx" and self.tyname(e[3]).endswith("]")
            for s, l in self.lval(e, st):
                if arr:
                    out.append((s, self.addr((l[0], l[1], l[2] + (0,)))))
                    continue
                s = self.client.load(self, s, l, e)
                out.append((s, self.read(s, l)))
            return out
        if k == "un":
            return self.ev_un(e, st)
        if k == "bin":
            return self.ev_bin(e, st)
        if k == "asg":
            return self.ev_asg(e, st)
        if k == "cond":
            out = []
            for s, c in self.ev_cond(e[1], st):
                if has_effects(e[2]) or has_effects(e[3]):
                    for br, cc in ((e[2], c), (e[3], not_(c))):
                        s2 = self.assume(s, cc)
                        if s2 is not None:
                            out += self.ev(br, s2)
                    continue
                cs = self.simp(s, c)
                sa, sb = self.assume(s, c), self.assume(s, not_(c))
                if cs is TRUE or sb is None:
                    out += self.ev(e[2], s)
                elif cs is FALSE or sa is None:
                    out += self.ev(e[3], s)
                else:
                    a = self.ev(e[2], sa)[0]
                    b = self.ev(e[3], sb)[0]
                    s = State(s.env, s.heap, s.pc, self.join_cs(a[0].cs, b[0].cs, s.cs))
                    out.append((s, ite(c, a[1], b[1])))
            return out
        if k == "call":
            return self.ev_call(e, st)
        if k == "init":
            t = self.tyname(e[2])
            vals = []
            sts = [(st, [])]
            for x in e[1]:
                nxt = []
                for s, vs in sts:
                    for s2, v in self.ev(x, s):
                        nxt.append((s2, vs + [v]))
                sts = nxt
            rec = self.F.records.get(t)
            out = []
            for s, vs in sts:
                base = mk("init", t)
                for i, v in enumerate(vs):
                    base = upd(base, (rec[i][0] if rec and i < len(rec) else i,), v)
                out.append((s, base))
            return out
        if k == "sec":
            return [(s, self.addr(l)) for s, l in self.lval(e, st)]
        if k == "stmtexpr":
            outs = self.stmt(e[1], [st])
            return [(s, mk("unk", "stmtexpr")) for kk, s, v in outs if kk == "fall"] or [(st, mk("unk", "stmtexpr"))]
        return [(st, mk("unk", str(e[1])))]

    def join_cs(self, a, b, dflt):
        if a == b:
            return a
        m = self.client.merge_cs(a, b)
        return m if m is not None else a

    def ev_un(self, e, st):
        op = e[1]
        if op == "&":
            return [(s, self.addr(l)) for s, l in self.lval(e[2], st)]
        if op in ("++", "--", "p++", "p--"):
            out = []
            for s, l in self.lval(e[2], st):
                s = self.client.load(self, s, l, e)
                old = self.read(s, l)
                d = ONE if "+" in op else const(-1)
                ptr = self.tyname(e[3]).endswith("*")
                new = padd(old, d) if ptr else add(old, d)
                s = self.write(s, l, new, e)
                out.append((s, old if op[0] == "p" else new))
            return out
        if op == "!":
            return [(s, not_(c)) for s, c in self.ev_cond(e[2], st)]
        out = []
        for s, v in self.ev(e[2], st):
            if op == "-":
                out.append((s, sub(ZERO, v) if self.isint(e[3]) or is_const(v) else mk("op", "neg", v)))
            elif op == "+":
                out.append((s, v))
            elif op in ("__real", "__imag", "__real__", "__imag__", "__extension__"):
                out.append((s, v if "ext" in op else mk("op", op, v)))
            else:
                out.append((s, mk("op", op, v)))
        return out

    def ev_cond(self, e, st):
        """evaluate as a condition"""
        return [(s, truth(v)) for s, v in self.ev(e, st)]

    def ev_bin(self, e, st):
        op = e[1]
        if op in ("&&", "||"):
            out = []
            for s, a in self.ev_cond(e[2], st):
                ss = self.simp(s, a)
                if op == "&&" and ss is FALSE or op == "||" and ss is TRUE:
                    out.append((s, ss))
                    continue
                go = self.assume(s, a if op == "&&" else not_(a))
                if go is None:
                    out.append((s, FALSE if op == "&&" else TRUE))
                    continue
                if has_effects(e[3]):
                    short = self.assume(s, not_(a) if op == "&&" else a)
                    res = self.ev_cond(e[3], go)
                    if len(res) == 1 and res[0][0].cs == s.cs and res[0][0].env == go.env:
                        # value only: keep one state
                        r = res[0]
                        s2 = State(r[0].env, r[0].heap, s.pc, r[0].cs)
                        out.append((s2, and_(a, r[1]) if op == "&&" else or_(a, r[1])))
                        continue
                    if short is not None:
                        out.append((short, FALSE if op == "&&" else TRUE))
                    out += res
                else:
                    for s2, b in self.ev_cond(e[3], go):
                        s2 = State(s2.env, s2.heap, s.pc, self.join_cs(s2.cs, s.cs, s.cs))
                        out.append((s2, and_(a, b) if op == "&&" else or_(a, b)))
            return out
        out = []
        for s, a in self.ev(e[2], st):
            for s2, b in self.ev(e[3], s):
                out.append((s2, self.arith(op, a, b, e)))
        return out

    def arith(self, op, a, b, e):
        if op == ",":
            return b
        isint = self.isint(e[4])
        ty = self.tyname(e[4])
        if op in ("<", ">", "<=", ">=", "==", "!="):
            fl = any(x.op in ("flt", "op") and x.op != "int" for x in (a, b))
            if op == "<":
                return lt(a, b)
            if op == ">":
                return lt(b, a)
            if op == "<=":
                return le(a, b)
            if op == ">=":
                return le(b, a)
            return eq(a, b) if op == "==" else not_(eq(a, b))
        if ty.endswith("*"):
            if op == "+":
                return padd(a, b) if self.ptr(a, e[2]) else padd(b, a)
            if op == "-":
                return padd(a, sub(ZERO, b))
        if isint:
            if op == "+":
                return add(a, b)
            if op == "-":
                return sub(a, b)
            if op == "*":
                return mul(a, b)
            if op == "/":
                return div(a, b)
            if op == "%":
                return mod(a, b)
            if op == "<<" and is_const(b):
                return mul(a, const(1 << b.args[0]))
        if is_const(a) and is_const(b) and op in "+-*":
            return {"+": add, "-": sub, "*": mul}[op](a, b)
        if op in ("+", "*"):
            a, b = sorted((a, b), key=T._k)
        return mk("op", op, a, b)

    def ptr(self, a, e):
        # is the left operand the pointer?
        while isinstance(e, list) and e[0] in ("icast",):
            e = e[2]
        if e[0] in ("var",):
            t = self.tyname(e[4])
            return t.endswith("*") or t.endswith("]")
        if e[0] == "cast":
            return self.tyname(e[1]).endswith("*")
        if e[0] == "mem":
            t = self.tyname(e[4])
            return t.endswith("*") or t.endswith("]")
        if e[0] == "idx":
            return self.tyname(e[3]).endswith("*")
        if e[0] == "call":
            return self.tyname(e[3]).endswith("*")
        if e[0] in ("bin", "asg"):
            return self.tyname(e[4]).endswith("*")
        if e[0] == "un":
            return self.tyname(e[3]).endswith("*")
        return a.op in ("addr", "padd", "load", "call")

    def ev_asg(self, e, st):
        op = e[1]
        out = []
        for s, v in self.ev(e[3], st):
            for s2, l in self.lval(e[2], s):
                if op != "=":
                    s2 = self.client.load(self, s2, l, e)
                    old = self.read(s2, l)
                    val = self.arith(op[:-1], old, v, e)
                else:
                    val = v
                out.append((self.write(s2, l, val, e), val))
        return out

    # ---- calls ------------------------------------------------------------
    def ev_call(self, e, st):
        name = e[1]
        sts = [(st, [])]
        if not isinstance(name, str):
            nxt = []
            for s, _ in sts:
                for s2, v in self.ev(name, s):
                    nxt.append((s2, []))
                    fv = v
            sts = nxt
            name = fv.args[0] if fv.op == "fn" else "<indirect>"
        for a in e[2]:
            nxt = []
            for s, vs in sts:
                for s2, v in self.ev(a, s):
                    nxt.append((s2, vs + [v]))
            sts = nxt
        out = []
        for s, vs in sts:
            out += self.call(name, vs, e, s)
        return out

    def noreturn(self, name):
        """the function ends the process, on every path"""
        if name in ("exit", "abort", "_exit"):
            return True
        f = self.find(name) if isinstance(name, str) else None
        if f is None:
            return False
        if "noreturn" not in f:
            b = f["body"]
            last = b[1][-1] if b and b[0] == "block" and b[1] else None
            f["noreturn"] = bool(last) and "'return'" not in repr(b) and "'goto'" not in repr(b) and \
                any(isinstance(x, list) and x[:2] in (["call", "exit"], ["call", "abort"]) for x in (last, *last))
        return f["noreturn"]

    def site(self, e):
        return "%s#%d" % (self.frame, e[5] if len(e) > 5 else e[4])

    def call(self, name, args, e, st):
        if self.noreturn(name):
            return []
        r = self.client.call(self, st, name, args, e)
        if r is not None:
            return r
        if name in PURE or name.startswith("__builtin_"):
            return [(st, mk("call", name, *args))]
        f = self.find(name)
        if f is not None and self.client.inline(name) and len(self.stack) <= self.client.max_depth \
                and all(x[0]["name"] != name for x in self.stack):
            return self.inline(f, args, e, st)
        return [self.opaque(name, args, e, st)]

    def opaque(self, name, args, e, st):
        site = self.site(e)
        st = st.copy()
        for i, a in enumerate(args):
            if a.op == "addr" and not self.const_param(name, i):
                st.env[a.args[0]] = self.havoc(st, a, mk("out", name, site, i, a.args[0][-1]))
        if name not in NOEFFECT:
            for k in list(st.heap):
                st.heap[k] = mk("clob", k[0], k[1], mk("ret", name, site))
        return (st, mk("ret", name, site))

    def havoc(self, st, a, new):
        """value of a's variable after an unknown write through the address a"""
        if a.args[1] == ():
            return new
        old = st.env.get(a.args[0])
        if old is None:
            old = mk("undef", a.args[0])
        if any(isinstance(x, int) for x in a.args[1]):
            return new
        return upd(old, a.args[1], new)

    def reading(self, n):
        """a loop with the addresses handed to callees that only read there left out"""
        key = id(n)
        if key not in self.read_memo:
            def copy(x):
                if not isinstance(x, list):
                    return x
                if x[:1] == ["call"] and isinstance(x[1], str) and len(x) > 2 and isinstance(x[2], list):
                    args = []
                    for i, a in enumerate(x[2]):
                        b = a
                        while isinstance(b, list) and b[:1] in (["cast"], ["icast"]):
                            b = b[2]
                        if isinstance(b, list) and b[:2] == ["un", "&"] and b[2][:1] == ["var"] and x[1] not in self.F.funcs \
                                and self.const_param(x[1], i):
                            a = ["int", 0]
                        args.append(copy(a))
                    return ["call", x[1], args] + [copy(y) for y in x[3:]]
                return [copy(y) for y in x]
            self.read_memo[key] = (n, copy(n))
        return self.read_memo[key][1]

    def const_param(self, name, i):
        p = self.F.protos.get(name)
        if p is None or i >= len(p["params"]):
            return False
        t = p["params"][i][1]
        return t.startswith("const ") and t.endswith("*")

    def inline(self, f, args, e, st):
        number_calls(f)
        frame = "%s/%s@%d" % (self.frame, f["name"], e[5] if len(e) > 5 else e[4])
        st = st.copy()
        for (pid, pname, pty), a in zip(f["params"], args):
            st.env[("v", frame, pid, pname)] = a
        unit = self.unit
        self.stack.append((f, frame))
        self.unit = f["unit"] if f["unit"] != "verif_headers.c" else unit
        try:
            outs = self.stmt(f["body"], [st])
        finally:
            self.stack.pop()
            self.unit = unit
        rk = ("v", frame, 0, "<ret>")
        states = []
        for kind, s, v in outs:
            if kind == "return":
                s = s.copy()
                s.env[rk] = v[0] if v[0] is not None else ZERO
                states.append(s)
            elif kind == "fall":
                s = s.copy()
                s.env[rk] = mk("undef", rk)
                states.append(s)
            elif kind[:4] == "goto":
                self.unsupported.append((f["name"], "goto"))
        res = []
        for s in self.merge(states):
            v = s.env.get(rk, mk("undef", rk))
            s.env = {k: x for k, x in s.env.items() if not (k[0] == "v" and k[1] == frame)}
            res.append((s, v))
        return res

    # ---- statements -------------------------------------------------------
    def stmt(self, n, states):
        """list of outcomes (kind, state, value)"""
        if n is None:
            return [("fall", s, None) for s in states]
        out = []
        k = n[0]
        if k == "block":
            return self.block(n[1], states)
        if k == "expr":
            for s in states:
                out += [("fall", s2, None) for s2, v in self.ev(n[1], s)]
            return self.collapse(out)
        if k == "decl":
            for s in states:
                cur = [s]
                for vid, name, ty, init, static, line in n[1]:
                    nxt = []
                    key = ("v", self.frame, vid, name)
                    for c in cur:
                        if init is None:
                            c = c.copy()
                            c.env[key] = mk("undef", key)
                            nxt.append(c)
                        else:
                            for s2, v in self.ev(init, c):
                                nxt.append(self.write(s2, ("loc", key, ()), v, n))
                    cur = nxt
                out += [("fall", c, None) for c in cur]
            return self.collapse(out)
        if k == "if":
            for s in states:
                for s2, c in self.ev_cond(n[1], s):
                    a = self.assume(s2, c)
                    b = self.assume(s2, not_(c))
                    if a is not None:
                        a = self.client.branch(self, a, c)
                        out += self.stmt(n[2], [a])
                    if b is not None:
                        b = self.client.branch(self, b, not_(c))
                        out += self.stmt(n[3], [b])
            return self.collapse(out)
        if k in ("for", "while", "do"):
            return self.loop(n, states)
        if k == "switch":
            return self.switch(n, states)
        if k == "break":
            return [("break", s, None) for s in states]
        if k == "continue":
            return [("continue", s, None) for s in states]
        if k == "return":
            for s in states:
                if n[1] is None:
                    out.append(("return", s, (None, n[2])))
                else:
                    out += [("return", s2, (v, n[2])) for s2, v in self.ev(n[1], s)]
            return out
        if k == "goto":
            return [("goto " + n[1], s, None) for s in states]
        if k == "label":
            return self.stmt(n[2], states)
        if k == "null":
            return [("fall", s, None) for s in states]
        if k in ("case", "default"):
            return self.stmt(n[-2], states)
        if k == "omp":
            return self.omp(n, states)
        self.unsupported.append((self.cur()["name"], k + " " + str(n[1:2])))
        return [("fall", s, None) for s in states]

    def collapse(self, outs):
        """merge the fall-through states"""
        falls = [s for k, s, v in outs if k == "fall"]
        rest = [o for o in outs if o[0] != "fall"]
        if len(falls) > 1:
            falls = self.merge(falls)
        return rest + [("fall", s, None) for s in falls]

    def labels(self, n):
        out = []
        while isinstance(n, list) and n and n[0] == "label":
            out.append(n[1])
            n = n[2]
        return out

    def block(self, stmts, states):
        outs = []
        pending = []
        cur = states
        for n in stmts:
            ls = self.labels(n)
            if ls:
                take = [o for o in pending if o[0][5:] in ls]
                pending = [o for o in pending if o[0][5:] not in ls]
                cur = self.merge(cur + [o[1] for o in take]) if take else cur
            if not cur:
                continue
            res = self.stmt(n, cur)
            cur = []
            for o in res:
                if o[0] == "fall":
                    cur.append(o[1])
                elif o[0].startswith("goto "):
                    pending.append(o)
                else:
                    outs.append(o)
        return outs + pending + [("fall", s, None) for s in cur]

    def switch(self, n, states):
        out = []
        body = n[2]
        stmts = body[1] if body and body[0] == "block" else [body]
        # collect case values
        vals = []

        def peel(x):
            labs = []
            while isinstance(x, list) and x and x[0] in ("case", "default"):
                labs.append(x[1] if x[0] == "case" else None)
                x = x[-2]
            return labs, x
        for x in stmts:
            vals += [v for v in peel(x)[0] if v is not None]
        for s0 in states:
            for s, c in self.ev(n[1], s0):
                consts = [self.ev(v, s)[0][1] for v in vals]
                active = []
                hasdef = False
                for x in stmts:
                    labs, sub = peel(x)
                    for l in labs:
                        if l is None:
                            hasdef = True
                            e = self.assume(s, and_(*[not_(eq(c, v)) for v in consts]))
                        else:
                            e = self.assume(s, eq(c, self.ev(l, s)[0][1]))
                        if e is not None:
                            e = self.client.branch(self, e, TRUE)
                            active = self.merge(active + [e.copy()])
                    if not active:
                        # declarations in the switch body before any case
                        continue
                    res = self.stmt(sub, active)
                    active = []
                    for o in res:
                        if o[0] == "fall":
                            active.append(o[1])
                        elif o[0] == "break":
                            out.append(("fall", o[1], None))
                        else:
                            out.append(o)
                out += [("fall", a, None) for a in active]
                if not hasdef:
                    e = self.assume(s, and_(*[not_(eq(c, v)) for v in consts]))
                    if e is not None:
                        out.append(("fall", e, None))
        return self.collapse(out)

    def pos(self, key):
        return self.order.setdefault(key, len(self.order))

    def loop(self, n, states):
        line = n[5] if n[0] == "for" else n[3]
        site = "%s@%d" % (self.frame, line)
        self.nest.append((self.pos(site), site))
        try:
            return self.loop_(n, states)
        finally:
            self.nest.pop()

    def loop_(self, n, states):
        k = n[0]
        if k == "for":
            init, cond, inc, body, line = n[1:6]
        elif k == "while":
            init, cond, inc, body, line = None, n[1], None, n[2], n[3]
        else:
            init, cond, inc, body, line = None, n[1], None, n[2], n[3]
        outs = []
        entry = []
        for o in self.stmt(init, states) if init is not None else [("fall", s, None) for s in states]:
            (entry if o[0] == "fall" else outs).append(o[1] if o[0] == "fall" else o)
        m = self.reading(n)
        asg = assigned(["x"] + (m[2:5] if n[0] == "for" else m[1:3]), self.cur()["types"])
        effects = has_effects(["x", body or [], inc or [], cond or []])
        site = "%s@%d" % (self.frame, line)
        exits = []
        seen = {}
        work = list(entry)
        # a client may have the first iteration analysed on its own
        peeled = {id(s): True for s in entry} if getattr(self.client, "peel", False) else {}
        rounds = 0
        while work:
            rounds += 1
            if rounds > 40:
                raise AnalysisBroken("no fixpoint in loop at " + self.where(line))
            s0 = work.pop(0)
            if s0.cs in seen:
                continue
            peel = peeled.pop(id(s0), False)
            if not peel:
                seen[s0.cs] = True
            h = s0.copy()
            for key in ([] if peel else list(h.env)):
                if key[0] == "v" and key[1] == self.frame and key[2] in asg:
                    hows = asg[key[2]]
                    if "decl" in hows:
                        continue
                    if set(hows) == {"elt"}:
                        h.env[key] = mk("phi", site, key[3])
                        continue
                    init_v = s0.env[key]
                    iv = mk("iv", site, key[3])
                    if iv.uid not in self.loops:
                        self.loops[iv.uid] = dict(iv=iv, init=init_v, how=set(hows), line=line, site=site, step=unit(m, key[2]),
                                                   stride=self.stride(step(m, key[2]), asg, s0))
                    h.env[key] = iv
                    extra = None
                    if set(hows) == {"inc"}:
                        extra = le(init_v, iv)
                    elif set(hows) == {"dec"}:
                        extra = le(iv, init_v)
                    if extra is not None and extra not in (TRUE, FALSE):
                        h.pc = h.pc | (set(extra.args) if extra.op == "and" else {extra})
            # addresses of locals of outer frames may be written by callees
            if effects and not peel:
                ptrs = self.ptrstores(["x", body or [], inc or [], cond or []], self.cur())
                for kk in list(h.heap):
                    if not ptrs and h.heap[kk].op == "heapmem":
                        continue
                    h.heap[kk] = mk("phi", site, "heap", kk[0], kk[1])
            # facts about havocked variables in the path condition mention the
            # old terms, which stay valid
            if k == "do":
                bodyin = [(h, None)]
            else:
                bodyin = []
                for s2, c in (self.ev_cond(cond, h) if cond is not None else [(h, TRUE)]):
                    a, b = self.assume(s2, c), self.assume(s2, not_(c))
                    if peel:
                        a = a if a is not None and self.feasible(a) else None
                        b = b if b is not None and self.feasible(b) else None
                    if b is not None:
                        exits.append(self.client.branch(self, b, not_(c)))
                    if a is not None:
                        bodyin.append((self.client.branch(self, a, c), c))
            nexts = []
            for s2, c in bodyin:
                for o in self.stmt(body, [s2]):
                    if o[0] in ("fall", "continue"):
                        nexts.append(o[1])
                    elif o[0] == "break":
                        exits.append(o[1])
                    else:
                        outs.append(o)
            if nexts:
                nexts = self.merge(nexts)
            if k == "do":
                tmp = []
                for s2 in nexts:
                    for s3, c in self.ev_cond(cond, s2):
                        a, b = self.assume(s3, c), self.assume(s3, not_(c))
                        if b is not None:
                            exits.append(b)
                        if a is not None:
                            tmp.append(a)
                nexts = tmp
            for s2 in nexts:
                for s3 in ([s for s, v in self.ev(inc, s2)] if inc is not None else [s2]):
                    # back to the head: the facts of this iteration are dropped
                    b = State(dict(s0.env), dict(s0.heap), s0.pc, s3.cs)
                    if b.cs not in seen:
                        work.append(b)
        return self.collapse(outs + [("fall", s, None) for s in self.merge(exits)])

    # ---- OpenMP -----------------------------------------------------------
    def clauses(self, n, st):
        res = []
        for c in n[2]:
            kind = c[0]
            if kind == "depend":
                items = []
                for x in c[2]:
                    s2, l = self.lval(x, st)[0]
                    items.append((self.addr(l), x))
                res.append((kind, c[1], items, c[3]))
            elif kind in ("firstprivate", "private", "shared", "lastprivate", "reduction"):
                res.append((kind, c[1], [self.varkey(v) for v in c[2] if isinstance(v, list) and v[0] == "var"], None))
            else:
                vals = [self.ev(x, st)[0][1] for x in c[2] if x]
                res.append((kind, c[1], vals, None))
        return res

    def omp(self, n, states):
        kind, body, line = n[1], n[3], n[4]
        out = []
        for s in states:
            cl = self.clauses(n, s)
            if kind in ("task", "taskloop"):
                t = self.client.task_begin(self, s, kind, cl, n)
                if t is None:
                    out.append(("fall", s, None))
                    continue
                outs = self.stmt(body, [t.copy()])
                ends = [o[1] for o in outs]
                after = self.client.task_end(self, s, ends, kind, cl, n)
                for a in (after if isinstance(after, list) else [after]):
                    out.append(("fall", a, None))
            elif body is None:
                out.append(("fall", self.client.omp(self, s, kind, cl, n), None))
            else:
                t = self.client.omp_begin(self, s, kind, cl, n)
                for o in self.stmt(body, [t]):
                    if o[0] == "fall":
                        out.append(("fall", self.client.omp_end(self, o[1], kind, cl, n), None))
                    else:
                        out.append(o)
        return self.collapse(out)


def _var_const(d):
    """x - k == 0  ->  (x, k) for a single non-constant monomial of coeff +-1"""
    p = T._poly(d)
    ms = [m for m in p if m]
    if len(ms) != 1 or abs(p[ms[0]]) != 1:
        return None, None
    k = -p.get((), 0) * p[ms[0]]
    return T._unpoly({ms[0]: 1}), k


def bounds(pc, t):
    """integer bounds of term t directly stated by the path condition"""
    lo = hi = None
    if is_const(t):
        return t.args[0], t.args[0]
    for f in pc:
        g, neg = (f.args[0], True) if f.op == "not" else (f, False)
        if g.op == "lt":
            p = T._poly(g.args[0])
            c = p.get((), 0)
            body = T._unpoly({m: v for m, v in p.items() if m})
            if body is t:
                if not neg:      # t + c < 0
                    hi = -c - 1 if hi is None else min(hi, -c - 1)
                else:            # t + c >= 0
                    lo = -c if lo is None else max(lo, -c)
        elif g.op == "eq" and not neg:
            v, k = _var_const(g.args[0])
            if v is t:
                lo = k if lo is None else max(lo, k)
                hi = k if hi is None else min(hi, k)
    return lo, hi
