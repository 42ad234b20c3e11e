"""Which pointer parameters a function may write through, flow-insensitively
over the syntax tree; external functions by the constness of their prototype."""


def refs(n):
    """variables an expression's pointer value may derive from"""
    if not isinstance(n, list) or not n:
        return set()
    k = n[0]
    if k == "var":
        return {n[1]}
    if k in ("cast", "paren"):
        out = set()
        for x in n[1:]:
            out |= refs(x)
        return out
    if k == "idx":
        return refs(n[1])
    if k in ("mem",):
        return refs(n[1])
    if k == "call":
        return set()
    out = set()
    for x in n[1:]:
        if isinstance(x, list):
            out |= refs(x)
    return out


class Effects:
    def __init__(self, F):
        self.F = F
        self.memo = getattr(F, "_effects", None)
        if self.memo is None:
            self.memo = F._effects = {}

    def proto(self, name):
        f = self.F.funcs.get(name) or self.F.protos.get(name)
        if f is None:
            for (_, n), g in self.F.local.items():
                if n == name:
                    return g
        return f

    def ptypes(self, name):
        f = self.proto(name)
        if f is None:
            return None
        out = []
        for p in f["params"]:
            t = p[-1]
            out.append(f["types"][t] if isinstance(t, int) else t)
        return out

    def mode(self, name, i):
        """'' no pointer access, 'r', 'rw' for argument i of name"""
        ts = self.ptypes(name)
        if ts is None:
            if name == "memset":
                return "w" if i == 0 else ""
            if name == "memcpy":
                return ("w", "r", "")[i] if i < 3 else ""
            return None
        if i >= len(ts) or "*" not in ts[i]:
            return ""
        if name == "free":
            return ""
        if any(s in ts[i] for s in ("plasma_sequence_t", "plasma_request_t", "plasma_workspace_t", "plasma_barrier_t",
                                    "plasma_context_t")):
            return ""
        if ts[i].lstrip().startswith("const") and ts[i].count("*") == 1:
            return "r"
        return "rw" if self.writes(name, i) else "r"

    def writes(self, name, i, busy=()):
        key = (name, i)
        if key in self.memo:
            return self.memo[key]
        f = self.F.funcs.get(name)
        if f is None:
            for (_, n), g in self.F.local.items():
                if n == name:
                    f = g
        if f is None:
            ts = self.ptypes(name)
            if ts is None or i >= len(ts):
                return True
            return "*" in ts[i] and not ts[i].lstrip().startswith("const")
        if key in busy:
            return False
        if i >= len(f["params"]):
            return True
        alias = {f["params"][i][0]}
        change = True
        while change:
            change = False
            for n in walk(f["body"]):
                if n[0] == "decl":
                    for d in n[1]:
                        if d[3] is not None and self.isptr(f, d[2]) and d[0] not in alias and refs(d[3]) & alias:
                            alias.add(d[0])
                            change = True
                if n[0] == "asg" and n[2][0] == "var" and refs(n[3]) & alias and self.isptr(f, n[4]):
                    if n[2][1] not in alias:
                        alias.add(n[2][1])
                        change = True
        r = False
        for n in walk(f["body"]):
            if n[0] == "asg" and n[2][0] != "var" and refs(n[2]) & alias:
                r = True
            elif n[0] == "un" and n[1] in ("++", "--", "p++", "p--", "post++", "post--") and n[2][0] != "var" \
                    and refs(n[2]) & alias:
                r = True
            elif n[0] == "call":
                for j, a in enumerate(n[2]):
                    if refs(a) & alias and self.argptr(n[1], j) and self.writes(n[1], j, busy + (key,)):
                        r = True
            if r:
                break
        if not busy or r:
            self.memo[key] = r
        return r

    def argptr(self, name, j):
        if not isinstance(name, str):
            return True
        ts = self.ptypes(name)
        return ts is None or j < len(ts) and "*" in ts[j] and not ts[j].lstrip().startswith("const")

    def isptr(self, f, t):
        ty = f["types"][t] if isinstance(t, int) and t < len(f["types"]) else str(t)
        return "*" in ty


def walk(n):
    if isinstance(n, list):
        if n and isinstance(n[0], str):
            yield n
        for x in n:
            if isinstance(x, list):
                yield from walk(x)
