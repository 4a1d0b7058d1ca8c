"""Interprocedural summaries for pointer parameters: may the callee write through it, keep it, free it, return it."""
from .core import is_local

# external functions: parameter -> effect; W = writes through, R = returns an alias of it, K = keeps it, F = frees it
EXT = {
    "memcpy": {0: "WR"}, "memmove": {0: "WR"}, "memset": {0: "WR"}, "strcpy": {0: "WR"}, "strncpy": {0: "WR"},
    "strcat": {0: "WR"}, "strncat": {0: "WR"}, "sprintf": {0: "W"}, "snprintf": {0: "W"}, "vsprintf": {0: "W"},
    "vsnprintf": {0: "W"}, "strchr": {0: "R"}, "strrchr": {0: "R"}, "strstr": {0: "R"}, "strpbrk": {0: "R"},
    "memchr": {0: "R"}, "strtok": {0: "WRK"}, "strtod": {1: "W"}, "strtol": {1: "W"}, "strtoul": {1: "W"},
    "strtoull": {1: "W"}, "free": {0: "F"}, "realloc": {0: "F"}, "fclose": {0: "F"}, "qsort": {0: "W"},
    "fread": {0: "W"}, "fgets": {0: "WR"}, "stat": {1: "W"}, "time": {0: "W"}, "gettimeofday": {0: "W", 1: "W"},
    "strftime": {0: "W"}, "frexp": {1: "W"}, "modf": {1: "W"}, "bsearch": {1: "R"}, "getcwd": {0: "WR"},
    "localtime_r": {1: "WR"}, "clock_gettime": {1: "W"},
}
VARARG_WRITES = {"sscanf": 2, "fscanf": 2, "scanf": 1}


def ext_name(n):
    if n.startswith("llvm.mem"):
        return n.split(".")[1]
    if n.startswith("__isoc99_"):
        return n[9:]
    return n


def ext_effect(n, i):
    n = ext_name(n)
    e = EXT.get(n, {}).get(i, "")
    if n in VARARG_WRITES and i >= VARARG_WRITES[n]:
        e += "W"
    return e


class Summaries:
    """eff[(function, param)] -> dict effect letter -> (instr, via) witness"""

    def __init__(self, P, deep=False):
        """deep: also follow pointers loaded from the object (writes to anything reachable from it)"""
        self.P = P
        self.deep = deep
        self.eff = {}
        self.roots = {}
        for F in P.F.values():
            self.roots[F.name] = None
        ch = True
        n = 0
        while ch:
            ch = False
            n += 1
            for F in P.F.values():
                if self._one(F):
                    ch = True

    def get(self, name, i):
        return self.eff.get((name, i), {})

    def call_effects(self, ins, i):
        """effects of passing something as argument i of call ins: dict letter -> callee"""
        out = {}
        for t in self.P.targets(ins):
            if t in self.P.F:
                for k in self.get(t, i):
                    out.setdefault(k, t)
            else:
                for k in ext_effect(t, i):
                    out.setdefault(k, t)
        return out

    def value_roots(self, F):
        """ssa value -> set of param indexes it may be derived from"""
        R = {p[1]: {i} for i, p in enumerate(F.params) if p[0] == "ptr"}
        cells = {}
        ch = True
        while ch:
            ch = False
            for ins in F.instrs():
                s = None
                if ins.op in ("getelementptr", "bitcast"):
                    s = R.get(ins.ops[0])
                elif ins.op == "phi":
                    s = set().union(*[R.get(o, set()) for o in ins.ops if is_local(o)] or [set()])
                elif ins.op == "select":
                    s = R.get(ins.ops[1], set()) | R.get(ins.ops[2], set())
                elif ins.op in ("inttoptr", "ptrtoint"):
                    s = R.get(ins.ops[0])
                elif ins.op == "store":
                    a = F.defs.get(ins.ops[1]) if is_local(ins.ops[1]) else None
                    if a is not None and a.op == "alloca" and R.get(ins.ops[0]):
                        c = cells.setdefault(ins.ops[1], set())
                        if not R[ins.ops[0]] <= c:
                            c |= R[ins.ops[0]]
                            ch = True
                    continue
                elif ins.op == "load" and ins.ops[0] in cells:
                    s = set(cells[ins.ops[0]])
                elif ins.op == "load" and self.deep and ins.ty == "ptr":
                    s = R.get(ins.ops[0])
                elif ins.op == "call" and ins.res:
                    s = set()
                    for i, a in enumerate(self.P.args(ins)):
                        if is_local(a) and R.get(a) and "R" in self.call_effects(ins, i):
                            s |= R[a]
                if s and ins.res and not s <= R.get(ins.res, set()):
                    R[ins.res] = R.get(ins.res, set()) | s
                    ch = True
        return R

    def _one(self, F):
        R = self.value_roots(F)
        changed = False

        def add(i, k, ins, via):
            nonlocal changed
            d = self.eff.setdefault((F.name, i), {})
            if k not in d:
                d[k] = (ins, via)
                changed = True
        for ins in F.instrs():
            if ins.op == "store":
                for i in R.get(ins.ops[1], ()) if is_local(ins.ops[1]) else ():
                    add(i, "W", ins, None)
                if is_local(ins.ops[0]) and ins.optys and R.get(ins.ops[0]):
                    a = F.defs.get(ins.ops[1]) if is_local(ins.ops[1]) else None
                    if a is None or a.op != "alloca":
                        for i in R[ins.ops[0]]:
                            add(i, "K", ins, None)
            elif ins.op == "ret" and ins.ops and is_local(ins.ops[0]):
                for i in R.get(ins.ops[0], ()):
                    add(i, "R", ins, None)
            elif ins.op == "call":
                for j, a in enumerate(self.P.args(ins)):
                    if not is_local(a) or not R.get(a):
                        continue
                    for k, via in self.call_effects(ins, j).items():
                        if k == "R":
                            continue
                        for i in R[a]:
                            add(i, k, ins, via)
        return changed

    def chain(self, name, i, k, n=8):
        out = []
        while n:
            n -= 1
            e = self.get(name, i).get(k)
            if e is None:
                break
            ins, via = e
            out.append("%s (%s)" % (self.P.where(ins), name))
            if via is None or via not in self.P.F:
                break
            R = self.value_roots(self.P.F[name])
            nxt = None
            for j, a in enumerate(self.P.args(ins)):
                if is_local(a) and i in R.get(a, ()) and k in self.get(via, j):
                    nxt = j
            if nxt is None:
                break
            name, i = via, nxt
        return out
