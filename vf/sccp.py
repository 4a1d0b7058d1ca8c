"""Sparse conditional constant propagation, interprocedural through calls with constant arguments.

Lattice per value: a constant (int | ("str", text) | ("fn", name) | ("null",)) or BOT (unknown).  Assumptions about
memory can be supplied: `fields[(S, f)]` is the value of every load of that field, `elems[(S, f)]` of every load of an
element of the array that field points to.  Branches on constants follow one side only; phi nodes merge the executable
edges; loop-carried values widen to unknown, nothing is unrolled and no path is enumerated."""
import math, re, struct
from .core import is_local
from .esp import noreturn_set
from .flow import ext_name

class K(int):
    """an integer whose value derives from the tagged input (comparisons decide on it, signatures leave it out)"""


class D(K):
    """an integer computed from the tagged input"""


class KF(float):
    """the same for floating point values"""


def tagged(x):
    return isinstance(x, (K, KF)) or x == BOTK


def tag(r, *src):
    if any(tagged(x) for x in src):
        return D(r) if isinstance(r, int) else KF(r) if isinstance(r, float) else BOTK if r == BOT else r
    return r


def unknown(*src):
    """the unknown result of an operation: it remembers whether the tagged input takes part"""
    return BOTK if any(tagged(x) for x in src) else BOT


def meet(a, b):
    if a is TOP or b is TOP:
        return b if a is TOP else a
    if a == b and type(a) is type(b):
        return a
    if a == b and isinstance(a, (int, float)):
        return tag(a, a, b) if type(a) is not K else a
    return unknown(a, b)


BOT = ("bot",)
BOTK = ("botk",)
TOP = None
CMP = {"eq": lambda a, b: a == b, "ne": lambda a, b: a != b, "lt": lambda a, b: a < b, "le": lambda a, b: a <= b,
       "gt": lambda a, b: a > b, "ge": lambda a, b: a >= b}
MASK = {"i1": 1, "i8": 0xff, "i16": 0xffff, "i32": 0xffffffff, "i64": 0xffffffffffffffff}


def fconst(v):
    """a floating point literal of the IR as a float"""
    try:
        if v.startswith("0x"):
            return struct.unpack(">d", bytes.fromhex(v[2:].rjust(16, "0")))[0]
        return float(v)
    except ValueError:
        return None


def signed(v, ty):
    m = MASK.get(ty)
    if m is None:
        return v
    v &= m
    return v - (m + 1) if v > m >> 1 else v


class Sccp:
    def __init__(self, P, fields=None, elems=None, depth=8, budget=400000):
        self.P = P
        self.fields, self.elems = fields or {}, elems or {}
        self.memo = {}
        self.depth = depth
        self.budget = budget
        self.tabs = {}
        self.split_on_tag = []    # branches whose undecided condition depends on the tagged input
        self.nr = noreturn_set(P)
        self.oob = []             # (load, index, length): certain reads beyond a table
        self.calls = []           # (callee, const args, instr) of every executable direct call

    def bound(self, F, ins):
        """number of elements of the table a load reads an element of, None if it does not"""
        d = F.defs.get(ins.ops[0]) if is_local(ins.ops[0]) else None
        if d is not None and d.op == "getelementptr" and len(d.ops) == 3 and d.x["sty"].startswith("["):
            if d.ops[1] == 0:
                return int(d.x["sty"][1:].split()[0])
        return None

    def const_global_elem(self, F, addr):
        """constant value of a load from an element of a constant table, given constant indices"""
        return None

    def run(self, name, args):
        """-> dict(ret=lattice, returns=bool, errors=[noreturn call instrs reached], calls=[(callee, args, ins)])"""
        key = (name, args)
        if key in self.memo:
            return self.memo[key]
        self.memo[key] = dict(ret=BOT, returns=True, errors=[], calls=[])      # recursion: unknown
        r = self._run(self.P.F[name], args, 0)
        self.memo[key] = r
        return r

    def _run(self, F, args, depth):
        P = self.P
        val = {}
        for i, p in enumerate(F.params):
            val[p[1]] = args[i] if i < len(args) and args[i] is not None else BOT
        exe, edges = set(), set()
        ret, returns, errors, calls = TOP, False, [], {}
        users = F.users()
        work = [("b", F.order[0])]
        users_of = {}

        def get(v):
            if isinstance(v, bool):
                return int(v)
            if isinstance(v, (int, float)):
                return v
            if v in ("null", None):
                return ("null",)
            if isinstance(v, str):
                if v.startswith("@"):
                    s = P.string(v)
                    if s is not None:
                        return ("str", s)
                    n = v[1:].strip('"')
                    if n in P.F:
                        return ("fn", n)
                    return BOT
                if v == "true":
                    return 1
                if v == "false":
                    return 0
                if v.startswith("%"):
                    return val.get(v, TOP)
                f = fconst(v)
                if f is not None:
                    return f
            return BOT

        def put(r, x):
            o = val.get(r, TOP)
            if x is TOP:
                return
            x = meet(o, x)
            if o is not TOP and o == x and type(o) is type(x):
                return
            val[r] = x
            for u in users.get(r, ()):
                work.append(("i", u))

        def flow(b, s):
            if (b, s) in edges:
                return
            edges.add((b, s))
            if s in exe:
                for i in F.blocks[s].instrs:
                    if i.op == "phi":
                        work.append(("i", i))
            else:
                work.append(("b", s))

        dead_after = {}          # block -> instr index after which execution stops
        done_calls = {}

        def visit(ins):
            nonlocal ret, returns
            b = ins.block.name
            self.budget -= 1
            if self.budget < 0:
                raise TimeoutError
            if b in dead_after and ins.block.instrs.index(ins) > dead_after[b]:
                return
            op = ins.op
            if op == "phi":
                x = TOP
                for (o, frm) in zip(ins.ops, ins.x["bbs"]):
                    if (frm, b) in edges:
                        y = get(o)
                        if y is TOP:
                            continue
                        x = meet(x, y)
                put(ins.res, x)
            elif op in ("br", "switch"):
                if not ins.ops:
                    for s in ins.block.succs:
                        flow(b, s)
                    return
                c = get(ins.ops[0])
                if c is TOP:
                    return
                if isinstance(c, int):
                    if op == "br":
                        flow(b, ins.x["t"] if c & 1 else ins.x["f"])
                        return
                    for k, t in ins.x["cases"]:
                        if signed(k, "i64") == signed(c, ins.optys[0]) or (k & MASK.get(ins.optys[0], -1)) == \
                                (c & MASK.get(ins.optys[0], -1)):
                            flow(b, t)
                            return
                    flow(b, ins.x["default"])
                    return
                if c == BOTK:
                    self.split_on_tag.append(ins)
                for s in ins.block.succs:
                    flow(b, s)
            elif op == "ret":
                returns = True
                if ins.ops:
                    x = get(ins.ops[0])
                    ret = meet(ret, x)
            elif op == "call":
                a = tuple(get(o) for o in P.args(ins))
                if any(x is TOP for x in a):
                    return
                key = a
                if done_calls.get(id(ins)) == key:
                    return
                done_calls[id(ins)] = key
                c = P.callee(ins)
                if c is None or (c not in P.F and is_local(ins.ops[-1])):
                    w = get(ins.ops[-1])
                    if w is TOP:
                        return
                    c = w[1] if isinstance(w, tuple) and w[0] == "fn" else None
                    if w == BOTK:
                        self.split_on_tag.append(ins)
                x = self.call(F, ins, c, a, depth)
                if x == "dead":
                    i = ins.block.instrs.index(ins)
                    dead_after[b] = i
                    errors.append(ins)
                    return
                calls[id(ins)] = (c, a, ins)
                if ins.res:
                    put(ins.res, x)
            elif ins.res:
                put(ins.res, self.evali(F, ins, get))

        while work:
            k, w = work.pop()
            if k == "b":
                if w in exe:
                    continue
                exe.add(w)
                for ins in F.blocks[w].instrs:
                    visit(ins)
                    if w in dead_after:
                        break
            else:
                if w.block.name in exe:
                    visit(w)
                    # a call that became undecided may revive the block
        # blocks that stopped at a dead call while the call's arguments later became unknown are re-run as unknown
        for b in exe:
            for ins in F.blocks[b].instrs:
                if ins.op != "load":
                    continue
                n = self.bound(F, ins)
                i = get(F.defs[ins.ops[0]].ops[2]) if n is not None else None
                if isinstance(i, int) and not 0 <= i < n:
                    self.oob.append((ins, int(i), n))
        return dict(ret=BOT if ret is TOP else ret, returns=returns, errors=errors, calls=list(calls.values()), exe=exe, val=val)

    def evali(self, F, ins, get):
        P = self.P
        op = ins.op
        if op in ("add", "sub", "mul", "udiv", "sdiv", "urem", "srem", "and", "or", "xor", "shl", "lshr", "ashr"):
            a, b = get(ins.ops[0]), get(ins.ops[1])
            if a is TOP or b is TOP:
                return TOP
            if op in ("mul", "and") and (a == 0 or b == 0):
                return 0
            if not isinstance(a, int) or not isinstance(b, int):
                return unknown(a, b)
            m = MASK.get(ins.ty)
            if m is None:
                return BOT
            ta, tb = a, b
            sa, sb = signed(a, ins.ty), signed(b, ins.ty)
            a, b = a & m, b & m
            try:
                r = {"add": lambda: a + b, "sub": lambda: a - b, "mul": lambda: a * b, "udiv": lambda: a // b,
                     "sdiv": lambda: int(sa / sb), "urem": lambda: a % b, "srem": lambda: sa - int(sa / sb) * sb,
                     "and": lambda: a & b, "or": lambda: a | b, "xor": lambda: a ^ b, "shl": lambda: a << b,
                     "lshr": lambda: a >> b, "ashr": lambda: sa >> b}[op]()
            except (ZeroDivisionError, ValueError):
                return BOT
            r = signed(r, ins.ty) if op not in ("udiv", "urem", "lshr") else r & m
            return tag(r, ta, tb)
        if op in ("fadd", "fsub", "fmul", "fdiv", "fneg"):
            a = get(ins.ops[0])
            b = get(ins.ops[1]) if len(ins.ops) > 1 else 0.0
            if a is TOP or b is TOP:
                return TOP
            if not isinstance(a, float) or not isinstance(b, float):
                return unknown(a, b)
            ta, tb, a, b = a, b, float(a), float(b)
            try:
                return tag({"fadd": lambda: a + b, "fsub": lambda: a - b, "fmul": lambda: a * b, "fdiv": lambda: a / b,
                        "fneg": lambda: -a}[op](), ta, tb)
            except (ZeroDivisionError, OverflowError):
                return BOT
        if op in ("sitofp", "uitofp"):
            a = get(ins.ops[0])
            if a is TOP:
                return TOP
            if not isinstance(a, int):
                return unknown(a)
            return tag(float(signed(a, ins.optys[0]) if op == "sitofp" else a & MASK.get(ins.optys[0], -1)), a)
        if op in ("fptosi", "fptoui"):
            a = get(ins.ops[0])
            if a is TOP:
                return TOP
            if not isinstance(a, float) or abs(a) > 1e15:
                return unknown(a)
            return tag(int(a), a)
        if op == "fcmp":
            a, b = get(ins.ops[0]), get(ins.ops[1])
            if a is TOP or b is TOP:
                return TOP
            pr = ins.x["pred"]
            if isinstance(a, float) and isinstance(b, float) and a == a and b == b and pr[1:] in CMP:
                return tag(int(CMP[pr[1:]](a, b)), a, b)
            return unknown(a, b)
        if op == "icmp":
            a, b = get(ins.ops[0]), get(ins.ops[1])
            if a is TOP or b is TOP:
                return TOP
            pr = ins.x["pred"]
            if isinstance(a, int) and isinstance(b, int):
                ty = ins.optys[0]
                m = MASK.get(ty, MASK["i64"])
                ua, ub, sa, sb = a & m, b & m, signed(a, ty), signed(b, ty)
                return tag(int({"eq": ua == ub, "ne": ua != ub, "ult": ua < ub, "ule": ua <= ub, "ugt": ua > ub,
                            "uge": ua >= ub, "slt": sa < sb, "sle": sa <= sb, "sgt": sa > sb, "sge": sa >= sb}[pr]), a, b)
            if pr in ("eq", "ne"):
                na, nb = a == ("null",), b == ("null",)
                if na and nb:
                    return int(pr == "eq")
                if (na and b != BOT and b[0] in ("str", "fn")) or (nb and a != BOT and a[0] in ("str", "fn")):
                    return int(pr == "ne")
            return unknown(a, b)
        if op in ("zext", "sext", "trunc", "freeze", "bitcast"):
            a = get(ins.ops[0])
            if not isinstance(a, int):
                return a if op in ("freeze", "bitcast") else (TOP if a is TOP else unknown(a))
            if op == "zext":
                r = a & MASK.get(ins.optys[0], -1)
                return a if r == a else tag(r, a)
            if op == "trunc":
                return a if signed(a, ins.ty) == a else tag(signed(a, ins.ty), a)
            return a
        if op == "select":
            c = get(ins.ops[0])
            if c is TOP:
                return TOP
            if isinstance(c, int):
                return get(ins.ops[1] if c & 1 else ins.ops[2])
            a, b = get(ins.ops[1]), get(ins.ops[2])
            return tag(meet(a, b), c) if meet(a, b) is not TOP else TOP
        if op == "load":
            return self.load(F, ins, get)
        return unknown(*[get(o) for o in ins.ops if isinstance(o, str) and o.startswith("%")])

    def load(self, F, ins, get):
        P = self.P
        k = P.slot_of_addr(F, ins.ops[0])
        e = P.expr(F, ins.ops[0])
        if e[0] == "fld" and (e[2], e[3]) in self.fields:
            return self.fields[(e[2], e[3])]
        if e[0] == "idx" and e[1][0] == "ld" and e[1][1][0] == "fld" and (e[1][1][2], e[1][1][3]) in self.elems:
            return self.elems[(e[1][1][2], e[1][1][3])]
        # element of a constant table (directly or through a local copy initialised by one memcpy)
        d = F.defs.get(ins.ops[0]) if is_local(ins.ops[0]) else None
        if d is not None and d.op == "getelementptr" and len(d.ops) == 3 and d.x["sty"].startswith("["):
            i = get(d.ops[2])
            if i is TOP:
                return TOP
            if isinstance(i, int):
                t = self.table(F, d.ops[0])
                if t is not None and 0 <= i < len(t):
                    return t[i]
            return unknown(i)
        a = get(ins.ops[0])
        return TOP if a is TOP else unknown(a)

    def table(self, F, v, escape=()):
        """the constant elements of an array: a constant global, or a local array filled with constants only.
        `escape`: calls the array may be handed to"""
        P = self.P
        key = (F.name, v)
        if key in self.tabs:
            return self.tabs[key]
        self.tabs[key] = None
        self.tabs[key] = self._table(F, v, escape)
        return self.tabs[key]

    def readonly(self, c, i, seen=()):
        """the memory behind the i-th parameter of c is only read"""
        P = self.P
        if c not in P.F or i >= len(P.F[c].params) or (c, i) in seen:
            return (c, i) in seen
        G = P.F[c]
        todo = [G.params[i][1]]
        while todo:
            v = todo.pop()
            for u in G.users().get(v, ()):
                if u.op == "getelementptr" and u.ops[0] == v:
                    todo.append(u.res)
                elif u.op == "call":
                    d = P.callee(u) or ""
                    if not d.startswith("llvm.dbg") and not all(self.readonly(d, q, seen + ((c, i),))
                                                                for q, o in enumerate(P.args(u)) if o == v):
                        return False
                elif u.op not in ("load", "icmp"):
                    return False
        return True

    def _table(self, F, v, escape):
        P = self.P
        d = F.defs.get(v) if is_local(v) else None
        if d is not None and d.op == "getelementptr" and len(d.ops) == 3 and d.ops[1] == 0 and d.ops[2] == 0:
            return self._table(F, d.ops[0], escape)
        if is_local(v):
            if d is None or d.op != "alloca" or not d.x["aty"].startswith("["):
                return None
            m = re.match(r"\[(\d+) x (i\d+|double)\]$", d.x["aty"])
            if not m:
                return None
            n = int(m.group(1))
            tab, seen, src = [0] * n if m.group(2) != "double" else [0.0] * n, set(), None
            todo = [(v, 0)]
            while todo:
                a, ix = todo.pop()
                for u in F.users().get(a, ()):
                    c = (P.callee(u) or "") if u.op == "call" else ""
                    if c.startswith("llvm.memset") or c.startswith("llvm.lifetime") or c.startswith("llvm.dbg"):
                        if c.startswith("llvm.memset") and P.args(u)[1] != 0:
                            return None
                    elif c.startswith("llvm.memcpy") and P.args(u)[0] == a and ix == 0:
                        if src is not None:
                            return None
                        src = P.args(u)[1]
                    elif u.op == "call":
                        if u not in escape and not all(self.readonly(c, q) for q, o in enumerate(P.args(u))
                                                       if o == a):
                            return None
                    elif u.op == "getelementptr" and u.ops[0] == a:
                        k = u.ops[-1]
                        if isinstance(k, int) and ix is not None:
                            todo.append((u.res, ix + k))
                        else:
                            todo.append((u.res, None))
                    elif u.op == "store":
                        if u.ops[1] != a or ix is None or ix in seen or u.block.name != F.order[0]:
                            return None
                        w = u.ops[0] if isinstance(u.ops[0], (int, float)) else \
                            fconst(u.ops[0]) if isinstance(u.ops[0], str) and not is_local(u.ops[0]) else None
                        if w is None or not 0 <= ix < n:
                            return None
                        seen.add(ix)
                        tab[ix] = w
                    elif u.op not in ("load",):
                        return None
            if src is None:
                return tab
            if seen:
                return None
            v = src
        if not isinstance(v, str) or not v.startswith("@"):
            return None
        g = P.M.globals.get(v[1:].strip('"'))
        if not g or not g["const"]:
            return None
        m = re.search(r"\[(\d+) x (i\d+)\] \[(.*?)\]", g["body"])
        if not m:
            return None
        vals = re.findall(m.group(2) + r" (-?\d+)", m.group(3))
        return [int(x) for x in vals] if len(vals) == int(m.group(1)) else None

    def call(self, F, ins, c, a, depth):
        P = self.P
        if c is None:
            return BOT
        n = ext_name(c)
        if n in ("strcmp", "strncmp") and c not in P.F:
            if all(isinstance(x, tuple) and x[0] == "str" for x in a[:2]):
                x, y = a[0][1], a[1][1]
                if n == "strncmp":
                    if not isinstance(a[2], int):
                        return BOT
                    x, y = x[:a[2]], y[:a[2]]
                return (x > y) - (x < y)
            return BOT
        if n == "strlen" and c not in P.F and isinstance(a[0], tuple) and a[0][0] == "str":
            return len(a[0][1])
        if n == "strstr" and c not in P.F and all(isinstance(x, tuple) and x[0] == "str" for x in a[:2]):
            i = a[0][1].find(a[1][1])
            return ("null",) if i < 0 else ("str", a[0][1][i:])
        if n in ("ceil", "floor", "llvm.ceil.f64", "llvm.floor.f64") and c not in P.F and isinstance(a[0], float):
            return tag(float(math.ceil(a[0]) if "ceil" in n else math.floor(a[0])), a[0])
        if n in ("sqrt", "llvm.sqrt.f64") and c not in P.F and isinstance(a[0], float) and a[0] >= 0:
            return tag(math.sqrt(a[0]), a[0])
        if c in self.nr:
            return "dead"
        if c in P.F:
            G = P.F[c]
            if depth < self.depth or (c, a) in self.memo:
                key = (c, a)
                if key not in self.memo:
                    self.memo[key] = dict(ret=BOT, returns=True, errors=[], calls=[])
                    self.memo[key] = self._run(G, a, depth + 1)
                r = self.memo[key]
                if not r["returns"]:
                    return "dead"
                return r["ret"]
        return unknown(*a)
