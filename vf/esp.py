"""Path-sensitive typestate propagation ("property simulation").

States are pairs (user state, branch facts).  Facts are equalities/orderings of canonical expressions learned
from branches and constants carried by phi nodes; they are killed by redefinitions and by stores/calls that may
change the memory they mention, and dropped once no later branch can ask about them.  This makes correlated
branches (flags, repeated tests of the same field, zero-trip loops guarded twice) exact without enumerating
paths or calling a solver."""
from .core import is_local, subexprs, memclass_of
from .build import AnalysisError

NORETURN_SEED = {"exit", "abort", "__assert_fail", "_exit", "longjmp", "mexErrMsgTxt", "mexErrMsgIdAndTxt"}
PURE_EXT = {"strlen", "strcmp", "strncmp", "strstr", "strchr", "strrchr", "fabs", "sqrt", "pow", "exp", "log", "sin",
            "cos", "floor", "ceil", "isspace", "isdigit", "atoi", "fprintf", "printf", "fflush", "fclose", "fopen",
            "free", "malloc", "calloc", "vfprintf", "time", "difftime", "stat", "mkdir", "access", "log10", "tanh",
            "round", "log2", "atan", "fputs", "fputc", "puts", "perror", "exit", "strtol", "strtoul", "strtod",
            "strcspn", "strspn", "tolower", "toupper", "isalnum", "isalpha", "isalnum", "rmdir", "remove", "unlink"}


def noreturn_set(P):
    if hasattr(P, "_noret"):
        return P._noret
    nr = set(NORETURN_SEED)
    ch = True
    while ch:
        ch = False
        for F in P.F.values():
            if F.name in nr:
                continue
            seen, st, ret = set(), [F.order[0]], False
            while st and not ret:
                b = st.pop()
                if b in seen:
                    continue
                seen.add(b)
                B = F.blocks[b]
                stop = False
                for i in B.instrs:
                    if i.op == "call" and P.callee(i) in nr:
                        stop = True
                        break
                    if i.op == "ret":
                        ret = True
                if not stop:
                    st.extend(B.succs)
            if not ret:
                nr.add(F.name)
                ch = True
    P._noret = nr
    return nr


_NEG = {"ne": "eq", "uge": "ult", "ule": "ugt", "sge": "slt", "sle": "sgt"}


class Ctx:
    def __init__(self, P, F):
        self.P, self.F = P, F
        self.facts = {}

    def const(self, v):
        """known constant of a value on this path or None"""
        if isinstance(v, int):
            return v
        if v == "null":
            return 0
        if not is_local(v):
            return None
        n = 0
        while ("alias", v) in self.facts and n < 10:
            v = self.facts[("alias", v)]
            n += 1
            if isinstance(v, int):
                return v
        e = self.P.expr(self.F, v)
        return self.econst(e)

    def econst(self, e):
        if e[0] == "c":
            return e[1]
        if e[0] == "v":
            a = self.facts.get(("alias", e[1]))
            if isinstance(a, int):
                return a
            if a is not None:
                e2 = self.P.expr(self.F, a)
                if e2 != e and e2[0] != "v":
                    return self.econst(e2)
        return self.facts.get(("=", e))

    def resolve(self, e):
        """follow phi aliases of a bare SSA leaf"""
        n = 0
        while e[0] == "v" and n < 10:
            a = self.facts.get(("alias", e[1]))
            if a is None:
                break
            if isinstance(a, int):
                return ("c", a)
            e2 = self.P.expr(self.F, a)
            if e2 == e:
                break
            e = e2
            n += 1
        return e


class Known(tuple):
    """(value, state): what a transfer returns for an instruction whose result it knows in that state"""


class Result:
    def __init__(self):
        self.exits = []          # (ret instr, state, node)
        self.dead = []           # (noreturn call instr, state, node)
        self.parent = {}
        self.nodes = 0
        self.widened = False

    def path(self, P, node, limit=12):
        out = []
        while node is not None:
            out.append(node[0])
            node = self.parent.get(node)
        return out[::-1]


_INFO = {}


def info(k):
    """of a fact key: SSA names mentioned, memory classes read, leaves and loads, direct operands"""
    r = _INFO.get(k)
    if r is None:
        if len(_INFO) > 300000:
            _INFO.clear()
        names, mem, leaves, direct = set(), set(), set(), []
        for x in k[1:]:
            if isinstance(x, tuple):
                direct.append(x)
                for y in subexprs(x):
                    if y[0] == "v":
                        names.add(y[1])
                        leaves.add(y)
                    elif y[0] == "ld":
                        mem.add(memclass_of(y[1]))
                        leaves.add(y)
                    elif y[0] == "arg":
                        leaves.add(y)
        r = _INFO[k] = (frozenset(names), tuple(mem), frozenset(leaves), tuple(direct))
    return r


def cond_atoms(P, F, v, seen):
    """SSA names / load expressions a branch condition may depend on"""
    if not is_local(v) or v in seen:
        return
    seen.add(v)
    d = F.defs.get(v)
    if d is None:
        return
    if d.op in ("phi", "select", "icmp", "fcmp", "zext", "sext", "trunc", "and", "or", "xor", "freeze"):
        for o in d.ops:
            cond_atoms(P, F, o, seen)


def explore(P, F, init, transfer, maxnodes=200000, cap=400, on_edge=None, keep=()):
    """transfer(ins, state, ctx) -> None (unchanged) | new state | list of states | 'STOP'"""
    nr = noreturn_set(P)
    R = Result()
    ctx = Ctx(P, F)
    # relevance of facts per block
    own = {}
    for bn in F.order:
        B = F.blocks[bn]
        s = set()
        t = B.term
        if t.op in ("br", "switch", "ret") and t.ops:
            names = set()
            cond_atoms(P, F, t.ops[0], names)
            for n in names:
                s.add(("v", n))
                for x in subexprs(P.expr(F, n)):
                    if x[0] in ("v", "ld", "arg"):
                        s.add(x)
        own[bn] = s
    rel = {b: set(s) for b, s in own.items()}
    ch = True
    while ch:
        ch = False
        for bn in reversed(F.order):
            for sc in F.blocks[bn].succs:
                if not rel[sc] <= rel[bn]:
                    rel[bn] |= rel[sc]
                    ch = True
    extra = getattr(transfer, "atoms", None)
    mods = P.mods()

    keepnames = {i.res for i in F.instrs() if i.res and P.expr(F, i.res) in keep} if keep else ()

    def prune(facts, bn):
        r = rel[bn]
        out = {}
        for k, v in facts.items():
            if k[0] == "alias":
                if ("v", k[1]) in r or extra or (v in keepnames):
                    out[k] = v
            else:
                i = info(k)
                if keep and any(x in keep for x in i[3]):
                    out[k] = v
                elif not r.isdisjoint(i[2]):
                    out[k] = v
        return out

    def kill_ssa(facts, name):
        bad = []
        for k, v in facts.items():
            if k[0] == "alias":
                if k[1] == name or v == name:
                    bad.append(k)
            elif name in info(k)[0]:
                bad.append(k)
        for k in bad:
            del facts[k]

    def kill_mem(facts, pred):
        bad = []
        for k in facts:
            if k[0] != "alias" and any(pred(m) for m in info(k)[1]):
                bad.append(k)
        for k in bad:
            del facts[k]

    def key_of(d):
        a, b = ctx.resolve(P.expr(F, d.ops[0])), ctx.resolve(P.expr(F, d.ops[1]))
        pred = d.x["pred"]
        if d.op == "fcmp":
            return ("f" + pred, a, b), True
        ca, cb = ctx.econst(a), ctx.econst(b)
        if ca is not None:
            a = ("c", ca)
        if cb is not None:
            b = ("c", cb)
        if a[0] == "c" and b[0] != "c":
            a, b = b, a
            pred = {"ult": "ugt", "ugt": "ult", "ule": "uge", "uge": "ule", "slt": "sgt", "sgt": "slt", "sle": "sge",
                    "sge": "sle"}.get(pred, pred)
        # unsigned tests against 0/1 are equalities with 0
        if b == ("c", 0) and pred in ("ugt", "ule"):
            pred = "ne" if pred == "ugt" else "eq"
        elif b == ("c", 1) and pred in ("uge", "ult"):
            pred, b = ("ne" if pred == "uge" else "eq"), ("c", 0)
        pos = True
        if pred in _NEG:
            pred, pos = _NEG[pred], False
        if pred in ("ugt", "sgt"):
            pred, a, b = pred[0] + "lt", b, a
        if pred == "eq" and str(a) > str(b) and b[0] != "c":
            a, b = b, a
        return (pred, a, b), pos

    def ev(v, depth=0):
        """truth value of i1 value v, or (key, polarity)"""
        if isinstance(v, int):
            return bool(v)
        if v in ("true", "false"):
            return v == "true"
        n = 0
        while ("alias", v) in ctx.facts and n < 10:
            v = ctx.facts[("alias", v)]
            n += 1
            if isinstance(v, int):
                return bool(v)
        d = F.defs.get(v)
        if d is None or depth > 12:
            return (("i1", ("v", v), ("c", 0)), True)
        if d.op in ("zext", "sext", "trunc", "freeze") and (d.optys[0] == "i1" or d.ty == "i1"):
            if d.optys[0] == "i1":
                return ev(d.ops[0], depth + 1)
        if d.op == "icmp":
            # icmp ne/eq (zext i1 b), 0
            if d.ops[1] == 0 and d.x["pred"] in ("ne", "eq") and is_local(d.ops[0]):
                x = d.ops[0]
                m = 0
                while ("alias", x) in ctx.facts and m < 10:
                    x = ctx.facts[("alias", x)]
                    m += 1
                    if isinstance(x, int):
                        return (x != 0) == (d.x["pred"] == "ne")
                dd = F.defs.get(x)
                while dd is not None and dd.op in ("zext", "sext") and dd.optys[0] != "i1":
                    x = dd.ops[0]
                    while ("alias", x) in ctx.facts:
                        x = ctx.facts[("alias", x)]
                        if isinstance(x, int):
                            return (x != 0) == (d.x["pred"] == "ne")
                    dd = F.defs.get(x) if is_local(x) else None
                if dd is not None and dd.op in ("zext", "sext") and dd.optys[0] == "i1":
                    r = ev(dd.ops[0], depth + 1)
                    if d.x["pred"] == "ne":
                        return r
                    return (not r) if isinstance(r, bool) else (r[0], not r[1])
            (key, pos) = key_of(d)
            pred, a, b = key
            if a[0] == "c" and b[0] == "c":
                x, y = a[1], b[1]
                if pred == "eq":
                    t = x == y
                elif pred == "ult":
                    t = (x % (1 << 64)) < (y % (1 << 64))
                else:
                    t = x < y
                return t == pos
            if pred == "eq" and a == b:
                return pos
            if pred == "ult" and b == ("c", 0):
                return not pos
            if key in ctx.facts:
                return ctx.facts[key] == pos
            if b[0] == "c" and pred == "eq" and ("ne", a) in ctx.facts and b[1] in ctx.facts[("ne", a)]:
                return not pos
            return (key, pos)
        if d.op == "fcmp":
            key, pos = key_of(d)
            if key in ctx.facts:
                return ctx.facts[key] == pos
            return (key, pos)
        if d.op == "xor" and d.ops[1] == 1:
            r = ev(d.ops[0], depth + 1)
            return (not r) if isinstance(r, bool) else (r[0], not r[1])
        if d.op in ("and", "or") and d.ty == "i1":
            a, b = ev(d.ops[0], depth + 1), ev(d.ops[1], depth + 1)
            if d.op == "and":
                if a is False or b is False:
                    return False
                if a is True and b is True:
                    return True
            else:
                if a is True or b is True:
                    return True
                if a is False and b is False:
                    return False
        k = ("i1", ("v", v), ("c", 0))
        if k in ctx.facts:
            return ctx.facts[k]
        return (k, True)

    def learn(facts, key, val):
        facts[key] = val
        if key[0] == "eq" and key[2][0] == "c":
            if val:
                facts[("=", key[1])] = key[2][1]
                facts.pop(("ne", key[1]), None)
            else:
                facts[("ne", key[1])] = tuple(sorted(set(facts.get(("ne", key[1]), ())) | {key[2][1]}))[:40]
        elif val and key[0] in ("ult",) and key[1] == ("c", 0):
            learn(facts, ("eq", key[2], ("c", 0)), False)
        elif val and key[0] == "ult" and key[1][0] != "c":
            # x < y (unsigned) implies y != 0
            facts[("eq", key[2], ("c", 0))] = False

    counters = set()
    for bn in F.order:
        for p in F.blocks[bn].instrs:
            if p.op != "phi":
                break
            if p.ty not in ("i64", "i32"):
                continue
            inc, ok = [], True
            for v, bb in zip(p.ops, p.x["bbs"]):
                d = F.defs.get(v) if is_local(v) else None
                if d is not None and d.op == "add" and d.ops[0] == p.res and isinstance(d.ops[1], int) and 0 < d.ops[1] < 1 << 30:
                    inc.append(bb)
                elif not (isinstance(v, int) and v >= 0):
                    ok = False
            if ok:
                counters |= {(p.res, bb) for bb in inc}

    def step_phi(facts, frm, to):
        upd, rekey = {}, []
        phis = [i for i in F.blocks[to].instrs if i.op == "phi"]
        for p in phis:
            try:
                v = p.ops[p.x["bbs"].index(frm)]
            except ValueError:
                continue
            if v == "null":
                v = 0
            if isinstance(v, int):
                upd[p.res] = v
            elif is_local(v):
                a = facts.get(("alias", v), v)
                upd[p.res] = a
            else:
                upd[p.res] = None
        for p in phis:
            kill_ssa(facts, p.res)
        for r, a in upd.items():
            if a is not None and a != r and not (isinstance(a, str) and a in upd):
                facts[("alias", r)] = a
            if (r, frm) in counters:      # a counter that has been incremented is not zero
                facts.pop(("alias", r), None)
                facts[("eq", ("v", r), ("c", 0))] = False
        return facts

    def fold(ins, facts):
        """result of arithmetic on known flags and small counters (saturating at 2)"""
        if ins.op not in ("zext", "sext", "trunc", "or", "and", "add"):
            return None
        vs = [o if isinstance(o, int) else facts.get(("alias", o)) for o in ins.ops[:2]]
        if ins.op in ("zext", "sext", "trunc"):
            return vs[0] if isinstance(vs[0], int) else None
        if ins.op == "or" and 1 in vs:
            return 1
        if ins.op == "and" and 0 in vs:
            return 0
        if len(vs) == 2 and all(isinstance(x, int) and 0 <= x <= 2 for x in vs):
            return vs[0] | vs[1] if ins.op == "or" else vs[0] & vs[1] if ins.op == "and" else min(2, vs[0] + vs[1])
        return None

    work = []
    seen = {}
    percount = {}
    merged = {}

    def push(bn, st, facts, parent):
        facts = prune(facts, bn)
        node = (bn, st, frozenset(facts.items()))
        if node in seen:
            return
        c = percount[bn] = percount.get(bn, 0) + 1
        if c > cap:
            # widen: one fact set per (block, user state), the facts common to all arrivals
            old = merged.get((bn, st))
            new = frozenset(facts.items()) if old is None else (old & frozenset(facts.items()))
            if old is not None and new == old:
                return
            merged[(bn, st)] = new
            node = (bn, st, new)
            R.widened = True
            if node in seen:
                return
        seen[node] = True
        R.parent[node] = parent
        R.nodes += 1
        if R.nodes > maxnodes:
            raise AnalysisError("state budget exceeded in %s" % F.name)
        work.append(node)

    for s in init:
        push(F.order[0], s, {}, None)
    while work:
        node = work.pop()
        bn, st, ff = node
        ctx.facts = dict(ff)
        cur = [(st, dict(ff))]
        B = F.blocks[bn]
        for ins in B.instrs:
            if ins.op == "phi":
                continue
            nxt = []
            for st, facts in cur:
                ctx.facts = facts
                r = transfer(ins, st, ctx)
                if r is None:
                    outs = [st]
                elif isinstance(r, list):
                    outs = r
                elif isinstance(r, str) and r == "STOP":
                    outs = []
                else:
                    outs = [r]
                if ins.op == "ret":
                    for o in outs:
                        R.exits.append((ins, o, node, dict(facts)))
                    continue
                if ins.op == "unreachable":
                    continue
                if ins.op == "call":
                    c = P.callee(ins)
                    if c in nr:
                        for o in outs:
                            R.dead.append((ins, o, node))
                        continue
                for k, o in enumerate(outs):
                    f2 = facts if len(outs) == 1 else dict(facts)
                    val = None
                    if extra == "values" and ins.res:
                        val = fold(ins, f2)
                    if ins.res:
                        kill_ssa(f2, ins.res)
                    if isinstance(o, Known):        # the state that goes with a known result
                        val, o = o
                    if val is not None:
                        f2[("alias", ins.res)] = val
                    if ins.op == "store":
                        mc = P.memclass(F, ins.ops[1])
                        if mc[0] in ("*", "arg", "p"):
                            kill_mem(f2, lambda m: m == mc or m[0] in ("*", "arg") or (mc[0] != "p" and m[0] == "p"))
                        else:
                            kill_mem(f2, lambda m: m == mc)
                    elif ins.op == "call":
                        ts = P.targets(ins)
                        passed = {P.memclass(F, a) for i, a in enumerate(P.args(ins)) if ins.optys[i] == "ptr" and is_local(a)}
                        for t in ts:
                            if t in mods:
                                ms = mods[t]
                                if not ms:
                                    continue
                                star = any(m[0] in ("*", "arg") for m in ms)
                                kill_mem(f2, lambda m: m in ms or (star and m[0] in ("*", "arg", "p")) or
                                         (star and m in passed and m[0] == "f"))
                            elif t not in PURE_EXT:
                                kill_mem(f2, lambda m: m in passed or m[0] in ("*", "arg", "p"))
                    nxt.append((o, f2))
            cur = nxt
            if not cur:
                break
        t = B.term
        for st, facts in cur:
            if t.op == "br":
                if "c" not in t.x:
                    f2 = step_phi(dict(facts), bn, t.x["t"])
                    push(t.x["t"], st, f2, node)
                    continue
                ctx.facts = facts
                r = ev(t.ops[0])
                for val, tgt in ((True, t.x["t"]), (False, t.x["f"])):
                    if isinstance(r, bool):
                        if r != val:
                            continue
                        f2 = dict(facts)
                    else:
                        f2 = dict(facts)
                        learn(f2, r[0], val == r[1])
                        cv = t.ops[0]
                    st2 = st
                    if on_edge is not None:
                        ctx.facts = f2
                        st2 = on_edge(t, val, st, ctx)
                        if st2 == "STOP":
                            continue
                    f2 = step_phi(f2, bn, tgt)
                    push(tgt, st2, f2, node)
            elif t.op == "switch":
                ctx.facts = facts
                e = ctx.resolve(P.expr(F, t.ops[0]))
                c = ctx.econst(e)
                for val, tgt in [(None, t.x["default"])] + t.x["cases"]:
                    f2 = dict(facts)
                    if c is not None:
                        hit = [tg for a, tg in t.x["cases"] if a == c]
                        if (hit and (val is None or val != c)) or (not hit and val is not None):
                            continue
                    elif val is not None:
                        learn(f2, ("eq", e, ("c", val)), True)
                    else:
                        for a, _ in t.x["cases"]:
                            learn(f2, ("eq", e, ("c", a)), False)
                    f2 = step_phi(f2, bn, tgt)
                    push(tgt, st, f2, node)
    return R


def lines_of_path(P, F, path):
    out = []
    for bn in path:
        for i in F.blocks[bn].instrs:
            o = i.origin or i
            if o.dbg:
                f, l = P.di.loc(o.dbg)
                if l and (not out or out[-1] != (f, l)):
                    out.append((f, l))
                break
    return out
