"""Whole-program services on top of the IR model: resolved call graph (function pointers through
struct slots, globals and parameters), canonical access paths, mod sets, inlining, dominators."""
import re
from .ir import Function, Block, Instr
from .build import AnalysisError

ALLOC_BASE = {"malloc", "calloc", "realloc", "strdup"}


def is_local(v):
    return isinstance(v, str) and v.startswith("%")


class Program:
    def __init__(self, M):
        self.M = M
        self.di = M.di
        self.F = M.functions
        self._expr = {}
        self._ret = {}
        self._mods = None
        self.slots = {}
        self.retfn = {}
        self.paramfn = {}
        self.expanded = []
        self._expand_cell_helpers()
        self._resolve_fnptrs()

    def _expand_cell_helpers(self):
        """calls f(&object->field, ...) of small helpers that only load and store through that pointer are replaced by
        the helper's body: to every rule they are accesses to the field"""
        taken = set()
        for F in self.F.values():
            for i in F.instrs():
                for o in (self.args(i) if i.op == "call" else i.ops):
                    if isinstance(o, str) and o.startswith("@"):
                        taken.add(o[1:].strip('"'))
        cand = {}
        for n, C in self.F.items():
            ins = list(C.instrs())
            if not C.internal or n in taken or C.vararg or len(ins) > 25:
                continue
            if any(i.op == "call" for i in ins):
                continue
            cells = set()
            for k, p in enumerate(C.params):
                if p[0] != "ptr":
                    continue
                us = [i for i in ins if p[1] in i.ops]
                if us and all((i.op == "load" and i.ops[0] == p[1]) or
                              (i.op == "store" and i.ops[1] == p[1] and i.ops[0] != p[1]) for i in us) and \
                        any(i.op == "store" for i in us):
                    cells.add(k)
            if cells:
                cand[n] = cells

        def hit(F, i):
            c = self.callee(i) if i.op == "call" else None
            if c not in cand or c == F.name:
                return False
            for k in cand[c]:
                a = self.args(i)[k] if k < len(self.args(i)) else None
                d = F.defs.get(a) if is_local(a) else None
                if d is not None and d.op == "getelementptr" and str((d.x or {}).get("sty", "")).startswith("%struct") \
                        and len(d.ops) > 2:
                    return True
            return False
        used = set()
        for n in list(self.F):
            F = self.F[n]
            for rnd in range(4):
                sites = [i for i in F.instrs() if hit(F, i)]
                if not sites:
                    break
                if rnd == 0:
                    F = clone_function(F)
                    sites = [i for i in F.instrs() if hit(F, i)]
                for q, i in enumerate(sites):
                    used.add(self.callee(i))
                    self.expanded.append((n, self.callee(i)))
                    C = self.F[self.callee(i)]
                    if len(C.order) == 1:
                        _splice(F, i, C, ".c%d_%d" % (rnd, q))
                    else:
                        _inline_at(F, i, C, ".c%d_%d" % (rnd, q))
                F.finish()
                self.F[n] = F
        for c in used:
            if not any(i.op == "call" and self.callee(i) == c for F in self.F.values() if F.name != c for i in F.instrs()):
                del self.F[c]

    # ---------------------------------------------------------------- basic helpers
    def callee(self, ins):
        """name of directly called function or None"""
        c = ins.x["callee"]
        return c[1:].strip('"') if c.startswith("@") else None

    def args(self, ins):
        return ins.ops[:ins.x["n"]]

    def where(self, ins):
        return self.di.where(ins)

    def func(self, name):
        if name not in self.F:
            raise AnalysisError("anchor function %s not found in the library" % name)
        return self.F[name]

    def string(self, v):
        """constant string denoted by operand v, or None"""
        if isinstance(v, str) and v.startswith("@"):
            return self.M.strings.get(v[1:].strip('"'))
        if isinstance(v, str) and v.startswith("getelementptr"):
            m = re.search(r"@([-\w.$]+)", v)
            if m:
                return self.M.strings.get(m.group(1))
        return None

    # ---------------------------------------------------------------- function pointers
    def slot_of_addr(self, F, v, _n=0):
        """memory slot class of an address: ('f',S,field) | ('g',name) | ('a',fn,alloca) | None"""
        d = F.defs.get(v) if is_local(v) else None
        if _n > 25:
            return None
        if d is None:
            if isinstance(v, str) and v.startswith("@"):
                return ("g", v[1:].strip('"'))
            return None
        if d.op == "getelementptr":
            S = d.x["sty"]
            if S.startswith("%struct") and len(d.ops) >= 3 and isinstance(d.ops[-1], int):
                return ("f", S[1:], self.di.field(S, d.ops[2]))
            return self.slot_of_addr(F, d.ops[0], _n + 1)
        if d.op == "alloca":
            return ("a", F.name, v)
        if d.op in ("phi", "select"):
            ops = d.ops if d.op == "phi" else d.ops[1:]
            for o in ops:
                if is_local(o) and F.defs.get(o) is not None and F.defs[o].op != d.op:
                    return self.slot_of_addr(F, o, _n + 1)
        return None

    def fnset(self, F, v, seen=None):
        if isinstance(v, str) and v.startswith("@"):
            n = v[1:].strip('"')
            if n in self.F or n in self.M.decls:
                return {n}
            return set(self.slots.get(("g", n), ()))
        if not is_local(v):
            return set()
        seen = seen or set()
        if v in seen:
            return set()
        seen.add(v)
        if v in F.argidx:
            return set(self.paramfn.get((F.name, F.argidx[v]), ()))
        d = F.defs.get(v)
        if d is None:
            return set()
        if d.op == "phi":
            r = set()
            for o in d.ops:
                r |= self.fnset(F, o, seen)
            return r
        if d.op == "select":
            return self.fnset(F, d.ops[1], seen) | self.fnset(F, d.ops[2], seen)
        if d.op == "load":
            s = self.slot_of_addr(F, d.ops[0])
            return set(self.slots.get(s, ())) if s else set()
        if d.op == "bitcast":
            return self.fnset(F, d.ops[0], seen)
        if d.op == "call":
            r = set()
            for c in self.targets(d):
                r |= self.retfn.get(c, set())
            return r
        return set()

    def targets(self, ins):
        c = self.callee(ins)
        if c is not None:
            return {c}
        return self.fnset(ins.fn, ins.x["callee"])

    def _resolve_fnptrs(self):
        # globals initialised with functions
        for g, d in self.M.globals.items():
            if 'c"' in d["body"] or g in self.M.strings:
                continue
            fs = {n for n in re.findall(r"@([-\w.$]+)", d["body"]) if n in self.F}
            if fs:
                self.slots.setdefault(("g", g), set()).update(fs)
        changed = True
        it = 0
        while changed:
            changed = False
            it += 1
            if it > 30:
                raise AnalysisError("function pointer resolution does not converge")
            for F in self.F.values():
                for ins in F.instrs():
                    if ins.op == "store":
                        s = self.slot_of_addr(F, ins.ops[1])
                        if s is None:
                            continue
                        fs = self.fnset(F, ins.ops[0])
                        if fs and not fs <= self.slots.get(s, set()):
                            self.slots.setdefault(s, set()).update(fs)
                            changed = True
                    elif ins.op == "call":
                        for c in self.targets(ins):
                            if c not in self.F:
                                continue
                            for i, a in enumerate(self.args(ins)[:len(self.F[c].params)]):
                                if ins.optys[i] != "ptr":
                                    continue
                                fs = self.fnset(F, a)
                                if fs and not fs <= self.paramfn.get((c, i), set()):
                                    self.paramfn.setdefault((c, i), set()).update(fs)
                                    changed = True
                    elif ins.op == "ret" and ins.ops and ins.optys[0] == "ptr":
                        fs = self.fnset(F, ins.ops[0])
                        if fs and not fs <= self.retfn.get(F.name, set()):
                            self.retfn.setdefault(F.name, set()).update(fs)
                            changed = True
        # address taken
        self.address_taken = set()
        for F in self.F.values():
            for ins in F.instrs():
                ops = ins.ops if ins.op != "call" else ins.ops[:ins.x["n"]]
                for o in ops:
                    if isinstance(o, str) and o.startswith("@") and o[1:] in self.F:
                        self.address_taken.add(o[1:])

    def slot(self, S, f):
        return set(self.slots.get(("f", S, f), ()))

    def callers(self, name):
        if not hasattr(self, "_callers"):
            d = {}
            for F in self.F.values():
                for ins in F.instrs():
                    if ins.op == "call":
                        for t in set(self.targets(ins)):
                            d.setdefault(t, []).append(ins)
            self._callers = d
        return self._callers.get(name, [])

    def callgraph(self):
        if not hasattr(self, "_cg"):
            self._cg = {}
            for F in self.F.values():
                s = set()
                for ins in F.instrs():
                    if ins.op == "call":
                        s |= self.targets(ins)
                self._cg[F.name] = s
        return self._cg

    def reach(self, roots, stop=()):
        cg = self.callgraph()
        seen, st = set(), list(roots)
        while st:
            f = st.pop()
            if f in seen or f in stop:
                continue
            seen.add(f)
            st.extend(cg.get(f, ()))
        return seen

    # ---------------------------------------------------------------- canonical expressions
    def addr(self, F, v, depth=0):
        """canonical access path: (root expr, steps...)"""
        return self.expr(F, v, depth)

    def expr(self, F, v, depth=0):
        """hashable canonical expression of an SSA value (loads are keyed by access path)."""
        if isinstance(v, int):
            return ("c", v)
        if v == "null":
            return ("c", 0)
        if not is_local(v):
            s = self.string(v)
            if s is not None:
                return ("s", s)
            if isinstance(v, str) and v.startswith("@"):
                return ("g", v[1:].strip('"'))
            return ("k", v)
        cache = F.__dict__.get("_ec")
        if cache is None:
            cache = F._ec = {}
        r = cache.get(v)
        if r is not None:
            return r
        if depth > 40:
            return ("v", v)
        if v in F.argidx:
            r = ("arg", F.argidx[v])
            cache[v] = r
            return r
        d = F.defs.get(v)
        if d is None:
            return ("v", v)
        r = None
        if d.op == "getelementptr":
            base = self.expr(F, d.ops[0], depth + 1)
            S = d.x["sty"]
            idxs = [self.expr(F, o, depth + 1) for o in d.ops[1:]]
            cur = base
            if idxs[0] != ("c", 0):
                cur = ("idx", cur, S if not S.startswith("[") else S, idxs[0])
            ty = S
            for k, ie in enumerate(idxs[1:]):
                if ty.startswith("%struct") or ty.startswith("%union"):
                    nm = ty[1:].strip('"')
                    fi = d.ops[2 + k]
                    cur = ("fld", cur, nm, self.di.field(ty, fi))
                    tl = self.M.types.get(nm)
                    ty = tl[fi] if tl and isinstance(fi, int) and fi < len(tl) else "?"
                elif ty.startswith("["):
                    m = re.match(r"\[\d+ x (.*)\]$", ty)
                    ty = m.group(1)
                    if ie != ("c", 0):
                        cur = ("idx", cur, ty, ie)
                else:
                    cur = ("idx", cur, ty, ie)
            r = cur
        elif d.op == "load":
            r = ("ld", self.expr(F, d.ops[0], depth + 1))
        elif d.op in ("zext", "sext", "trunc", "bitcast", "ptrtoint", "inttoptr", "freeze"):
            r = self.expr(F, d.ops[0], depth + 1)
        elif d.op in ("uitofp", "sitofp", "fptoui", "fptosi", "fneg", "fpext", "fptrunc"):
            r = (d.op, self.expr(F, d.ops[0], depth + 1))
        elif d.op in ("icmp", "fcmp"):
            r = (d.op, d.x["pred"], self.expr(F, d.ops[0], depth + 1), self.expr(F, d.ops[1], depth + 1))
        elif d.op in ("add", "sub", "mul", "udiv", "sdiv", "urem", "srem", "shl", "lshr", "ashr", "and", "or", "xor",
                      "fadd", "fsub", "fmul", "fdiv", "frem"):
            r = (d.op, self.expr(F, d.ops[0], depth + 1), self.expr(F, d.ops[1], depth + 1))
        elif d.op == "call":
            c = self.callee(d)
            g = self.getter(c) if c in self.F else None
            if g is not None:
                sub = [self.expr(F, a, depth + 1) for a in self.args(d)]
                r = subst(g, sub)
        elif d.op == "phi":
            vals = {o for o in d.ops if o != v}
            if len(vals) == 1:
                r = self.expr(F, next(iter(vals)), depth + 1)
        if r is None:
            r = ("v", v)
        if size(r) > 400:
            r = ("v", v)
        cache[v] = r
        return r

    def getter(self, name):
        """return expression of a side-effect-free single-exit accessor (in terms of its args), or None"""
        if name in self._ret:
            return self._ret[name]
        self._ret[name] = None
        F = self.F[name]
        rets = [i for i in F.instrs() if i.op == "ret"]
        if len(rets) != 1 or not rets[0].ops:
            return None
        for i in F.instrs():
            if i.op == "store" or i.op == "alloca":
                return None
            if i.op == "call":
                c = self.callee(i)
                if c in ("__assert_fail", "coco_error"):
                    continue
                if c not in self.F or self.getter(c) is None:
                    return None
            if i.op in ("phi", "select", "switch"):
                return None
        e = self.expr(F, rets[0].ops[0])
        if has_val(e):
            return None
        self._ret[name] = e
        return e

    # ---------------------------------------------------------------- mod sets
    def mods(self):
        """function -> set of memory classes it may store to (transitively).
        class: ('f',S,field) direct field, ('p',S,field) contents reached through pointer field,
               ('g',name), ('*',) unknown pointer"""
        if self._mods is not None:
            return self._mods
        direct = {}
        for F in self.F.values():
            s = set()
            for ins in F.instrs():
                if ins.op == "store":
                    s.add(self.memclass(F, ins.ops[1]))
                elif ins.op == "call" and self.callee(ins) in ("memcpy", "memset", "memmove", "strcpy", "strncpy",
                                                               "llvm.memcpy.p0.p0.i64", "llvm.memset.p0.i64"):
                    s.add(self.memclass(F, self.args(ins)[0]))
            direct[F.name] = s
        cg = self.callgraph()
        res = {f: set(s) for f, s in direct.items()}
        ch = True
        while ch:
            ch = False
            for f in res:
                for c in cg[f]:
                    if c in res and not res[c] <= res[f]:
                        res[f] |= res[c]
                        ch = True
        self._mods = res
        self._direct_mods = direct
        return res

    def memclass(self, F, v):
        e = self.expr(F, v)
        return memclass_of(e)

    # ---------------------------------------------------------------- inlining
    def inline(self, name, want, maxdepth=8, maxinstr=6000):
        """copy of function `name` with every call to a function for which want(callee name) holds
        replaced by its body (recursion is cut)."""
        F0 = self.func(name) if isinstance(name, str) else name
        G = clone_function(F0)
        uid = [0]
        work = [(i, (F0.name,)) for i in list(G.instrs()) if i.op == "call"]
        while work:
            ins, stack = work.pop()
            c = self.callee(ins)
            if c is None or c not in self.F or c in stack or len(stack) > maxdepth or not want(c):
                continue
            if sum(len(b.instrs) for b in G.blocks.values()) > maxinstr:
                raise AnalysisError("inlining %s exceeds the instruction budget" % F0.name)
            uid[0] += 1
            new = _inline_at(G, ins, self.F[c], ".i%d" % uid[0])
            work.extend((i, stack + (c,)) for i in new if i.op == "call")
        G.finish()
        return G


def subst(e, sub):
    if e[0] == "arg":
        return sub[e[1]] if e[1] < len(sub) else e
    return tuple(subst(x, sub) if isinstance(x, tuple) else x for x in e)


def has_val(e):
    if e[0] == "v":
        return True
    return any(has_val(x) for x in e if isinstance(x, tuple))


def size(e):
    return 1 + sum(size(x) for x in e if isinstance(x, tuple))


def subexprs(e):
    yield e
    for x in e:
        if isinstance(x, tuple):
            yield from subexprs(x)


def memclass_of(e):
    """class of the memory addressed by canonical address e"""
    while e[0] == "idx":
        e = e[1]
    if e[0] == "fld":
        return ("f", e[2], e[3])
    if e[0] == "ld":
        b = e[1]
        while b[0] == "idx":
            b = b[1]
        if b[0] == "fld":
            return ("p", b[2], b[3])
        if b[0] == "g":
            return ("p", "@", b[1])
        return ("*",)
    if e[0] == "g":
        return ("g", e[1])
    if e[0] == "arg":
        return ("arg", e[1])
    return ("*",)


def clone_function(F):
    G = Function(F.name, F.retty, list(F.params), F.internal, F.dbg, F.vararg, F.module)
    G.dbgvals = dict(F.dbgvals)
    for bn in F.order:
        b = Block(bn, G)
        for i in F.blocks[bn].instrs:
            n = i.clone()
            n.x = dict(n.x) if n.x else n.x
            b.instrs.append(n)
        G.blocks[bn] = b
        G.order.append(bn)
    G.finish()
    return G


def _splice(G, call, C, suf):
    """replace `call` by the body of the single-block function C"""
    B = call.block
    k = B.instrs.index(call)
    amap = {p[1]: (call.ops[i] if i < call.x["n"] else "undef") for i, p in enumerate(C.params)}

    def mv(v):
        return amap.get(v, v + suf) if is_local(v) else v
    new, ret = [], None
    for i in C.blocks[C.order[0]].instrs:
        if i.op == "ret":
            ret = mv(i.ops[0]) if i.ops else None
            continue
        n = i.clone()
        n.x = dict(n.x) if n.x else n.x
        n.ops = [mv(o) for o in n.ops]
        if n.res:
            n.res += suf
        if n.op == "call":
            n.x["callee"] = mv(n.x["callee"])
        n.block, n.fn = B, G
        new.append(n)
    B.instrs[k:k + 1] = new
    if call.res and ret is not None:
        for i in G.instrs():
            if call.res in i.ops:
                i.ops = [ret if o == call.res else o for o in i.ops]
                if i.op == "br" and "c" in i.x:
                    i.x["c"] = i.ops[0]
    for v, l in C.dbgvals.items():
        if v not in amap:
            G.dbgvals.setdefault(v + suf, l)


def _inline_at(G, call, C, suf):
    """inline C at `call` inside G; returns the cloned instructions"""
    B = call.block
    k = B.instrs.index(call)
    amap = {}
    for i, p in enumerate(C.params):
        amap[p[1]] = call.ops[i] if i < call.x["n"] else "undef"

    def mv(v):
        if isinstance(v, str) and v.startswith("%"):
            if v in amap:
                return amap[v]
            return v + suf
        return v

    tail = Block(B.name + suf + ".tail", G)
    tail.instrs = B.instrs[k + 1:]
    B.instrs = B.instrs[:k]
    # successors' phis must now name the tail block
    t = tail.instrs[-1]
    succ = []
    if t.op == "br":
        succ = [t.x["t"]] + ([t.x["f"]] if "c" in t.x else [])
    elif t.op == "switch":
        succ = [t.x["default"]] + [c[1] for c in t.x["cases"]]
    for s in set(succ):
        for i in G.blocks[s].instrs:
            if i.op == "phi":
                i.x["bbs"] = [tail.name if b == B.name else b for b in i.x["bbs"]]
    br = Instr("br", None, None, [], [], {"t": C.order[0] + suf}, call.dbg)
    br.origin = call.origin or call
    B.instrs.append(br)
    rets = []
    newi = []
    newblocks = []
    for bn in C.order:
        nb = Block(bn + suf, G)
        for i in C.blocks[bn].instrs:
            n = i.clone()
            n.x = dict(n.x) if n.x else n.x
            n.ops = [mv(o) for o in n.ops]
            if n.res:
                n.res = n.res + suf
            if n.op == "phi":
                n.x["bbs"] = [b + suf for b in n.x["bbs"]]
            elif n.op == "br":
                n.x["t"] += suf
                if "c" in n.x:
                    n.x["f"] += suf
                    n.x["c"] = n.ops[0]
            elif n.op == "switch":
                n.x["default"] += suf
                n.x["cases"] = [(a, b + suf) for a, b in n.x["cases"]]
            elif n.op == "call":
                n.x["callee"] = mv(n.x["callee"])
            elif n.op == "ret":
                rets.append((n.ops[0] if n.ops else None, nb.name))
                o = n.origin
                n = Instr("br", None, None, [], [], {"t": tail.name}, n.dbg)
                n.origin = o
            nb.instrs.append(n)
            newi.append(n)
        newblocks.append(nb)
    if call.res:
        if rets:
            ph = Instr("phi", call.res, call.ty, [r[0] for r in rets], [call.ty] * len(rets),
                       {"bbs": [r[1] for r in rets]}, call.dbg)
            ph.origin = call.origin or call
            tail.instrs.insert(0, ph)
    pos = G.order.index(B.name)
    for b in newblocks + [tail]:
        G.blocks[b.name] = b
    G.order[pos + 1:pos + 1] = [b.name for b in newblocks] + [tail.name]
    for b in newblocks + [tail, B]:
        for i, ins in enumerate(b.instrs):
            ins.block, ins.fn = b, G
    # keep debug variable names
    for v, l in C.dbgvals.items():
        if v not in amap:
            G.dbgvals.setdefault(v + suf, l)
    return newi


def dominators(F):
    order = []
    seen = set()

    def dfs(b):
        st = [(b, iter(F.blocks[b].succs))]
        seen.add(b)
        while st:
            x, it = st[-1]
            for s in it:
                if s not in seen:
                    seen.add(s)
                    st.append((s, iter(F.blocks[s].succs)))
                    break
            else:
                order.append(x)
                st.pop()
    dfs(F.order[0])
    rpo = order[::-1]
    idx = {b: i for i, b in enumerate(rpo)}
    dom = {rpo[0]: rpo[0]}

    def inter(a, b):
        while a != b:
            while idx[a] > idx[b]:
                a = dom[a]
            while idx[b] > idx[a]:
                b = dom[b]
        return a
    ch = True
    while ch:
        ch = False
        for b in rpo[1:]:
            ps = [p for p in F.blocks[b].preds if p in dom]
            n = ps[0]
            for p in ps[1:]:
                n = inter(n, p)
            if dom.get(b) != n:
                dom[b] = n
                ch = True
    return dom, rpo


def dominates(dom, a, b):
    while True:
        if a == b:
            return True
        if dom.get(b) in (None, b):
            return False
        b = dom[b]
