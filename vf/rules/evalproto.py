"""Evaluation protocol: counting (C01), single evaluation by wrappers (C02), non-finite points (C05),
best-observed bookkeeping (C06)."""
from ..check import rule
from ..util import *
from ..core import is_local, subexprs
from ..esp import explore
from ..build import AnalysisError

CNT = {"evaluate_function": "evaluations", "evaluate_constraint": "evaluations_constraints"}
DIMS = {"evaluate_function": "number_of_objectives", "evaluate_constraint": "number_of_constraints"}


def is_inc(P, F, ins, fields):
    """store that adds 1 to a counter field -> (base, field, amount expr or 1)"""
    if ins.op != "store":
        return None
    a = P.expr(F, ins.ops[1])
    if a[0] != "fld" or a[2] != PROB or a[3] not in fields:
        return None
    return a


def inc_kind(P, F, ins):
    a = P.expr(F, ins.ops[1])
    v = P.expr(F, ins.ops[0])
    old = ("ld", a)
    if v in (("add", old, ("c", 1)), ("add", ("c", 1), old)):
        return "inc"
    if v[0] == "add" and (v[1] == old or v[2] == old):
        o = v[2] if v[1] == old else v[1]
        if o[0] == "icmp" and o[1] == "ne" and ("c", 0) in o[2:]:
            u = o[2] if o[3] == ("c", 0) else o[3]
            return ("incif", u)
        return "other"
    if v == ("c", 0):
        return "zero"
    if v[0] == "ld" and v[1][0] == "fld" and v[1][2] == PROB and v[1][3] == a[3]:
        return "copy"
    return "other"


def fresh_base(P, F, base):
    """base expression denotes an object allocated in this function"""
    if base[0] != "v":
        return False
    s = fresh_sources(F, base[1])
    return s is not None and s <= (allocators(P) | {"null"}) and bool(s - {"null"})


def roots(P, slot):
    """public functions that dispatch `slot` on a problem passed by the caller"""
    out = {}
    for F in P.F.values():
        for i in F.instrs():
            if i.op == "call":
                s = callee_slot(P, F, i)
                if s and s[0] == PROB and s[1] == slot and s[2][0] == "arg":
                    out.setdefault(F.name, []).append(i)
    return out


def judge_count(P, slot, field, G, out):
    def transfer(ins, st, ctx):
        if ins.op == "call":
            s = callee_slot(P, G, ins)
            if s and s[0] == PROB and s[1] == slot:
                d = dict(st)
                k = ("d", s[2])
                d[k] = min(d.get(k, 0) + 1, 2)
                if slot == "evaluate_constraint":
                    u = P.expr(G, P.args(ins)[3])
                    c = ctx.econst(u)
                    if c is None and ("ne", u) in ctx.facts and 0 in ctx.facts[("ne", u)]:
                        c = 1
                    d[("u", s[2])] = (u, c)
                return frozenset(d.items())
        elif ins.op == "store":
            a = is_inc(P, G, ins, {field})
            if a is not None and not fresh_base(P, G, a[1]):
                k = inc_kind(P, G, ins)
                d = dict(st)
                if k == "inc":
                    kk = ("i", a[1])
                    d[kk] = min(d.get(kk, 0) + 1, 2)
                elif isinstance(k, tuple) and slot == "evaluate_constraint" and \
                        d.get(("u", a[1]), (None,))[0] == k[1]:
                    d[("incif", a[1])] = True
                else:
                    d[("bad", a[1])] = P.where(ins)
                return frozenset(d.items())
        return None

    def on_edge(t, val, st, ctx):
        if slot != "evaluate_constraint":
            return st
        d = dict(st)
        ch = False
        for k, v in list(d.items()):
            if k[0] == "u" and v[1] is None:
                c = ctx.econst(v[0])
                if c is None and ("ne", v[0]) in ctx.facts and 0 in ctx.facts[("ne", v[0])]:
                    c = 1
                if c is not None:
                    d[k] = (v[0], c)
                    ch = True
        return frozenset(d.items()) if ch else st

    R = explore(P, G, [frozenset()], transfer, on_edge=on_edge)
    bad = []
    for ret, st, node, facts in R.exits:
        d = dict(st)
        bases = {k[1] for k in d}
        for b in bases:
            n, m = d.get(("d", b), 0), d.get(("i", b), 0)
            if ("bad", b) in d:
                bad.append((d[("bad", b)], "the %s counter is changed by something other than +1" % field, node))
                continue
            if slot == "evaluate_constraint":
                if n == 0 and m == 0:
                    continue
                u, c = d.get(("u", b), (None, None))
                if d.get(("incif", b)):
                    if m == 0 and n == 1:
                        continue
                want = {0: 0}.get(c, 1 if c is not None else None)
                if n == 1 and want is not None and m == want:
                    continue
                if n == 1 and want is None:
                    bad.append((P.where(ret), "constraint evaluation is %s although the caller's update flag was not "
                                              "tested" % ("counted" if m else "not counted"), node))
                    continue
            elif n == m and n <= 1:
                continue
            bad.append((P.where(ret), "a path returns with %d evaluation(s) dispatched but %d counted in %s" %
                        (n, m, field), node))
    return R, bad


def constructs(P, F, base, depth=0):
    """the object is the caller's fresh one at every call (an initialisation helper)"""
    if depth > 3 or base[0] != "arg" or not F.internal or F.name in P.address_taken:
        return False
    cs = list(P.callers(F.name))
    return bool(cs) and all(fresh_base(P, c.fn, P.expr(c.fn, P.args(c)[base[1]])) or
                            constructs(P, c.fn, P.expr(c.fn, P.args(c)[base[1]]), depth + 1) for c in cs)


@rule("C01", "path-sensitive typestate counting on LLVM IR + who-may-write query",
      "Every function that dispatches an evaluation on behalf of a caller, and every function that touches a counter, "
      "is explored along all feasible paths (helpers inlined); each return path must have #dispatched == #counted on "
      "the same problem, counters may otherwise only be set on freshly allocated problems, and the public getters must "
      "return exactly these counters. Loggers' own evaluation counters are advanced exactly once per evaluation.",
      ["function pointers are only stored through the struct slots resolved by the call graph",
       "no store through an unrelated type aliases the counters"])
def c01(ck):
    P = ck.P
    for slot, field in CNT.items():
        seeds = set()
        for F in P.F.values():
            for i in F.instrs():
                if i.op != "store":
                    continue
                a = is_inc(P, F, i, {field})
                if a is None:
                    continue
                ck.count("counter_writes")
                k = inc_kind(P, F, i)
                if fresh_base(P, F, a[1]):
                    continue
                if k in ("zero", "copy") and a[1][0] == "arg" and not liftable(P, F.name):
                    ck.violation("%s:%s:%s" % (F.name, field, k), P.where(i),
                                 "%s resets/overwrites the %s counter of an existing problem" % (F.name, field))
                    continue
                seeds.add(F.name)
        pub = {n for n in roots(P, slot) if not P.F[n].internal}
        if not pub:
            raise AnalysisError("no public function dispatches %s" % slot)
        seeds |= pub
        res = lift(P, sorted(seeds), lambda G: judge_count(P, slot, field, G, None)[1])
        for f, (G, bad) in res.items():
            R, bad = judge_count(P, slot, field, G, None)
            ck.count("functions_explored")
            ck.count("paths_states", R.nodes)
            ck.sample("%s: %d states, %d return states balanced" % (f, R.nodes, len(R.exits)))
            for w, m, node in bad:
                ck.violation("%s:%s" % (f, field), w, "%s: %s" % (f, m), path_of(P, G, R, node))
    from .metadata import carried
    carried(ck, P, {"evaluations", "evaluations_constraints"})
    # getters
    for g, field in (("coco_problem_get_evaluations", "evaluations"),
                     ("coco_problem_get_evaluations_constraints", "evaluations_constraints")):
        F = P.func(g)
        G = P.inline(g, lambda c: P.F[c].internal and c not in P.address_taken)
        for i in G.instrs():
            if i.op == "ret":
                ck.count("getter_returns")
                e = P.expr(G, i.ops[0])
                if e != ldf(arg(0), PROB, field):
                    ck.violation(g, P.where(i), "%s does not return the problem's own %s counter" % (g, field))
    # feasibility probes must not be counted: every direct call of a counted constraint entry from evaluation code
    # passes flag 0 unless it forwards the caller's flag
    ev = P.slot(PROB, "evaluate_constraint")
    cpub = {n for n in roots(P, "evaluate_constraint")}
    cnt_always = set()
    for n, F in P.F.items():
        for i in F.instrs():
            if i.op == "call" and P.callee(i) in cpub and len(P.args(i)) == 4 and P.args(i)[3] == 1:
                cnt_always.add(n)
    for n in sorted(P.F):
        F = P.F[n]
        if n in cpub or (not F.internal and n in cnt_always):
            continue
        in_slot = n in ev
        for i in F.instrs():
            if i.op != "call":
                continue
            s = callee_slot(P, F, i)
            c = P.callee(i)
            a = None
            if s and s[0] == PROB and s[1] == "evaluate_constraint":
                a = P.expr(F, P.args(i)[3])
            elif c in cpub and len(P.args(i)) == 4:
                a = P.expr(F, P.args(i)[3])
            elif c in cnt_always:
                a = ("c", 1)
            else:
                continue
            ck.count("constraint_dispatch_sites")
            if in_slot and a == arg(3):
                continue
            if a == ("c", 0):
                continue
            if liftable(P, n) and a[0] == "arg":
                continue
            ck.violation("%s:flag" % n, P.where(i), "%s evaluates constraints internally with a counting flag other "
                         "than 0 or the caller's flag" % n)
    # logger counters
    lc = set()
    for n in sorted(P.slot(PROB, "evaluate_function")):
        F = P.F[n]
        G = P.inline(n, lambda c: liftable(P, c) and len(list(P.F[c].instrs())) < 80 and c not in roots(P, "evaluate_constraint"))
        incs = {}
        for i in G.instrs():
            if i.op == "store":
                a = P.expr(G, i.ops[1])
                if a[0] == "fld" and a[2] != PROB and "evaluations" in a[3] and \
                        P.expr(G, i.ops[0]) == ("add", ("ld", a), ("c", 1)):
                    incs.setdefault(a, []).append(i)
        if not incs:
            continue
        evr = {f for f in roots(P, "evaluate_function") if not P.F[f].internal}
        for a, l in incs.items():
            ids = {id(x) for x in l}

            def tr(ins, st, ctx):
                if ins.op == "call" and P.callee(ins) in evr:
                    return (min(st[0] + 1, 2), st[1])
                if id(ins) in ids:
                    return (st[0], min(st[1] + 1, 2))
            R = explore(P, G, [(0, 0)], tr)
            ck.count("logger_counters")
            for ret, st, node, facts in R.exits:
                if st[0] != st[1]:
                    ck.violation("%s:%s" % (n, a[3]), P.where(ret), "%s advances its evaluation counter %s %d time(s) for "
                                 "%d evaluation(s)" % (n, a[3], st[1], st[0]), path_of(P, G, R, node))
            lc.add((a[2], a[3]))
    # nothing else sets a logger's counter, except to a number a public caller hands in
    for F in P.F.values():
        for i in F.instrs():
            if i.op != "store":
                continue
            a = P.expr(F, i.ops[1])
            if a[0] != "fld" or (a[2], a[3]) not in lc or fresh_base(P, F, a[1]):
                continue
            ck.count("logger_counter_writes")
            v = P.expr(F, i.ops[0])
            if v == ("add", ("ld", a), ("c", 1)) or v[0] in ("arg", "v"):
                continue
            if constructs(P, F, a[1]):
                continue
            ck.violation("%s:%s:set" % (F.name, a[3]), P.where(i), "%s overwrites the evaluation counter %s of a logger" % (F.name, a[3]))
    ck.need("counter_writes", 4)
    ck.need("functions_explored", 2)


# ------------------------------------------------------------------------------------------------ float classes
CL = ("nan", "ninf", "fin", "pinf")


def const_class(v):
    if isinstance(v, str) and v.startswith("0x"):
        if v.startswith("0x7FF8") or v.startswith("0xFFF8"):
            return "nan"
        if v == "0x7FF0000000000000":
            return "pinf"
        if v == "0xFFF0000000000000":
            return "ninf"
        return "fin"
    if isinstance(v, (int, float)) or (isinstance(v, str) and re.match(r"^-?\d", v)):
        return "fin"
    return None


def fcmp_class(pred, a, b):
    """truth of fcmp on float classes or None"""
    if pred == "true":
        return True
    if pred == "false":
        return False
    if a is None or b is None:
        if (a == "nan" or b == "nan"):
            return pred in ("uno", "ueq", "une", "ult", "ugt", "ule", "uge")
        return None
    if a == "nan" or b == "nan":
        return pred in ("uno", "ueq", "une", "ult", "ugt", "ule", "uge")
    if pred == "ord":
        return True
    if pred == "uno":
        return False
    o = {"ninf": 0, "fin": 1, "pinf": 2}
    x, y = o[a], o[b]
    rel = pred[1:]
    if x == y and x == 1:
        return None
    return {"eq": x == y, "ne": x != y, "lt": x < y, "gt": x > y, "le": x <= y, "ge": x >= y}[rel]


class ClassRun:
    """explores G with the decision vector x (argument xi) containing exactly one element of class `cls` (or none when
    cls == 'fin'); user state = (cur, seen, loaded classes, user)"""

    def __init__(self, P, G, xi, cls, user0, step, ybound=None, yi=None):
        self.P, self.G, self.xi, self.cls = P, G, xi, cls
        self.user0, self.step = user0, step
        self.headers = {}
        dimb = lambda e: e == ldf(arg(0), PROB, "number_of_variables")
        xl = {}
        for L in loops(G, P):
            idx = full_range(L, dimb)
            self.headers[L.header] = L
            L.xcover = None
            for nm, eb in idx:
                blocks = set()
                for b in L.body:
                    for i in G.blocks[b].instrs:
                        if i.op == "load" and P.expr(G, i.ops[0]) == ("idx", arg(xi), "double", P.expr(G, nm)):
                            blocks.add(b)
                if blocks and must_pass(G, L, blocks):
                    L.xcover = eb
            L.ycover = None
            if ybound is not None:
                for nm, eb in full_range(L, ybound):
                    blocks = set()
                    for b in L.body:
                        for i in G.blocks[b].instrs:
                            if i.op == "store" and P.expr(G, i.ops[1]) == ("idx", arg(yi), "double", P.expr(G, nm)):
                                blocks.add(b)
                    if blocks and must_pass(G, L, blocks):
                        L.ycover = eb
        self.yi = yi

    def cls_of(self, v, regs, ctx=None, n=0):
        c = const_class(v)
        if c is not None:
            return c
        if v in regs:
            return regs[v]
        if n > 8 or not is_local(v):
            return None
        d = self.G.defs.get(v)
        if d is None:
            return None
        if d.op == "call":
            c = self.P.callee(d)
            if c in ("llvm.fabs.f64", "fabs"):
                k = self.cls_of(d.ops[0], regs, ctx, n + 1)
                return "pinf" if k == "ninf" else k
        if d.op == "fneg":
            k = self.cls_of(d.ops[0], regs, ctx, n + 1)
            return {"ninf": "pinf", "pinf": "ninf"}.get(k, k)
        if d.op == "select":
            r = self.truth(d.ops[0], regs, ctx, n + 1)
            if r is not None:
                return self.cls_of(d.ops[1] if r else d.ops[2], regs, ctx, n + 1)
        if d.op == "phi" and ctx is not None:
            a = ctx.facts.get(("alias", v))
            if a is not None:
                return self.cls_of(a, regs, ctx, n + 1)
        return None

    def truth(self, v, regs, ctx, n=0):
        if isinstance(v, int):
            return v != 0
        if n > 14:
            return None
        d = self.G.defs.get(v) if is_local(v) else None
        if d is None:
            return None
        if d.op == "phi" and ctx is not None:
            a = ctx.facts.get(("alias", v))
            return self.truth(a, regs, ctx, n + 1) if a is not None else None
        if d.op == "fcmp":
            if d.ops[0] == d.ops[1]:
                k = self.cls_of(d.ops[0], regs, ctx)
                if k is not None and k != "nan":
                    return d.x["pred"] in ("oeq", "ueq", "ole", "ule", "oge", "uge", "ord")
            return fcmp_class(d.x["pred"], self.cls_of(d.ops[0], regs, ctx), self.cls_of(d.ops[1], regs, ctx))
        if d.op in ("zext", "sext", "trunc", "freeze"):
            return self.truth(d.ops[0], regs, ctx, n + 1)
        if d.op == "icmp" and d.ops[1] == 0 and d.x["pred"] in ("ne", "eq"):
            r = self.truth(d.ops[0], regs, ctx, n + 1)
            return r if r is None or d.x["pred"] == "ne" else not r
        if d.op == "select":
            r = self.truth(d.ops[0], regs, ctx, n + 1)
            if r is not None:
                return self.truth(d.ops[1] if r else d.ops[2], regs, ctx, n + 1)
            a, b = self.truth(d.ops[1], regs, ctx, n + 1), self.truth(d.ops[2], regs, ctx, n + 1)
            return a if a == b else None
        if d.op == "xor" and d.ops[1] == 1:
            r = self.truth(d.ops[0], regs, ctx, n + 1)
            return None if r is None else not r
        if d.op in ("and", "or"):
            a, b = self.truth(d.ops[0], regs, ctx, n + 1), self.truth(d.ops[1], regs, ctx, n + 1)
            if d.op == "and":
                return False if a is False or b is False else (True if a and b else None)
            return True if a or b else (False if a is False and b is False else None)
        if d.op == "call":
            c = self.P.callee(d)
            if c is not None and c.startswith("llvm.is.fpclass"):
                k = self.cls_of(d.ops[0], regs, ctx)
                if k is None:
                    return None
                m = d.ops[1]
                bits = {"nan": 3, "ninf": 4, "pinf": 512, "fin": 0x1F8}[k]
                if m & bits == bits:
                    return True
                if m & bits == 0:
                    return False
        return None

    def run(self, keep=()):
        P, G = self.P, self.G

        def is_x(ins):
            e = P.expr(G, ins.ops[0])
            while e[0] == "idx":
                e = e[1]
            return e == arg(self.xi)

        def transfer(ins, st, ctx):
            cur, seen, regs, ufill, user = st
            if ins.op == "load" and ins.ty == "double" and is_x(ins):
                rd = dict(regs)
                if self.cls == "fin":
                    rd[ins.res] = "fin"
                    return (cur, seen, frozenset(rd.items()), ufill, user)
                if cur is not None:
                    rd[ins.res] = cur
                    return (cur, seen, frozenset(rd.items()), ufill, user)
                outs = []
                r1 = dict(rd)
                r1[ins.res] = "fin"
                outs.append(("fin", seen, frozenset(r1.items()), ufill, user))
                if not seen:
                    r2 = dict(rd)
                    r2[ins.res] = self.cls
                    outs.append((self.cls, 1, frozenset(r2.items()), ufill, user))
                return outs
            if ins.op == "store" and self.yi is not None:
                e = P.expr(G, ins.ops[1])
                if e[0] == "idx" and e[1] == arg(self.yi) or e == arg(self.yi):
                    return (cur, seen, regs, self.cls_of(ins.ops[0], dict(regs), ctx) or "?", user)
            u = self.step(self, ins, st, ctx)
            if u is not None:
                return u if u == "STOP" or isinstance(u, list) else (cur, seen, regs, ufill, u)
            return None

        def on_edge(t, val, st, ctx):
            cur, seen, regs, ufill, user = st
            r = self.truth(t.ops[0], dict(regs), ctx)
            if r is not None and r != val:
                return "STOP"
            bn = t.block.name
            tgt = t.x["t"] if val else t.x["f"]
            for L in self.headers.values():
                if bn in L.body and tgt not in L.body:
                    if L.xcover == bn and self.cls != "fin" and not seen and cur != self.cls:
                        return "STOP"       # every element was examined, the special one included
                    if L.ycover == bn:
                        user = user | {("filled", ufill)}
                    if L.xcover == bn:
                        cur = None
                        user = user | {"examined"}
                        seen = 0
            return (cur, seen, regs, ufill, user)

        # reset `cur` on loop back edges: done by wrapping the step at block entry through phi-less marker
        hdr = {}
        for L in self.headers.values():
            first = next(i for i in G.blocks[L.header].instrs if i.op != "phi")
            hdr[id(first)] = L
        xfer = transfer

        def transfer2(ins, st, ctx):
            if id(ins) in hdr and hdr[id(ins)].xcover is not None:
                st = (None,) + st[1:]
                r = xfer(ins, st, ctx)
                return st if r is None else r
            return xfer(ins, st, ctx)

        return explore(P, G, [(None, 0, frozenset(), "-", frozenset(self.user0))], transfer2, on_edge=on_edge, keep=keep)


def small_inline(P, name, keep, limit=45):
    """inline small helpers, and helpers of any reasonable size that themselves evaluate a problem"""
    def want(c):
        if c in keep or P.getter(c) is not None or c in P.address_taken:
            return False
        n = len(list(P.F[c].instrs()))
        direct = any((P.callee(i) in keep) or callee_slot(P, P.F[c], i) for i in P.F[c].instrs() if i.op == "call")
        if direct:
            return n <= 300 and P.F[c].internal
        return n <= limit and not any(P.callee(i) is None for i in P.F[c].instrs() if i.op == "call")
    return P.inline(name, want)


@rule("C05", "abstract interpretation over float classes {NaN,-Inf,finite,+Inf}, path-sensitive",
      "Each public evaluation entry (objectives, constraints) and the feasibility test is interpreted over float "
      "classes with one non-finite coordinate at an arbitrary index: no path may dispatch the evaluation, and each "
      "return path must have filled all outputs with the prescribed class (or report infeasible).",
      ["exactly one coordinate is non-finite in the abstract run (several are a special case of the same loop)"])
def c05(ck):
    P = ck.P
    allroots = set(roots(P, "evaluate_function")) | set(roots(P, "evaluate_constraint"))
    for slot in ("evaluate_function", "evaluate_constraint"):
        for n in sorted(roots(P, slot)):
            F = P.F[n]
            isfeas = F.internal and F.retty == "i32"
            if F.internal and not isfeas:
                continue
            G = small_inline(P, n, allroots)
            for cls, want in (("nan", "nan"), ("pinf", "pinf"), ("ninf", "pinf")):
                def step(run, ins, st, ctx):
                    if ins.op == "call":
                        s = callee_slot(P, G, ins)
                        if s and s[0] == PROB and s[1] == slot:
                            return st[4] | {"dispatched"}
                yb = None if isfeas else (lambda e: e == ldf(arg(0), PROB, DIMS[slot]))
                R = ClassRun(P, G, 1, cls, (), step, yb, None if isfeas else 2).run()
                ck.count("abstract_runs")
                ck.count("states", R.nodes)
                if not R.exits:
                    raise AnalysisError("%s: no return path for class %s" % (n, cls))
                for ret, st, node, facts in R.exits:
                    user = st[4]
                    ck.count("return_states")
                    if "dispatched" in user:
                        ck.violation("%s:%s:dispatch" % (n, cls), P.where(ret),
                                     "%s: a point with a coordinate of class %s is passed on to the problem's %s" %
                                     (n, cls, slot), path_of(P, G, R, node))
                    elif isfeas:
                        c = ret.ops[0]
                        if is_local(c):
                            a = facts.get(("alias", c))
                            c = a if isinstance(a, int) else c
                        if c != 0:
                            ck.violation("%s:%s:feasible" % (n, cls), P.where(ret),
                                         "%s: a point with a coordinate of class %s may be reported feasible" % (n, cls),
                                         path_of(P, G, R, node))
                    else:
                        fl = {u[1] for u in user if isinstance(u, tuple) and u[0] == "filled"}
                        if not (want in fl and st[3] == want or "-" in fl and st[3] == "-"):
                            ck.violation("%s:%s:fill" % (n, cls), P.where(ret),
                                         "%s: for a coordinate of class %s not all outputs are set to %s on return" %
                                         (n, cls, want), path_of(P, G, R, node))
            ck.count("entries")
            ck.sample("%s: classes nan,+inf,-inf interpreted" % n)
    ck.need("entries", 3)


def offsets(ck, P, G, n, sites, objs, count):
    """several wrapped problems share the caller's vector: one starts at its beginning, the next where it ends"""
    place = {}

    def known(e):
        return e in count.values() or e[0] == "c" or (e[0] in ("add", "sub", "mul", "udiv", "and", "or", "shl") and
                                                      all(known(x) for x in e[1:] if isinstance(x, tuple)))
    for o, i in sites.values():
        ye = P.expr(G, P.args(i)[2])
        off = ("c", 0)
        if ye[0] == "idx" and ye[1] == arg(2):
            off = ye[3]
        elif ye != arg(2):
            continue
        while off[0] in ("cast", "zext", "sext", "trunc"):
            off = off[1]
        place.setdefault(o, set()).add((off, i))
    if not place or len(objs) > 2:
        return
    for o, l in place.items():
        others = [x for x in objs if x != o]
        for off, i in l:
            ck.count("output_offsets")
            if off == ("c", 0):
                continue
            if any(off == count[x] for x in others):
                continue
            if known(off):
                ck.violation("%s:offset" % n, P.where(i), "%s lets the wrapped problem write its result at an offset that is not the "
                             "number of outputs of the other wrapped problem" % n)
    zero = [o for o, l in place.items() if any(off == ("c", 0) for off, i in l)]
    if len(zero) > 1:
        ck.violation("%s:overlap" % n, P.where(list(sites.values())[0][1]), "%s lets two wrapped problems write their results to the "
                     "same place" % n)
    if len(place) == 2 and len(zero) == 1:
        o2 = [o for o in place if o not in zero][0]
        for off, i in place[o2]:
            if off == count[o2]:
                ck.violation("%s:offset" % n, P.where(i), "%s places the result of a wrapped problem after its own number of outputs "
                             "instead of the other problem's" % n)


@rule("C02", "path-sensitive call counting per wrapper (abstract interpretation with finite input)",
      "Every evaluation/constraint/recommendation function installed in a problem slot that delegates to wrapped "
      "problem(s) is explored on all feasible paths for finite input: each wrapped problem is evaluated exactly once "
      "on each path, with the caller's output vector (or its proper offset), and the result reaches the caller.",
      ["finite decision vectors (non-finite ones are the subject of C05)"])
def c02(ck):
    P = ck.P
    fr, cr = set(roots(P, "evaluate_function")), set(roots(P, "evaluate_constraint"))
    fpub = {n for n in fr if not P.F[n].internal}
    cpub = {n for n in cr if not P.F[n].internal}
    cfeas = {n for n in cr if P.F[n].internal}
    for slot, pub in (("evaluate_function", fpub), ("evaluate_constraint", cpub)):
        for n in sorted(P.slot(PROB, slot)):
            F = P.F[n]
            G = small_inline(P, n, fr | cr)
            # calls that evaluate a wrapped problem
            sites = {}
            for i in G.instrs():
                if i.op != "call":
                    continue
                s = callee_slot(P, G, i)
                c = P.callee(i)
                if c in pub:
                    obj = P.expr(G, P.args(i)[0])
                elif s and s[0] == PROB and s[1] == slot:
                    obj = s[2]
                else:
                    continue
                # only wrapped problems: reached through problem->data
                if not any(x == fld(arg(0), PROB, "data") for x in subexprs(obj)):
                    continue
                # an evaluation whose output is not the caller's vector is a probe (e.g. logging of constraints)
                sites[id(i)] = (obj, i)
            if not sites:
                continue
            objs = sorted({o for o, _ in sites.values()}, key=str)
            ck.count("wrappers")

            def step(run, ins, st, ctx):
                if id(ins) in sites:
                    o, _ = sites[id(ins)]
                    ye = P.expr(G, P.args(ins)[2])
                    b = ye
                    while b[0] == "idx":
                        b = b[1]
                    u = set(st[4])
                    k = "eval" if b == arg(2) else "probe"
                    if ("%s1" % k, o) in u:
                        u.add(("%s2" % k, o))
                    u.add(("%s1" % k, o))
                    # a later direct overwrite is fine; nothing else to track
                    return frozenset(u)
                if ins.op == "call":
                    c = P.callee(ins)
                    for a, ty in zip(P.args(ins), ins.optys):
                        if ty == "ptr" and is_local(a) and P.expr(G, a) == arg(2):
                            return st[4] | {"yout"}

            empt = {o: ldf(o, PROB, DIMS[slot]) for o in objs}
            offsets(ck, P, G, n, sites, objs, empt)
            R = ClassRun(P, G, 1, "fin", (), step, lambda e: e == ldf(arg(0), PROB, DIMS[slot]), 2).run(keep=set(empt.values()))
            ck.count("states", R.nodes)
            for ret, st, node, facts in R.exits:
                user = st[4]
                ck.count("return_states")
                for o in objs:
                    one, two = ("eval1", o) in user, ("eval2", o) in user
                    p1, p2 = ("probe1", o) in user, ("probe2", o) in user
                    if two or (p2 and slot == "evaluate_function"):
                        ck.violation("%s:twice" % n, P.where(ret), "%s evaluates the wrapped problem more than once on "
                                     "a path" % n, path_of(P, G, R, node))
                    elif not one:
                        # stacked problems: allowed when this part has no outputs
                        if facts.get(("=", empt[o])) == 0:
                            continue
                        # a box-enforcing wrapper may reject the point: all outputs +inf
                        if ("filled", st[3]) in user and st[3] in ("pinf", "-"):
                            continue
                        ck.violation("%s:skipped" % n, P.where(ret), "%s returns for a finite point without evaluating "
                                     "the wrapped problem into the caller's output" % n, path_of(P, G, R, node))
            # a NaN coordinate that is intercepted by the wrapper itself must still define every output
            R2 = ClassRun(P, G, 1, "nan", (), step, lambda e: e == ldf(arg(0), PROB, DIMS[slot]), 2).run()
            for ret, st, node, facts in R2.exits:
                user = st[4]
                ck.count("nan_return_states")
                if any(isinstance(u, tuple) and u[0] == "eval1" for u in user):
                    continue
                if any(isinstance(u, tuple) and u[0] == "filled" for u in user):
                    continue
                if facts.get(("=", ldf(arg(0), PROB, DIMS[slot]))) == 0:
                    continue
                if "examined" in user or len(objs) > 1:
                    continue
                ck.violation("%s:nan" % n, P.where(ret), "%s intercepts a NaN point but does not define all %s output(s)"
                             % (n, DIMS[slot]), path_of(P, G, R2, node))
            ck.sample("%s: %d wrapped object(s), %d states" % (n, len(objs), R.nodes))
    ck.need("wrappers", 30)


# ------------------------------------------------------------------------------------------------ C06
BF, BE = "best_observed_fvalue", "best_observed_evaluation"


def better_of(facts, y, best):
    for k, pos in ((("folt", y, best), True), (("fogt", best, y), True), (("fuge", y, best), False),
                   (("fule", best, y), False)):
        if k in facts:
            return facts[k] == pos
    return None


def judge_best(P, G, feas):
    best = ldf(arg(0), PROB, BF)
    y0 = ("ld", arg(2))
    nc = ldf(arg(0), PROB, "number_of_constraints")

    def note(st, ctx):
        d = dict(st)
        b = better_of(ctx.facts, y0, best)
        if b is not None and "better" not in d:
            d["better"] = b
        c = ctx.econst(nc)
        if c == 0:
            d["cons"] = False
        elif 0 in ctx.facts.get(("ne", nc), ()):
            d["cons"] = True
        if "fcall" in d and "feas" not in d:
            e = ("v", d["fcall"])
            c = ctx.econst(e)
            if c is not None:
                d["feas"] = c != 0
            elif 0 in ctx.facts.get(("ne", e), ()):
                d["feas"] = True
        return frozenset(d.items())

    def transfer(ins, st, ctx):
        if ins.op == "call":
            s = callee_slot(P, G, ins)
            if s and s[0] == PROB and s[1] == "evaluate_function" and s[2] == arg(0):
                return frozenset({("disp", 1)})
            if P.callee(ins) in feas and ins.res:
                d = dict(st)
                if P.expr(G, P.args(ins)[0]) == arg(0) and P.expr(G, P.args(ins)[1]) == arg(1):
                    d["fcall"] = ins.res
                    d.pop("feas", None)
                return frozenset(d.items())
        elif ins.op == "store":
            a = P.expr(G, ins.ops[1])
            if a == fld(arg(0), PROB, "evaluations"):
                d = dict(st)
                d["inc"] = 1
                return frozenset(d.items())
            if a[0] == "fld" and a[2] == PROB and a[3] in (BF, BE) and not fresh_base(P, G, a[1]):
                d = dict(note(st, ctx))
                v = P.expr(G, ins.ops[0])
                if a[1] != arg(0) or "disp" not in d:
                    d["bad"] = (P.where(ins), "writes %s outside an evaluation of that problem" % a[3])
                elif a[3] == BF:
                    if v != y0:
                        d["bad"] = (P.where(ins), "records something else than the first objective value")
                    elif d.get("better") is not True:
                        d["bad"] = (P.where(ins), "records a value not known to be strictly better than the recorded one")
                    elif d.get("cons") is not False and d.get("feas") is not True:
                        d["bad"] = (P.where(ins), "records a point that was not found feasible")
                    d["F"] = 1
                else:
                    if v != ldf(arg(0), PROB, "evaluations"):
                        d["bad"] = (P.where(ins), "records a wrong evaluation number")
                    elif "inc" not in d:
                        d["bad"] = (P.where(ins), "records the evaluation number before it was advanced")
                    d["E"] = 1
                return frozenset(d.items())

    def on_edge(t, val, st, ctx):
        return note(st, ctx)

    R = explore(P, G, [frozenset()], transfer, on_edge=on_edge, keep={best, y0, nc})
    bad = []
    for ret, st, node, facts in R.exits:
        d = dict(st)
        if "bad" in d:
            bad.append((d["bad"][0], d["bad"][1], node))
            continue
        if "disp" not in d:
            continue
        if ("F" in d) != ("E" in d):
            bad.append((P.where(ret), "updates only one of the best value and its evaluation number", node))
        elif "F" not in d:
            if d.get("better") is False:
                continue
            if d.get("better") is True and d.get("cons") is not False and d.get("feas") is False:
                continue
            bad.append((P.where(ret), "may return without recording a strictly better feasible value", node))
    return R, bad


@rule("C06", "path-sensitive typestate on LLVM IR + expression normal forms",
      "All writers of the best-observed record are found; on every path of the evaluation entry the record is updated "
      "iff the new first objective value is strictly smaller and the point is feasible, together with the evaluation "
      "number after counting; getters and the target-hit predicate are compared against their definition.",
      ["the output vector is not modified between comparison and recording"])
def c06(ck):
    P = ck.P
    cr = roots(P, "evaluate_constraint")
    feas = {n for n in cr if P.F[n].internal and P.F[n].retty == "i32"}
    if not feas:
        raise AnalysisError("feasibility predicate not found")
    seeds = {n for n in roots(P, "evaluate_function") if not P.F[n].internal}
    for F in P.F.values():
        for i in F.instrs():
            if i.op == "store":
                a = P.expr(F, i.ops[1])
                if a[0] == "fld" and a[2] == PROB and a[3] in (BF, BE):
                    ck.count("record_writes")
                    if not fresh_base(P, F, a[1]):
                        seeds.add(F.name)
    keep = set(cr) | feas
    res = lift(P, sorted(seeds), lambda G: judge_best(P, G, feas)[1],
               base_want=lambda c: False)
    for f, (G, bad) in res.items():
        R, bad = judge_best(P, G, feas)
        ck.count("functions_explored")
        ck.count("paths_states", R.nodes)
        for w, m, node in bad:
            ck.violation("%s:best" % f, w, "%s %s" % (f, m), path_of(P, G, R, node))
    # the feasibility predicate itself: returns nonzero only if no constraint value is > 0
    for n in sorted(feas):
        G = P.inline(n, lambda c: False)
        slotcalls = [i for i in G.instrs() if i.op == "call" and callee_slot(P, G, i)]
        nc = lambda e: e == ldf(arg(0), PROB, "number_of_constraints")
        ok = False
        for L in loops(G, P):
            for nm, eb in full_range(L, nc):
                cmps = [i for b in L.body for i in G.blocks[b].instrs if i.op == "fcmp"]
                for c in cmps:
                    a, b = P.expr(G, c.ops[0]), P.expr(G, c.ops[1])
                    z = ("k", "0.000000e+00")
                    hit = (b == z and c.x["pred"] in ("ogt", "ugt")) or (a == z and c.x["pred"] in ("olt", "ult"))
                    v = a if b == z else b
                    if hit and v[0] == "ld" and v[1][0] == "idx" and v[1][3] == P.expr(G, nm) and \
                            must_pass(G, L, {c.block.name}):
                        ok = True
        ck.count("feasibility_predicates")

        # returning nonzero after a positive constraint was seen?
        def tr(ins, st, ctx):
            return None

        def oe(t, val, st, ctx):
            d = G.defs.get(t.ops[0]) if is_local(t.ops[0]) else None
            if d is not None and d.op == "fcmp":
                a, b = P.expr(G, d.ops[0]), P.expr(G, d.ops[1])
                z = ("k", "0.000000e+00")
                if b == z and d.x["pred"] in ("ogt", "ugt") or a == z and d.x["pred"] in ("olt", "ult"):
                    return 1 if val else st
            return st
        R = explore(P, G, [0], tr, on_edge=oe)
        for ret, st, node, facts in R.exits:
            c = ret.ops[0]
            if is_local(c):
                c2 = facts.get(("alias", c))
                c = c2 if isinstance(c2, int) else c
            if st == 1 and c != 0:
                ok = False
        if not ok:
            ck.violation("%s:predicate" % n, P.where(slotcalls[0]) if slotcalls else n,
                         "%s does not test every constraint value for being <= 0" % n)
    from .metadata import carried
    carried(ck, P, {BF, BE, "final_target_delta", "best_value"})
    # getters
    gets = {"coco_problem_get_best_observed_fvalue1": ldf(arg(0), PROB, BF)}
    bv = ("ld", ldf(arg(0), PROB, "best_value"))
    tgt = ldf(arg(0), PROB, "final_target_delta")
    sums = {("fadd", bv, tgt), ("fadd", tgt, bv)}
    for g, want in (("coco_problem_get_best_observed_fvalue1", {ldf(arg(0), PROB, BF)}),
                    ("coco_problem_get_final_target_fvalue1", sums),
                    ("coco_problem_get_best_value", {bv})):
        G = P.inline(g, lambda c: P.F[c].internal and c not in P.address_taken)
        for i in G.instrs():
            if i.op == "ret":
                ck.count("getter_returns")
                if P.expr(G, i.ops[0]) not in want:
                    ck.violation(g, P.where(i), "%s does not return its defining value" % g)
    # target hit
    g = "coco_problem_final_target_hit"
    G = P.inline(P.func(g), lambda c: P.getter(c) is None and P.F[c].internal and c not in P.address_taken)
    ev = ldf(arg(0), PROB, "evaluations")
    no = ldf(arg(0), PROB, "number_of_objectives")
    bo = ldf(arg(0), PROB, BF)

    def hitfact(facts):
        for s in sums:
            for k, pos in ((("fole", bo, s), True), (("foge", s, bo), True), (("fugt", bo, s), False),
                           (("fult", s, bo), False)):
                if k in facts:
                    return facts[k] == pos
        return None

    def tr2(ins, st, ctx):
        return None

    def oe2(t, val, st, ctx):
        d = dict(st)
        h = hitfact(ctx.facts)
        if h is not None:
            d["hit"] = h
        c = ctx.econst(ev)
        if c == 0:
            d["ev"] = False
        elif 0 in ctx.facts.get(("ne", ev), ()):
            d["ev"] = True
        c = ctx.econst(no)
        if c is not None:
            d["no"] = c == 1
        elif 1 in ctx.facts.get(("ne", no), ()):
            d["no"] = False
        bvp = ldf(arg(0), PROB, "best_value")
        c = ctx.econst(bvp)
        if c == 0:
            d["nobest"] = True
        return frozenset(d.items())
    R = explore(P, G, [frozenset()], tr2, on_edge=oe2, keep={ev, no, bo})
    for ret, st, node, facts in R.exits:
        d = dict(st)
        ck.count("target_hit_returns")
        v = ret.ops[0]
        n = 0
        neg = False
        direct = False
        while is_local(v) and n < 12:
            n += 1
            a = facts.get(("alias", v))
            if a is not None:
                v = a
                continue
            dd = G.defs.get(v)
            if dd is not None and dd.op in ("zext", "sext", "phi") and (dd.op != "phi" or len(dd.ops) == 1):
                v = dd.ops[0]
                continue
            break
        dd = G.defs.get(v) if is_local(v) else None
        tv, fv = None, None
        if isinstance(v, int):
            val = v != 0
        else:
            val = None
            cd = dd
            if dd is not None and dd.op == "select" and dd.ops[1:] == [1, 0]:
                cd = G.defs.get(dd.ops[0])
            if cd is not None and cd.op == "fcmp":
                a, b = P.expr(G, cd.ops[0]), P.expr(G, cd.ops[1])
                p = cd.x["pred"]
                direct = (p == "ole" and a == bo and b in sums) or (p == "oge" and b == bo and a in sums)
        good = d.get("ev") is True and d.get("no") is True
        if direct:
            if not good:
                ck.violation(g + ":guard", P.where(ret), "%s consults the record without an evaluation or for several "
                             "objectives" % g)
        elif val is True:
            if not (good and d.get("hit") is True):
                ck.violation(g + ":true", P.where(ret), "%s may report a hit although best <= optimum + precision was "
                             "not established after at least one evaluation" % g, path_of(P, G, R, node))
        elif val is False:
            if not (d.get("ev") is False or d.get("no") is False or d.get("hit") is False or d.get("nobest")):
                ck.violation(g + ":false", P.where(ret), "%s may deny a hit without cause" % g, path_of(P, G, R, node))
        else:
            ck.violation(g + ":value", P.where(ret), "%s does not return the comparison of the best observed value with "
                         "optimum + target precision" % g)
    ck.need("record_writes", 2)
