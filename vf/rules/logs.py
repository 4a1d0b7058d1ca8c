"""C25: what the loggers promise about their data files: first evaluation, fired triggers, best-so-far, final state."""
import re
from collections import namedtuple
from ..check import rule
from ..core import is_local, subexprs, subst
from ..build import AnalysisError
from ..esp import explore, noreturn_set
from ..flow import ext_name
from ..sccp import Sccp
from ..util import PROB, TDATA, loops, full_range, must_pass, path_of, freers

BBOB, OLD, RW = "struct.logger_bbob_data_t", "struct.logger_bbob_old_data_t", "struct.logger_rw_data_t"
TOY, BIOBJ, IND = "struct.logger_toy_data_t", "struct.logger_biobj_data_t", "struct.logger_biobj_indicator_t"
COUNT = {BBOB: "num_func_evaluations", OLD: "number_of_evaluations", RW: "num_func_evaluations"}
# file -> (marker, kind): 'eval' holds the number of the last evaluation written, 'flag' whether this one was written
MARK = {BBOB: {"dat_file": ("last_logged_eval_dat", "eval"), "tdat_file": ("last_logged_eval_tdat", "eval"),
               "mdat_file": ("last_logged_eval_mdat", "eval")},
        OLD: {"tdata_file": ("written_last_eval", "flag")}, RW: {},
        IND: {"dat_file": ("target_hit", "flag"), "tdat_file": ("evaluation_logged", "flag")}}
FINAL = {BBOB: {"dat_file": False, "tdat_file": False, "mdat_file": True}, OLD: {"tdata_file": False},
         IND: {"dat_file": False, "tdat_file": False}}
BEST = {BBOB: {"best_found_value": "best_found_solution", "best_recommended_value": "best_recommended_solution"},
        OLD: {"best_fvalue": "best_solution"}, RW: {"best_value": None}}
WRITERS = {"fprintf": 0, "fputs": 1, "fputc": 1, "fwrite": 3, "vfprintf": 0, "putc": 1}
St = namedtuple("St", "first pend wr mk best copied lt evs held tc")
TRIG_T = re.compile(r"struct\.coco_observer_\w*(targets|evaluations)_t$")


def stream(P, F, i):
    """canonical stream expression an instruction certainly writes to, or None"""
    c = ext_name(P.callee(i) or "")
    if c in WRITERS and WRITERS[c] < len(P.args(i)):
        return P.expr(F, P.args(i)[WRITERS[c]])
    return None


def line_writers(P):
    """function -> parameter index of the stream it writes to on every path to its return"""
    out = {}
    ch = True
    nr = noreturn_set(P)
    while ch:
        ch = False
        for n, F in P.F.items():
            if n in out or n in nr:
                continue
            for k, p in enumerate(F.params):
                if p[0] != "ptr":
                    continue
                blocks = set()
                for i in F.instrs():
                    if i.op != "call":
                        continue
                    e = stream(P, F, i)
                    if e is None and P.callee(i) in out and out[P.callee(i)] < len(P.args(i)):
                        e = P.expr(F, P.args(i)[out[P.callee(i)]])
                    if e == ("arg", k):
                        blocks.add(i.block.name)
                if not blocks:
                    continue
                seen, st, ok = set(), [F.order[0]], True
                while st and ok:
                    b = st.pop()
                    if b in seen or b in blocks:
                        continue
                    seen.add(b)
                    if F.blocks[b].term.op == "ret":
                        ok = False
                    if any(i.op == "call" and P.callee(i) in nr for i in F.blocks[b].instrs):
                        continue
                    st.extend(F.blocks[b].succs)
                if ok:
                    out[n] = k
                    ch = True
                    break
    return out


def trig_stores(P, F, only=None):
    """(stored fields) of the trigger object given as argument 0"""
    out = set()
    for i in F.instrs():
        if i.op == "store":
            a = P.expr(F, i.ops[1])
            if a[0] == "fld" and TRIG_T.match(a[2]):
                r = a
                while r[0] in ("fld", "ld", "idx"):
                    r = r[1]
                if r == ("arg", 0):
                    out.add(a)
    return out


def steppers(P):
    """internal helpers without a verdict of their own that move a trigger on: not i32, or not given the trigger first"""
    out = set()
    for n, F in P.F.items():
        if not F.internal or n in P.address_taken or F.retty == "i32":
            continue
        for i in F.instrs():
            if i.op == "store":
                a = P.expr(F, i.ops[1])
                r = a
                while r[0] in ("fld", "ld", "idx"):
                    r = r[1]
                if a[0] == "fld" and TRIG_T.match(a[2]) and r[0] == "arg":
                    out.add(n)
    return out


def triggers(P):
    """functions that consume a trigger: change the trigger object they are given and tell whether it fired"""
    T = {}
    H = steppers(P)
    for n, F in P.F.items():
        if F.retty != "i32" or not F.params or F.params[0][0] != "ptr":
            continue
        G = F
        if any(i.op == "call" and P.callee(i) in H for i in F.instrs()):
            G = P.inline(n, lambda c: c in H)
        for a in trig_stores(P, G):
            if a[1] == ("arg", 0):
                T[n] = "evaluations" if "evaluations" in a[2] else "targets"
    ch = True
    while ch:
        ch = False
        for n, F in P.F.items():
            if n in T or F.retty != "i32" or not F.params or F.params[0][0] != "ptr" or not F.internal or n in P.address_taken:
                continue
            for i in F.instrs():
                if i.op == "call" and P.callee(i) in T:
                    e = P.expr(F, P.args(i)[0])
                    r = e
                    while r[0] in ("ld", "fld", "idx"):
                        r = r[1]
                    st = [x[2] for x in subexprs(e) if x[0] == "fld"]
                    if r == ("arg", 0) and all(TRIG_T.match(s) for s in st):
                        T[n] = T[P.callee(i)]
                        ch = True
                        break
    return T


def log_field(e, S):
    """field name f if e is the value of a field of the logger data struct S"""
    if e[0] == "ld" and e[1][0] == "fld" and e[1][2] == S:
        return e[1][3]
    return None


def deep_reach(P, n, pred, depth=0, seen=None):
    seen = set() if seen is None else seen
    if n in seen or n not in P.F or depth > 4:
        return False
    seen.add(n)
    F = P.F[n]
    if any(pred(F, i) for i in F.instrs()):
        return True
    return any(deep_reach(P, P.callee(i), pred, depth + 1, seen) for i in F.instrs()
               if i.op == "call" and P.callee(i) in P.F)


class Logger:
    def __init__(self, ck, P, S, W, T):
        self.ck, self.P, self.S, self.W, self.T = ck, P, S, W, T
        self.marks = MARK.get(S, {})
        self.best = BEST.get(S, {})
        sols = {v for v in self.best.values() if v}
        self.fill = {P.callee(i) for F in P.F.values() for i in F.instrs() if i.op == "call" and P.callee(i) in P.F and
                     P.callee(i) not in freers(P) and P.callee(i) not in W and
                     any(log_field(P.expr(F, a), S) in sols for a in P.args(i) if is_local(a))}

    def event(self, F, i):
        P = self.P
        if i.op == "store":
            a = P.expr(F, i.ops[1])
            return a[0] == "fld" and a[2] == self.S and (a[3] in self.best or a[3] in {m for m, _ in self.marks.values()} or
                                                         a[3] == COUNT.get(self.S))
        if i.op == "call":
            c = P.callee(i)
            if c in self.T:
                return True
            if c == "fclose":
                return log_field(P.expr(F, P.args(i)[0]), self.S) in FINAL.get(self.S, {})
            if c in self.W:
                return self.file_of(F, i) is not None
            e = stream(P, F, i)
            return e is not None and log_field(e, self.S) is not None
        return False

    def file_of(self, F, i):
        P = self.P
        if i.op != "call":
            return None
        e = stream(P, F, i)
        if e is None and P.callee(i) in self.W and self.W[P.callee(i)] < len(P.args(i)):
            e = P.expr(F, P.args(i)[self.W[P.callee(i)]])
        return log_field(e, self.S) if e is not None else None

    def opened(self, name):
        """the callback with every helper opened that takes part in logging"""
        P = self.P

        def opens(F, i):        # setting the files up (headers are not log lines)
            return i.op == "call" and P.callee(i) == "fopen"

        def want(c):
            if c in self.T or c in self.W:
                return False
            if P.getter(c) is not None:
                return True
            if not P.F[c].internal or c in P.address_taken:
                return False
            if c in self.fill and len(list(P.F[c].instrs())) < 60:
                return True
            return deep_reach(P, c, self.event) and not deep_reach(P, c, opens)
        return P.inline(name, want)

    def copies(self, G):
        """header blocks of loops (and calls) that copy the whole point x into a solution field"""
        P = self.P
        sols = {v: k for k, v in self.best.items() if v}
        heads, calls = {}, {}

        def nvar(e):
            return e[0] == "ld" and e[1][0] == "fld" and e[1][3] == "number_of_variables"
        for L in loops(G, P):
            for nm, tb in full_range(L, nvar):
                for b in L.body:
                    for i in G.blocks[b].instrs:
                        if i.op != "store":
                            continue
                        a, v = P.expr(G, i.ops[1]), P.expr(G, i.ops[0])
                        ix = {("v", nm), P.expr(G, nm)}
                        if a[0] == "idx" and log_field(a[1], self.S) in sols and a[3] in ix and v[0] == "ld" and \
                                v[1][0] == "idx" and v[1][1] == ("arg", 1) and v[1][3] in ix and must_pass(G, L, {b}):
                            heads[(tb, L.header)] = (L, sols[log_field(a[1], self.S)])
        for i in G.instrs():
            if i.op == "call" and ext_name(P.callee(i) or "") in ("memcpy", "memmove"):
                a = P.args(i)
                d, s, n = P.expr(G, a[0]), P.expr(G, a[1]), P.expr(G, a[2])
                if log_field(d, self.S) in sols and s == ("arg", 1) and any(
                        isinstance(x, tuple) and nvar(x) for x in n[1:]):
                    calls[id(i)] = sols[log_field(d, self.S)]
        return heads, calls

    def num(self, e):
        c = COUNT.get(self.S, "?")
        if e[0] == "add" and e[2] == ("c", 1):
            e = e[1]
        return log_field(e, self.S) == c

    def cond(self, G, v, ctx, n=0):
        """resolve a branch condition to (definition, polarity) through phis, negations and widenings"""
        pos = True
        while n < 20:
            n += 1
            a = ctx.facts.get(("alias", v))
            if a is not None:
                v = a
                continue
            d = G.defs.get(v) if is_local(v) else None
            if d is None:
                return v, None, pos
            if d.op in ("zext", "sext", "trunc", "freeze"):
                v = d.ops[0]
                continue
            if d.op == "xor" and d.ops[1] in (1, True, "true"):
                v, pos = d.ops[0], not pos
                continue
            if d.op == "icmp" and d.ops[1] == 0 and d.x["pred"] in ("eq", "ne") and is_local(d.ops[0]):
                inner = self.cond(G, d.ops[0], ctx, n)
                if d.x["pred"] == "eq":
                    pos = not pos
                return inner[0], inner[1], pos == inner[2]
            return v, d, pos
        return v, None, pos

    def any_stream(self, G, i):
        P = self.P
        e = stream(P, G, i)
        if e is None and i.op == "call" and P.callee(i) in self.W and self.W[P.callee(i)] < len(P.args(i)):
            e = P.expr(G, P.args(i)[self.W[P.callee(i)]])
        return e is not None and e[0] == "ld" and e[1][0] == "fld"

    def heeded(self, name):
        """a fired trigger is followed by a line (triggers whose outcome is kept in a field included)"""
        ck, P = self.ck, self.P
        T, W = self.T, self.W

        def ev(F, i):
            return i.op == "call" and (P.callee(i) in T or self.any_stream(F, i))

        def opens(F, i):
            return i.op == "call" and P.callee(i) == "fopen"

        def want(c):
            if c in T or c in W or not P.F[c].internal or c in P.address_taken:
                return P.getter(c) is not None and c not in T
            return deep_reach(P, c, ev) and not deep_reach(P, c, opens)
        G = P.inline(name, want)
        trig = {i.res: i for i in G.instrs() if i.op == "call" and P.callee(i) in T}
        if not trig:
            return
        users = {o for i in G.instrs() for o in i.ops if is_local(o)}
        for r, i in trig.items():
            ck.count("trigger consultations")
            if r is None or r not in users:
                ck.violation("ignored:%s" % name, P.where(i), "%s consumes a trigger and ignores whether it fired" % name)

        verdicts = {(a[2], a[3]) for i in G.instrs() if i.op == "store" and i.ops[0] in trig
                    for a in [P.expr(G, i.ops[1])] if a[0] == "fld"}

        def tr(ins, st, ctx):
            pend, held, new = st
            if ins.op == "call":
                if self.any_stream(G, ins):
                    ck.count("writes of log lines")
                    return (0, held, new)
                return None
            if ins.op == "store":
                a = P.expr(G, ins.ops[1])
                if a[0] == "fld":
                    h = frozenset(x for x in held if x != a[3])
                    if ins.ops[0] in trig:
                        h |= {a[3]}
                    return (pend, h, new | {(a[2], a[3])} if (a[2], a[3]) in verdicts else new)
            return None

        def oe(t, val, st, ctx):
            v, d, pos = self.cond(G, t.ops[0], ctx)
            hit = isinstance(v, str) and v in trig
            if not hit and d is not None and d.op == "load":
                a = P.expr(G, d.ops[0])
                hit = a[0] == "fld" and a[3] in st[1]
                if a[0] == "fld" and (a[2], a[3]) in verdicts and (a[2], a[3]) not in st[2]:
                    stale[P.where(d)] = a[3]
            if hit:
                return (1 if val == pos else st[0], st[1], st[2])
            return st
        stale = {}
        R = explore(P, G, [(0, frozenset(), frozenset())], tr, on_edge=oe)
        for w, f in sorted(stale.items()):
            ck.violation("%s:stale:%s" % (name, f), w, "%s decides on a line by the verdict %s of an earlier evaluation" % (name, f))
        ck.count("paths_states", R.nodes)
        ck.count("callbacks explored")
        for ret, st, node, facts in R.exits:
            ck.count("return states judged")
            if st[0]:
                ck.violation("%s:trigger" % name, P.where(ret), "%s can return with a fired trigger and no line written" % name,
                             path_of(P, G, R, node))

    def judge(self, name, role):
        """role: 'evaluate' | 'recommend' | 'free'"""
        ck, P, S = self.ck, self.P, self.S
        G = self.opened(name)
        heads, calls = self.copies(G)
        trig = {i.res: (i, self.T[P.callee(i)]) for i in G.instrs() if i.op == "call" and P.callee(i) in self.T}
        users = {o for i in G.instrs() for o in i.ops if is_local(o)}
        for r, (i, k) in trig.items():
            ck.count("trigger consultations")
            if r is None or r not in users:
                ck.violation("ignored:%s" % name, P.where(i), "%s consumes a trigger and ignores whether it fired" % name)
        bad = []
        mfield = {m: (f, k) for f, (m, k) in self.marks.items()}
        count = COUNT.get(S)
        numk = {("ld", ("fld", b, S, count or "?")) for i in G.instrs() if i.op == "load"
                for b in [(lambda a: a[1] if a[0] == "fld" and a[2] == S else None)(P.expr(G, i.ops[0]))] if b}
        keep = set(numk)
        for b in {x[1][1] for x in numk}:
            for m in mfield:
                keep.add(("ld", ("fld", b, S, m)))

        def tr(ins, st, ctx):
            if ins.op == "call":
                c = P.callee(ins)
                if c in self.T and self.T[c] == "evaluations":
                    return st._replace(evs=min(st.evs + 1, 3))
                if c in self.T:
                    return st._replace(tc=1)
                if id(ins) in calls:
                    return st._replace(copied=st.copied | {calls[id(ins)]})
                f = self.file_of(G, ins)
                if f:
                    ck.count("writes of log lines")
                    return st._replace(wr=st.wr | {f}, pend=0)
                if role == "free" and c == "fclose":
                    e = ctx.resolve(P.expr(G, P.args(ins)[0]))
                    f = log_field(e, S)
                    if f in FINAL.get(S, {}):
                        ck.count("files closed")
                        if f not in st.wr and not self.final_ok(ctx, e, f):
                            bad.append((P.where(ins), "final:%s" % f, "closes the %s without the line of the final state, although "
                                        "the last evaluation may not have been written to it" % f, None))
                        M = ("ld", ("fld", e[1][1], S, self.marks[f][0]))
                        for key in [x for x in ctx.facts if x[0] != "alias" and M in x[1:]]:
                            del ctx.facts[key]          # this file is done with
                        return st._replace(wr=st.wr - {f})
                return None
            if ins.op == "store":
                a = P.expr(G, ins.ops[1])
                if a[0] != "fld" or a[2] != S:
                    return None
                v = P.expr(G, ins.ops[0])
                if a[3] in mfield and role != "free":
                    f, k = mfield[a[3]]
                    r = ctx.resolve(v)
                    if k == "flag":
                        return st._replace(mk=(st.mk - {(f, 0), (f, 1)}) | {(f, 0 if r == ("c", 0) else 1)})
                    if log_field(r, S) != COUNT[S] and not self.num(r):
                        bad.append((P.where(ins), "mark:%s" % f, "notes something else than the current evaluation number in %s" % a[3], None))
                    return st._replace(mk=st.mk | {(f, 1)})
                if a[3] in self.best and role != "free":
                    ck.count("updates of the best value")
                    if not st.first == 1 and not any(b == a[3] and self.same(e, v, ctx) for b, e in st.lt):
                        bad.append((P.where(ins), "best:%s" % a[3], "may overwrite %s although the new value was not found to be "
                                    "better" % a[3], None))
                    return st._replace(best=st.best | {a[3]})
            return None

        def on_edge(t, val, st, ctx):
            v, d, pos = self.cond(G, t.ops[0], ctx)
            true = (val == pos)
            if isinstance(v, str) and v in trig:
                return st._replace(pend=1 if true else st.pend)
            if d is not None and d.op == "icmp":
                a, b, pr = P.expr(G, d.ops[0]), P.expr(G, d.ops[1]), d.x["pred"]
                if b[0] != "c":
                    a, b = b, a
                    pr = {"ult": "ugt", "ugt": "ult", "ule": "uge", "uge": "ule"}.get(pr, pr)
                if b[0] == "c" and self.num(ctx.resolve(a)):
                    one = {("eq", 1): 1, ("ne", 1): 0, ("ult", 2): 1, ("ule", 1): 1, ("ugt", 1): 0, ("uge", 2): 0}.get((pr, b[1]))
                    if one is not None:
                        st = st._replace(first=one if true else 1 - one)
            if d is not None and d.op == "fcmp":
                a, b, pr = P.expr(G, d.ops[0]), P.expr(G, d.ops[1]), d.x["pred"]
                if log_field(a, S) in self.best and log_field(b, S) not in self.best:
                    a, b = b, a
                    pr = {"olt": "ogt", "ogt": "olt", "ole": "oge", "oge": "ole", "ult": "ugt", "ugt": "ult", "ule": "uge",
                          "uge": "ule"}.get(pr, pr)
                f = log_field(b, S)
                if f in self.best:
                    lt = {"olt": True, "ult": True, "oge": False, "uge": False}.get(pr)
                    if lt is not None and true == lt:
                        st = st._replace(lt=st.lt | {(f, a)})
            for (tb, hd), (L, f) in heads.items():
                if t.block.name == tb and (t.x["t"] if val else t.x["f"]) not in L.body:
                    st = st._replace(copied=st.copied | {f})
            return st
        z = frozenset()
        R = explore(P, G, [St(-1, 0, z, z, z, z, z, 0, z, 0)], tr, on_edge=on_edge, keep=keep if role == "free" else ())
        ck.count("paths_states", R.nodes)
        ck.count("callbacks explored")
        has_targets = any(k == "targets" for _, k in trig.values())
        has_eval = any(k == "evaluations" for _, k in trig.values())
        for ret, st, node, facts in R.exits:
            if role == "free":
                continue
            w = P.where(ret)
            ck.count("return states judged")
            if st.pend:
                bad.append((w, "trigger", "can return with a fired trigger and no line written", node))
            if has_eval and st.evs != 1:
                bad.append((w, "evaluations", "consults the trigger on the number of evaluations %s per evaluation" %
                            ("not" if st.evs == 0 else "more than once"), node))
            if st.best and has_targets and st.first != 1 and not st.tc:
                bad.append((w, "unasked", "can take over a better value without asking the trigger on targets", node))
            if role == "evaluate" and st.first != 0 and not st.wr and self.S in COUNT:
                bad.append((w, "first", "can return without a line for what may be the first evaluation", node))
            for f, (m, k) in self.marks.items():
                wrote, mk = f in st.wr, [x for g, x in st.mk if g == f]
                if k == "eval" and wrote != bool(mk):
                    bad.append((w, "pair:%s" % f, ("writes to the %s without noting it in %s" if wrote else
                                "does not write to the %s but notes that in %s") % (f, m), node))
                elif k == "flag" and role == "evaluate" and (mk != [1 if wrote else 0]):
                    bad.append((w, "pair:%s" % f, "leaves %s wrong after %s the %s" % (m, "writing" if wrote else "not writing", f), node))
            for b, sol in self.best.items():
                if any(g == b for g, _ in st.lt) and b not in st.best:
                    bad.append((w, "missed:%s" % b, "found a better value but does not take it over as %s" % b, node))
                if sol and (b in st.best) != (b in st.copied):
                    bad.append((w, "solution:%s" % b, "%s and %s are not updated together (completely)" % (b, sol), node))
        for w, key, msg, node in bad:
            ck.violation("%s:%s" % (name, key), w, "%s %s" % (name, msg), path_of(P, G, R, node) if node else None)
        return R

    def same(self, a, b, ctx):
        return a == b or ctx.resolve(a) == ctx.resolve(b)

    def final_ok(self, ctx, e, f):
        S = self.S
        base = e[1][1]
        m, k = self.marks[f]
        if k == "flag":
            M = ("ld", ("fld", base, S, m))
            c = ctx.facts.get(("=", M))
            return (c is not None and c != 0) or 0 in ctx.facts.get(("ne", M), ())
        M, N = ("ld", ("fld", base, S, m)), ("ld", ("fld", base, S, COUNT[S]))
        if ctx.facts.get(("eq", M, N)) or ctx.facts.get(("eq", N, M)):
            return True
        if ctx.facts.get(("=", N)) is not None and ctx.facts.get(("=", N)) in (0, ctx.facts.get(("=", M))):
            return True             # nothing evaluated, or both known and equal
        if FINAL[S][f] and ctx.facts.get(("=", M)) == 0:
            return True
        return False


def callbacks(P, S):
    """(evaluate, recommend, free) functions of the logger whose data have type S: found through the slots and the type of
    the data they work on"""
    out = {"evaluate": set(), "recommend": set(), "free": set()}
    uses = {}

    def touches(F, i):
        return i.op in ("load", "store") and (lambda s: bool(s) and s[0] == "f" and s[1] == S)(
            P.slot_of_addr(F, i.ops[0 if i.op == "load" else 1]))
    for role, slot in (("evaluate", "evaluate_function"), ("recommend", "recommend_solution")):
        for t in P.slot(PROB, slot):
            if t in P.F and deep_reach(P, t, touches):
                out[role].add(t)
    for t in P.slot(TDATA, "data_free_function"):
        if t in P.F and deep_reach(P, t, touches):
            out["free"].add(t)
    return out


@rule("C25", "path-sensitive typestate on LLVM IR (trigger, line, marker and best-value protocol of the loggers)",
      "The evaluation, recommendation and closing callbacks of the bbob, bbob-old and rw loggers are explored along all "
      "feasible paths with their helpers opened; each return is judged for: a fired trigger is followed by a line; the "
      "evaluation trigger is consulted exactly once; a path that may be the first evaluation writes a line; the markers of "
      "what was last written change exactly with the writes; the best value is replaced exactly when the new one was found "
      "smaller (or is the first), together with all coordinates of its solution. At closing, a file is closed only after "
      "the final line or when the marker proves the last evaluation is in it. Triggers of all loggers must be heeded; each trigger "
      "function must decide by comparing its stored next value, fire when that is reached, and store the value reached; every "
      "trigger created is consulted; restart signals are written and cleared at the next evaluation.",
      ["the streams passed to the line writers are those of the logger's fields",
       "function pointers are only stored through the struct slots resolved by the call graph"])
def c25(ck):
    P = ck.P
    W, T = line_writers(P), triggers(P)
    ck.count("trigger functions", len(T))
    ck.need("trigger functions", 3)
    for S in (BBOB, OLD, RW):
        C = callbacks(P, S)
        L = Logger(ck, P, S, W, T)
        if not C["evaluate"]:
            raise AnalysisError("no evaluation callback works on %s" % S)
        for role in ("evaluate", "recommend", "free"):
            for f in sorted(C[role]):
                L.judge(f, role)
    L = Logger(ck, P, IND, W, T)
    for f in sorted(callbacks(P, IND)["free"]):
        L.judge(f, "free")
    L = Logger(ck, P, TOY, W, T)
    for S in (TOY, BIOBJ):
        C = callbacks(P, S)
        for role in ("evaluate", "recommend"):
            for f in sorted(C[role]):
                L.heeded(f)
    for S in (BBOB, BIOBJ):
        for f in sorted(callbacks(P, S)["evaluate"]):
            restart_rule(ck, P, S, f, W, T)
    ck.need("restart states judged", 4)
    consulted(ck, P, T)
    trigger_rules(ck, P, T, L)
    ck.need("callbacks explored", 9)
    ck.need("files closed", 3)


def restart_rule(ck, P, S, name, W, T):
    """a signalled restart leaves one line in the restart file, at the next evaluation"""
    FLAG, FILE = "algorithm_restarted", "rdat_file"

    def rdat(F, i):
        if i.op != "call":
            return False
        e = stream(P, F, i)
        if e is None and P.callee(i) in W and W[P.callee(i)] < len(P.args(i)):
            e = P.expr(F, P.args(i)[W[P.callee(i)]])
        return e is not None and e[0] == "ld" and e[1][0] == "fld" and e[1][3] == FILE

    def flag(F, i):
        a = P.expr(F, i.ops[0 if i.op == "load" else 1]) if i.op in ("load", "store") else ("c", 0)
        return a[0] == "fld" and a[2] == S and a[3] == FLAG

    def opens(F, i):
        return i.op == "call" and P.callee(i) == "fopen"

    def want(c):
        if c in T or c in W:
            return False
        if not P.F[c].internal or c in P.address_taken:
            return P.getter(c) is not None
        return deep_reach(P, c, lambda F, i: rdat(F, i) or flag(F, i)) and not deep_reach(P, c, opens)
    G = P.inline(name, want)
    L = Logger(ck, P, S, W, T)

    def tr(ins, st, ctx):
        if rdat(G, ins):
            return (st[0], 1, st[2], st[3])
        if ins.op == "load" and flag(G, ins) and not st[2]:
            return st[:3] + (st[3] | {ins.res},)
        if ins.op == "store" and flag(G, ins):
            z = ctx.econst(P.expr(G, ins.ops[0])) if is_local(ins.ops[0]) else ins.ops[0]
            return (st[0], st[1], 1 if z == 0 else 2, st[3])
        return None

    def oe(t, val, st, ctx):
        if st[0] is not None or t.op != "br":
            return st
        v, d, pos = L.cond(G, t.ops[0], ctx)
        if d is not None and d.op == "icmp" and 1 in d.ops and d.x["pred"] in ("eq", "ne") and is_local(d.ops[0]):
            pos = pos == (d.x["pred"] == "eq")
            d = G.defs.get(d.ops[0])
        if d is not None and d.op == "load" and d.res in st[3]:
            return (1 if val == pos else 0,) + st[1:]
        return st
    loads = {("ld", P.expr(G, i.ops[0])) for i in G.instrs() if i.op == "load" and
             (lambda a: a[0] == "fld" and a[2] == S and a[3] == "compute_indicators")(P.expr(G, i.ops[0]))}
    R = explore(P, G, [(None, 0, 0, frozenset())], tr, on_edge=oe, keep=loads)
    for ret, st, node, facts in R.exits:
        ck.count("restart states judged")
        off = any(facts.get(("=", e)) == 0 for e in loads)
        what = None
        if st[0] is None and not (off and st[2] == 1):
            what = "does not look whether the algorithm restarted"
        elif st[0] == 1 and st[2] != 1:
            what = "leaves the restart signal set: it is logged again at the next evaluation"
        elif st[0] == 1 and not st[1] and not off:
            what = "does not write the line of a restart"
        elif st[0] == 0 and (st[1] or st[2] == 2):
            what = "logs a restart that did not happen"
        if what:
            ck.violation("%s:restart" % name, P.where(ret), "%s %s" % (name, what), path_of(P, G, R, node))


def consulted(ck, P, T):
    """every trigger a logger creates is consulted somewhere"""
    made, used = {}, set()
    for n, F in P.F.items():
        for i in F.instrs():
            if i.op == "call" and P.callee(i) in T and P.args(i) and is_local(P.args(i)[0]):
                e = P.expr(F, P.args(i)[0])
                if e[0] == "ld" and e[1][0] == "fld":
                    used.add(e[1][2:4])
                elif e[0] == "arg" or e[0] == "v":      # handed through: find it at the callers
                    used |= handed(P, F, e)
            if i.op == "store" and is_local(i.ops[0]):
                d = F.defs.get(i.ops[0])
                c = P.callee(d) if d is not None and d.op == "call" else None
                a = P.expr(F, i.ops[1])
                if c in P.F and a[0] == "fld" and trigger_type(P, c) and not TRIG_T.match(a[2]):
                    made[a[2:4]] = i
    for f, i in sorted(made.items()):
        ck.count("triggers created")
        if f not in used:
            ck.violation("unused:%s" % f[1], P.where(i), "the trigger %s of %s is created but never consulted" % (f[1], f[0]))


def handed(P, F, e, d=0):
    out = set()
    if e[0] == "arg" and d < 4:
        for i in P.callers(F.name):
            A = P.args(i)
            if e[1] < len(A) and is_local(A[e[1]]):
                x = P.expr(i.fn, A[e[1]])
                if x[0] == "ld" and x[1][0] == "fld":
                    out.add(x[1][2:4])
                else:
                    out |= handed(P, i.fn, x, d + 1)
    return out


def trigger_type(P, c):
    """c returns a newly made trigger object"""
    F = P.F[c]
    if F.retty != "ptr":
        return False
    rets = {i.ops[0] for i in F.instrs() if i.op == "ret" and i.ops}
    return any(i.op == "store" and (lambda a: a[0] == "fld" and TRIG_T.match(a[2]) and a[1][0] == "v" and a[1][1] in rets)(
        P.expr(F, i.ops[1])) for i in F.instrs())


class Assumed(Sccp):
    """constant propagation with given results of some calls"""
    given = {}

    def call(self, F, ins, c, a, depth):
        if c in self.given:
            return self.given[c]
        return Sccp.call(self, F, ins, c, a, depth)


def parts(P, F, T, H):
    """the independent triggers F consults: {callee: argument expression}; None when F is one trigger itself
    (its callees work on the same fields, or there is none)"""
    out = {}
    for i in F.instrs():
        c = P.callee(i) if i.op == "call" else None
        if c in T and c != F.name:
            e = P.expr(F, P.args(i)[0])
            if c in out and out[c] != e:
                return None
            out[c] = e
    if not out or trig_stores(P, P.inline(F.name, lambda c: c in H)):
        return None
    fields = {}
    for c, e in out.items():
        G = P.inline(c, lambda d: d in T or d in H)
        fields[c] = {subst(a, [e]) for a in trig_stores(P, G)}
        if any(fields[c] & fields[d] for d in fields if d != c):
            return None
    if len(out) == 1 and list(out.values()) == [("arg", 0)]:
        return None
    return out


def trigger_rules(ck, P, T, L):
    H = steppers(P)
    for n in sorted(T):
        F = P.F[n]
        ck.count("trigger functions judged")
        par = parts(P, F, T, H)
        if par:
            subs = sorted(par)

            def tr(ins, st, ctx):
                if ins.op == "call" and P.callee(ins) in subs:
                    k = subs.index(P.callee(ins))
                    return (tuple(min(x + (j == k), 2) for j, x in enumerate(st[0])), st[1])
                return None

            def oe(t, val, st, ctx):
                # no trigger there (or switched off): nothing to consult
                for k, s in enumerate(subs):
                    e = par[s]
                    if st[0][k] == 0 and any(q[0] == "=" and v == 0 and (q[1] in (e, ("arg", 0)) or (
                            q[1][0] == "ld" and q[1][1][0] == "fld" and q[1][1][1] == ("arg", 0) and
                            q[1][1][3].startswith("use_"))) for q, v in ctx.facts.items()):
                        st = (st[0], st[1] | {k})
                return st
            R = explore(P, F, [((0,) * len(subs), frozenset())], tr, on_edge=oe)
            for ret, st, node, facts in R.exits:
                for k, x in enumerate(st[0]):
                    if x == 1 or (x == 0 and k in st[1]):
                        continue
                    ck.violation("%s:%s" % (n, subs[k]), P.where(ret), "%s %s: its triggers get out of step with the data" %
                                 (n, "can return without consulting %s" % subs[k] if x == 0 else
                                  "can consult %s twice" % subs[k]), path_of(P, F, R, node))
            for m in range(1 << len(subs)):
                A = Assumed(P)
                A.given = {s: (m >> k) & 1 for k, s in enumerate(subs)}
                r = A.run(n, tuple([None] * len(F.params)))["ret"]
                ck.count("combinations of triggers decided")
                if isinstance(r, int) and not isinstance(r, bool) and (r != 0) != (m != 0):
                    ck.violation("%s:result" % n, n, "%s reports %d when %s" % (n, r, ", ".join(
                        "%s %s" % (s, "fires" if (m >> k) & 1 else "does not") for k, s in enumerate(subs))))
            continue
        # a trigger moves on exactly when it fires; it fires exactly when its next value is reached
        G = P.inline(n, lambda c: c in H or (c in T and c != n))
        own = {a for a in trig_stores(P, G) if a[0] == "fld"}
        fire = T[n] == "targets"

        def tr2(ins, st, ctx):
            if ins.op == "store":
                a = P.expr(G, ins.ops[1])
                if a[0] == "fld" and TRIG_T.match(a[2]):
                    r = a
                    while r[0] in ("fld", "ld", "idx"):
                        r = r[1]
                    if r == ("arg", 0):
                        dec, off = st[1], st[2]
                        if dec and dec[0] == "<" and dec[1] == a and fire and dec[3]:
                            x, y = dec[2], P.expr(G, ins.ops[0])
                            if x != y and ctx.resolve(x) != ctx.resolve(y):
                                off = True
                        return (1, dec, off)
            return None

        def oe2(t, val, st, ctx):
            if st[1] or t.op != "br":
                return st
            v, d, pos = L.cond(G, t.ops[0], ctx)
            pos = pos == val
            if d is None or d.op not in ("icmp", "fcmp"):
                return st
            a, b, pr = P.expr(G, d.ops[0]), P.expr(G, d.ops[1]), d.x["pred"]
            if d.op == "icmp" and pr in ("eq", "ne"):
                if ("arg", 0) in (a, b) and ("c", 0) in (a, b) and (pr == "eq") == pos:
                    return (st[0], ("null",), st[2])
                for x, y in ((a, b), (b, a)):
                    if y[0] == "ld" and y[1] in own and x != y and x[0] == "arg":
                        return (st[0], ("=", y[1], x, (pr == "eq") == pos), st[2])
                return st
            base = pr[-2:]
            if base not in ("lt", "gt", "le", "ge"):
                return st
            # a < b, b < a, not (b < a), not (a < b)
            l, r, tr = {"lt": (a, b, True), "gt": (b, a, True), "le": (b, a, False), "ge": (a, b, False)}[base]
            true = pos == tr
            sl, sr = (e[0] == "ld" and e[1] in own for e in (l, r))
            if sl == sr:
                return st
            if sr:
                return (st[0], ("<", r[1], l, true), st[2])
            return (st[0], (">", l[1], r, true), st[2])
        R = explore(P, G, [(0, None, False)], tr2, on_edge=oe2)
        forms = {(st[1][0], st[1][1]) for _, st, _, _ in R.exits if st[1] and st[1][0] != "null"}
        for ret, st, node, facts in R.exits:
            v = ret.ops[0]
            k = 0
            while is_local(v) and ("alias", v) in facts and k < 10:
                v = facts[("alias", v)]
                k += 1
            ck.count("return states judged")
            if not isinstance(v, int):
                continue
            moved, dec, off = st
            if (v != 0) != (moved == 1):
                ck.violation("%s:step" % n, P.where(ret), "%s can %s" % (n, "fire without moving on to its next value" if v else
                             "move on to its next value without firing"), path_of(P, G, R, node))
            if not forms or dec == ("null",):
                continue
            ck.count("trigger verdicts judged")
            what = None
            if dec is None:
                what = "%s without comparing its next value" % ("fires" if v else "stays quiet")
            elif dec[0] == "=":
                what = "compares its next value for equality only"
            elif dec[0] == ">":
                what = "fires when the next value is exceeded, not when it is reached" if not fire else \
                    "fires again for a value already reached"
            elif (dec[3] == fire) != (v != 0):
                what = "%s although its next value was %sreached" % ("fires" if v else "stays quiet", "not " if v else "")
            elif off:
                what = "notes something else than the value it reached as %s" % dec[1][3]
            if what:
                ck.violation("%s:verdict" % n, P.where(ret), "%s %s" % (n, what), path_of(P, G, R, node))
