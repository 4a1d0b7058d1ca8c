"""C04: an evaluation's result depends on the problem and the point only, not on earlier evaluations."""
import re
from ..check import rule
from ..core import is_local, subexprs
from ..build import AnalysisError
from ..util import PROB, callee_slot, loops, allocators, freers, fld, ldf, path_of, reaches, strip_cast
from ..flow import Summaries, ext_name
from .evalproto import roots

BOOK = {"evaluations", "evaluations_constraints", "best_observed_fvalue", "best_observed_evaluation"}
PURE_EXT = set("""sin cos tan exp log log10 log2 log1p expm1 pow sqrt fabs floor ceil fmin fmax round rint nearbyint trunc
 fmod atan atan2 asin acos tanh sinh cosh cbrt hypot exp2 exp10 lround llround ldexp frexp modf copysign isnan isinf
 finite isfinite malloc calloc free memcpy memmove memset strlen strcmp strncmp strchr strcpy strncpy strcat
 fprintf printf vfprintf fputs fputc fflush puts putchar exit abort __assert_fail sprintf snprintf vsnprintf
 __isnan __isinf __finite __fpclassify __isnanf __isinff __finitef __fpclassifyf __signbit""".split())


def logger_fns(P):
    """evaluation functions of observers: installed by code reachable from an observer's logger allocation slot"""
    L = set(P.slots.get(("f", "struct.coco_observer_s", "logger_allocate_function"), ()))
    ch = True
    while ch:       # plus helpers called from nowhere else
        ch = False
        for f in list(P.F):
            if f not in L and f not in P.address_taken and P.F[f].internal:
                cs = P.callers(f)
                if cs and all(c.fn.name in L for c in cs):
                    L.add(f)
                    ch = True
    return installed_in(P, [f for f in L if f in P.F])


def installed_in(P, fns):
    out = set()
    for f in fns:
        F = P.F[f]
        for i in F.instrs():
            if i.op == "store":
                s = P.slot_of_addr(F, i.ops[1])
                if s and s[0] == "f" and s[1] == PROB and s[2] in ("evaluate_function", "evaluate_constraint"):
                    out |= P.fnset(F, i.ops[0])
    return out


def noise_fns(P):
    out = []
    for F in P.F.values():
        for i in F.instrs():
            if i.op == "store":
                s = P.slot_of_addr(F, i.ops[1])
                if s == ("f", PROB, "is_noisy") and i.ops[0] not in (0, False) and isinstance(i.ops[0], int):
                    out.append(F.name)
    return installed_in(P, out), set(out)


def base_index(e):
    """(array base pointer expr, index expr or None) of an address expression"""
    if e[0] == "idx":
        return e[1], e[3]
    return e, ("c", 0)


def int_params(F):
    return {i for i, p in enumerate(F.params) if p[0] in ("i64", "i32")}


class ArrayInit:
    """forward must-analysis: which elements/prefixes of which arrays have been written since function entry"""

    def __init__(self, P, F, tracked, dispatch, S, consts):
        self.P, self.F, self.tracked, self.dispatch, self.S = P, F, tracked, dispatch, S
        self.consts = consts        # predicate on exprs: constant table load
        self.gen_edges = {}
        self.L = loops(F, P)
        self.phis = {}
        for b in F.blocks.values():
            self.phis[b.name] = {i.res for i in b.instrs if i.op == "phi"}
        self.run()

    def bound_ok(self, e):
        if e[0] == "arg":
            return e[1] in int_params(self.F)
        if e[0] == "ld" and e[1][0] == "fld":
            S, f = e[1][2], e[1][3]
            if S == PROB:
                return f in ("number_of_variables", "number_of_objectives", "number_of_constraints")
            return f not in ("i",)
        if e[0] == "v":
            d = self.F.defs.get(e[1])
            return d is not None and d.op == "call"
        if e[0] in ("add", "sub") and e[2][0] == "c":
            return False
        return e[0] in ("call", "c")

    def step(self, ins, facts, report=None):
        P, F = self.P, self.F
        if ins.op == "store":
            a = P.expr(F, ins.ops[1])
            b, i = base_index(a)
            if self.tracked(b):
                facts = facts | {("idx", b, i)}
            return facts
        if ins.op == "load":
            b, i = base_index(P.expr(F, ins.ops[0]))
            if self.tracked(b) and report is not None and not self.covered(facts, b, i):
                report(ins, b, i)
            return facts
        if ins.op == "call":
            tg = P.targets(ins)
            if tg & freers(P):
                return facts
            s = callee_slot(P, F, ins)
            disp = bool(tg & self.dispatch) or (s and s[0] == PROB)
            for k, a in enumerate(P.args(ins)):
                if not is_local(a) or ins.optys and ins.optys[k] != "ptr":
                    continue
                b, i = base_index(P.expr(F, a))
                if not self.tracked(b):
                    continue
                if disp and k >= 2:
                    facts = facts | {("full", b, ("any",))}
                    continue
                en = ext_name(P.callee(ins) or "")
                if en in ("memcpy", "memmove", "memset") and k == 0:
                    n = P.expr(F, P.args(ins)[2])
                    if n[0] in ("mul", "shl") and (self.bound_ok(n[1]) or self.bound_ok(n[2])):
                        facts = facts | {("full", b, ("any",))}
                    continue
                if not disp and en not in ("memcpy", "memmove"):
                    eff = self.S.call_effects(ins, k)
                    if "W" in eff:
                        facts = facts | {("full", b, ("any",))} if eff["W"] not in P.F else facts
                        if eff["W"] in P.F:
                            raise AnalysisError("%s passes a scratch array to %s, which is not inlined" %
                                                (F.name, eff["W"]))
                        continue
                if report is not None and not self.is_full(facts, b):
                    report(ins, b, None)
        return facts

    def is_full(self, facts, b):
        return any(f[0] == "full" and f[1] == b for f in facts)

    def covered(self, facts, b, i):
        return ("idx", b, i) in facts or self.is_full(facts, b)

    def run(self):
        F, P = self.F, self.P
        order = [b for b in F.order if b in F.reachable_blocks()]
        for rnd in range(12):
            IN = {b: None for b in order}
            IN[order[0]] = frozenset()
            OUT = {}
            work = list(order)
            while work:
                b = work.pop(0)
                if IN[b] is None:
                    continue
                facts = IN[b]
                if self.phis[b]:
                    ks = self.phis[b]
                    facts = frozenset(f for f in facts if not any(x[0] == "v" and x[1] in ks for x in subexprs(f[2])) and
                                      not any(x[0] == "v" and x[1] in ks for x in subexprs(f[1])))
                for ins in F.blocks[b].instrs:
                    facts = self.step(ins, facts)
                OUT[b] = facts
                for s in F.blocks[b].succs:
                    o = facts | self.gen_edges.get((b, s), frozenset())
                    n = o if IN[s] is None else IN[s] & o
                    if n != IN[s]:
                        IN[s] = n
                        if s not in work:
                            work.append(s)
            self.IN, self.OUT = IN, OUT
            new = {}
            for L in self.L:
                for iv in L.ivs:
                    for b, pred, bound, on_next in iv.get("tests", []):
                        name, lo = None, None
                        if iv["step"] == 1 and pred in ("ult", "slt", "ne") and self.bound_ok(bound):
                            name, lo = iv["phi"], iv["init"]
                        elif iv["step"] == -1 and bound == ("c", 0) and pred in ("ugt", "sgt", "ne") and \
                                self.bound_ok(iv["init"]) and not on_next:
                            name, lo = iv["next"], ("c", 0)
                        if name is None:
                            continue
                        ex = {("v", name), P.expr(F, name)}
                        if iv["step"] == -1:
                            ex.add(("sub", ("v", iv["phi"]), ("c", 1)))
                            ex.add(("add", ("v", iv["phi"]), ("c", -1)))
                        cand = None
                        for la in L.latches:
                            c = {f[1] for f in OUT.get(la, ()) if f[0] == "idx" and (f[2] in ex or self.table(f[2], ex))}
                            cand = c if cand is None else cand & c
                        if not cand:
                            continue
                        pre = [p for p in F.blocks[L.header].preds if p not in L.body]
                        for arr in cand:
                            ok = True
                            if lo != ("c", 0):
                                for p in pre:
                                    fs = OUT.get(p, frozenset())
                                    if ("full", arr, lo) in fs:
                                        continue
                                    if lo[0] == "c" and lo[1] <= 4 and all(("idx", arr, ("c", q)) in fs for q in range(lo[1])):
                                        continue
                                    ok = False
                            if ok:
                                for s in F.blocks[b].succs:
                                    if s not in L.body:
                                        new.setdefault((b, s), set()).add(("full", arr, bound if iv["step"] == 1 else iv["init"]))
            new = {k: frozenset(v) for k, v in new.items()}
            if new == self.gen_edges:
                return
            self.gen_edges = new
        raise AnalysisError("array initialisation analysis does not converge in " + F.name)

    def table(self, e, ex):
        """e is a lookup of a constant table at the loop index (a permutation)"""
        return e[0] == "ld" and e[1][0] == "idx" and e[1][3] in ex and self.consts(e[1][1])

    def reports(self):
        out = []
        for b, facts in self.IN.items():
            if facts is None:
                continue
            if self.phis[b]:
                ks = self.phis[b]
                facts = frozenset(f for f in facts if not any(x[0] == "v" and x[1] in ks for x in subexprs(f[2])) and
                                  not any(x[0] == "v" and x[1] in ks for x in subexprs(f[1])))
            for ins in self.F.blocks[b].instrs:
                facts = self.step(ins, facts, lambda i, a, x: out.append((i, a, x)))
        return out


def fieldpath(b):
    """('p',S,f) class of an array pointer loaded from a struct field"""
    if b[0] == "ld" and b[1][0] == "fld":
        return (b[1][2], b[1][3])
    return None


@rule("C04", "whole-program effect analysis + forward must-initialised dataflow for scratch memory (LLVM IR)",
      "The code reachable from every noise-free evaluation function is closed over; every persistent location it "
      "writes is classified: bookkeeping that only the evaluation entries read, scratch memory that must be completely "
      "rewritten on all paths of the same evaluation before it is read or handed to the wrapped problem, or data "
      "handed to the wrapped function that must be rewritten before each dispatch. Anything else (mutable globals, "
      "counters, caches, clocks, random numbers) is a violation.",
      ["vectors indexed through a constant lookup table are permuted completely (the table is a permutation)",
       "the wrapped evaluation writes its whole output vector (decided by C02)"])
def c04(ck):
    P = ck.P
    S = Summaries(P)
    fr, cr = set(roots(P, "evaluate_function")), set(roots(P, "evaluate_constraint"))
    log = logger_fns(P)
    noise, _ = noise_fns(P)
    stop = log | noise
    slotfns = (set(P.slot(PROB, "evaluate_function")) | set(P.slot(PROB, "evaluate_constraint"))) - stop
    entries = fr | cr
    R = P.reach(slotfns, stop)
    E = {f for f in R if f in P.F}
    entries &= E
    for f in sorted(R - set(P.F)):
        ck.count("external_functions")
        if not f.startswith("llvm.") and ext_name(f) not in PURE_EXT:
            who = sorted({i.fn.name for g in E for i in P.F[g].instrs() if i.op == "call" and f in P.targets(i)})
            w = next(i for g in who for i in P.F[g].instrs() if i.op == "call" and f in P.targets(i))
            ck.violation("ext:" + f, P.where(w), "evaluation depends on external state: %s calls %s" % (who[0], f))
    alloc = allocators(P)
    # everything on the heap created during this evaluation
    msg = message_only(P, E)
    # 1. direct writes
    wfields, arrays = {}, {}
    for f in sorted(E):
        F = P.F[f]
        for i in F.instrs():
            if i.op == "load":
                a = P.expr(F, i.ops[0])
                g = global_of(P, a)
                if g and f not in msg and not is_constant_global(P, g) and g not in ("stderr", "stdout"):
                    ck.violation("glob:%s:%s" % (f, g), P.where(i),
                                 "%s, part of an evaluation, reads the mutable global '%s'" % (f, g))
            if i.op != "store":
                continue
            a = P.expr(F, i.ops[1])
            g = global_of(P, a)
            ck.count("stores")
            if g:
                if f not in msg:
                    ck.violation("gw:%s:%s" % (f, g), P.where(i), "%s, part of an evaluation, writes the global '%s'" % (f, g))
                continue
            c = P.memclass(F, i.ops[1])
            if c[0] == "f" and not fresh(P, F, a, alloc):
                wfields.setdefault((c[1], c[2]), []).append(i)
            elif c[0] == "p":
                arrays.setdefault((c[1], c[2]), []).append(i)
    # 2. scalar fields
    for (St, fl), ws in sorted(wfields.items()):
        ck.count("state_fields")
        ck.sample("state field %s.%s written in %s" % (St, fl, sorted({w.fn.name for w in ws})))
        if St == PROB and fl in BOOK:
            own = set()                         # helpers of the entries alone
            while True:
                more = {f for f in E - entries - own if P.F[f].internal and f not in P.address_taken and P.callers(f) and
                        all(c.fn.name in entries | own for c in P.callers(f))}
                if not more:
                    break
                own |= more
            for f in sorted(E - entries - own):
                for i in P.F[f].instrs():
                    if i.op == "load" and P.memclass(P.F[f], i.ops[0]) == ("f", St, fl):
                        ck.violation("book:%s:%s" % (f, fl), P.where(i),
                                     "%s, part of an evaluation, reads '%s', which changes with every evaluation" % (f, fl))
            for f in sorted(entries):
                book_flow(ck, P, P.inline(f, lambda c: c in own) if own else P.F[f], fl)
            continue
        judge_handover(ck, P, E, slotfns, entries, St, fl, ws, None)
    # 3. arrays
    seenarr = set()
    for f in sorted(slotfns):
        G = P.inline(f, lambda c: c in E and c not in entries and P.F[c].internal and P.getter(c) is None and
                     c not in P.address_taken and len(list(P.F[c].instrs())) < 1500)
        freshes = {i.res for i in G.instrs() if i.op == "call" and i.res and P.callee(i) in alloc}

        def tracked(b):
            if b[0] == "arg":
                return b[1] == 2
            fp = fieldpath(b)
            if fp:
                return fp in arrays
            return b[0] in ("v", "call") and any(b == P.expr(G, r) for r in freshes) and is_num_array(P, G, b)

        def consts(b):
            fp = fieldpath(b)
            return fp is not None and fp not in arrays
        A = ArrayInit(P, G, tracked, entries, S, consts)
        ck.count("evaluation_functions")
        for i in G.instrs():
            if i.op == "store":
                b, _ = base_index(P.expr(G, i.ops[1]))
                if tracked(b):
                    ck.count("scratch_writes")
                    seenarr.add(fieldpath(b))
            elif i.op == "load" and tracked(base_index(P.expr(G, i.ops[0]))[0]):
                ck.count("scratch_reads")
        for ins, b, idx in A.reports():
            fp = fieldpath(b)
            if fp and fp not in {fieldpath(base_index(P.expr(G, i.ops[1]))[0]) for i in G.instrs() if i.op == "store"}:
                # not written in this evaluation function at all: data handed over by an enclosing layer
                judge_handover(ck, P, E, slotfns, entries, fp[0], fp[1], arrays[fp], (ins, f), S, stop)
                continue
            o = ins.origin or ins
            what = "%s.%s" % fp if fp else "its output vector" if b[0] == "arg" else "a fresh buffer"
            ck.violation("scratch:%s:%s" % (f, what), P.where(o),
                         "%s uses %s before it is completely written in the same evaluation" % (f, what))
    for fp in sorted(arrays):
        ck.count("scratch_arrays")
        if fp not in seenarr:
            ck.violation("unseen:%s.%s" % fp, P.where(arrays[fp][0]), "persistent array %s.%s is written during an "
                         "evaluation outside of the evaluation functions' own scratch handling" % fp)
    ck.need("evaluation_functions", 30)
    ck.need("scratch_arrays", 5)


def global_of(P, a):
    while a and a[0] in ("idx", "fld", "ld"):
        if a[0] == "ld":
            return None
        a = a[1]
    return a[1].strip('"').lstrip("@") if a and a[0] in ("g", "glob") else None


def is_constant_global(P, g):
    d = P.M.globals.get(g)
    if d is None:
        return g in P.F or g in P.M.decls
    if "constant" in d["body"][:120].split() or g in P.M.strings:
        return True
    return not any(i.op == "store" and global_of(P, P.expr(F, i.ops[1])) == g for F in P.F.values() for i in F.instrs())


def message_only(P, E):
    """functions that never return a value into the evaluation: reporting helpers (they end in coco_error/coco_warning)"""
    pub = {f for f in E if re.match(r"coco_(error|warning|info|debug|info_partial)$", f)}
    return P.reach(pub)


def fresh(P, F, a, alloc):
    while a[0] in ("idx", "fld"):
        a = a[1]
    if a[0] in ("v", "call"):
        for i in F.instrs():
            if i.res and i.op == "call" and P.callee(i) in alloc and P.expr(F, i.res) == a:
                return True
    if a[0] == "al" or a[0] == "alloca":
        return True
    if a[0] == "v":
        d = F.defs.get(a[1])
        return d is not None and d.op == "alloca"
    return False


def is_num_array(P, F, b):
    for i in F.instrs():
        if i.op in ("load", "store"):
            e = P.expr(F, i.ops[0] if i.op == "load" else i.ops[1])
            if e[0] == "idx" and e[1] == b:
                return True
    return False


def book_flow(ck, P, F, fl):
    """in the entry functions, bookkeeping values must not flow into the output vector"""
    tainted = set()
    ch = True
    while ch:
        ch = False
        for i in F.instrs():
            if i.res is None or i.res in tainted:
                continue
            if i.op == "load":
                e = P.expr(F, i.ops[0])
                if any(x[0] == "fld" and x[3] == fl for x in subexprs(e)) and P.memclass(F, i.ops[0]) == ("f", PROB, fl):
                    tainted.add(i.res)
                    ch = True
            elif i.op != "call" and any(o in tainted for o in i.ops if is_local(o)):
                tainted.add(i.res)
                ch = True
    ck.count("bookkeeping_flows")
    for i in F.instrs():
        if i.op == "store" and is_local(i.ops[0]) and i.ops[0] in tainted:
            if base_index(P.expr(F, i.ops[1]))[0] == ("arg", 2):
                ck.violation("bookflow:%s:%s" % (F.name, fl), P.where(i), "%s writes a value derived from '%s' to the "
                             "evaluation result" % (F.name, fl))


def judge_handover(ck, P, E, slotfns, entries, St, fl, ws, use, S=None, stop=()):
    """a field written by an enclosing evaluation function for the wrapped one: the writer must write it on every path
    before it dispatches the wrapped evaluation"""
    ck.count("handovers")
    for w in {w.fn.name for w in ws}:
        if w not in slotfns:
            owners = sorted(f for f in slotfns if w in P.reach([f], (set(entries) | set(stop))))
        else:
            owners = [w]
        if not owners:
            ck.violation("state:%s.%s" % (St, fl), P.where(ws[0]), "%s changes persistent state %s.%s during an evaluation" %
                         (w, St, fl))
            continue
        for o in owners:
            G = P.inline(o, lambda c: c in E and c not in entries and P.F[c].internal and P.getter(c) is None and
                         c not in P.address_taken and len(list(P.F[c].instrs())) < 1500)
            # must-analysis: every dispatch is preceded by a write
            done = {}
            order = [b for b in G.order if b in G.reachable_blocks()]
            A = None
            if use is not None:
                A = ArrayInit(P, G, lambda b: fieldpath(b) == (St, fl), entries, S, lambda b: False)
            IN = {b: None for b in order}
            IN[order[0]] = False
            work = list(order)
            bad = []

            def wr(i):
                if i.op == "store":
                    c = P.memclass(G, i.ops[1])
                    return c == ("f", St, fl)
                return False
            while work:
                b = work.pop(0)
                v = IN[b]
                if v is None:
                    continue
                for i in G.blocks[b].instrs:
                    v = v or wr(i)
                for s in G.blocks[b].succs:
                    n = v if IN[s] is None else (IN[s] and v)
                    if n != IN[s]:
                        IN[s] = n
                        work.append(s)
            nd = 0
            for b in order:
                v = IN[b]
                fa = A.IN[b] if A else None
                for i in G.blocks[b].instrs:
                    if i.op == "call":
                        s = callee_slot(P, G, i)
                        if (P.targets(i) & entries) or (s and s[0] == PROB):
                            nd += 1
                            ok = any(x[0] == "full" and fieldpath(x[1]) == (St, fl) for x in fa) if A else v
                            if not ok:
                                bad.append(i)
                    if A:
                        fa = A.step(i, fa)
                    v = v or wr(i)
                    # a read of the field in the writer itself must follow the write
                    if i.op == "load" and not A and P.memclass(G, i.ops[0]) == ("f", St, fl) and not v:
                        bad.append(i)
            if nd == 0:
                ck.violation("state:%s:%s.%s" % (o, St, fl), P.where(ws[0]),
                             "%s keeps state in %s.%s from one evaluation to the next" % (o, St, fl))
            for i in bad:
                ck.violation("handover:%s:%s.%s" % (o, St, fl), P.where(i.origin or i),
                             "%s can evaluate the wrapped problem with a value of %s.%s left over from an earlier "
                             "evaluation" % (o, St, fl))
