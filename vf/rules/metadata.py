"""C23: what a problem says about itself survives wrapping and never changes by using it."""
from ..check import rule
from ..core import is_local, subexprs
from ..build import AnalysisError
from ..util import PROB, TDATA, loops, allocators, full_range, callee_slot, path_of
from ..flow import Summaries, ext_name
from ..esp import explore, noreturn_set
from .evalproto import fresh_base, constructs

NOT_META = {"evaluate_function", "evaluate_constraint", "evaluate_gradient", "recommend_solution",
            "problem_free_function", "data", "versatile_data", "is_noisy", "last_noise_free_values"}
RUNNING = {"evaluations", "evaluations_constraints", "best_observed_fvalue", "best_observed_evaluation", "is_tainted"}
# a transformation may move the optimum and the region of interest, but not these
IDENTITY = {"number_of_variables", "number_of_objectives", "number_of_constraints", "evaluations", "is_tainted",
            "evaluations_constraints", "final_target_delta", "suite_dep_index", "suite_dep_function",
            "suite_dep_instance", "suite"}
LENGTH = {"smallest_values_of_interest": "number_of_variables", "largest_values_of_interest": "number_of_variables",
          "best_parameter": "number_of_variables", "initial_solution": "number_of_variables",
          "best_value": "number_of_objectives", "nadir_value": "number_of_objectives"}


def strip0(e):
    while e[0] == "idx" and e[3] == ("c", 0):
        e = e[1]
    return e


def fields_read(P):
    """problem fields that are handed out, decided on or reported anywhere"""
    out = set()
    for F in P.F.values():
        for i in F.instrs():
            if i.op == "load":
                e = P.expr(F, i.ops[0])
                for x in subexprs(e):
                    if x[0] == "fld" and x[2] == PROB:
                        out.add(x[3])
    return out


def duplicators(P):
    """functions that return a fresh problem carrying over fields of the problem given as an argument"""
    out = []
    A = allocators(P)
    for n, F in P.F.items():
        if F.retty != "ptr" or not any(p[0] == "ptr" for p in F.params):
            continue
        if n not in A or n.startswith("coco_suite"):
            continue
        near, lvl = {n}, [n]
        for _ in range(3):
            lvl = [c for x in lvl for c in {P.callee(i) for i in P.F[x].instrs() if i.op == "call"}
                   if c in P.F and c not in near]
            near |= set(lvl)
        if sum(len(arg_fields(P, P.F[x])) for x in near) < 6:
            continue
        try:
            G = P.inline(n, lambda c: copy_helper(P, c, A), maxinstr=3000)
        except AnalysisError:
            continue
        got = {}
        for i in G.instrs():
            if i.op == "store":
                a, v = strip0(P.expr(G, i.ops[1])), P.expr(G, i.ops[0])
                if a[0] == "fld" and a[2] == PROB and v[0] == "ld":
                    s = strip0(v[1])
                    if s[0] == "fld" and s[2] == PROB and s[3] == a[3] and s[1][0] == "arg" and s[1] != a[1]:
                        got.setdefault(s[1], set()).add(a[3])
        for src, fs in got.items():
            if len(fs) >= 6:
                out.append((G, src))
    return out


def arg_fields(P, F):
    out = set()
    for i in F.instrs():
        if i.op == "load":
            e = strip0(P.expr(F, i.ops[0]))
            if e[0] == "fld" and e[2] == PROB and e[1][0] == "arg":
                out.add(e[3])
    return out


def copy_helper(P, c, A):
    F = P.F[c]
    if not F.internal:
        return False
    touches = any(i.op == "store" for i in F.instrs())
    if c in A:          # makers of problems are opened, makers of plain vectors and texts are not
        return any(i.op == "store" and (lambda s: s and s[1] == PROB)(P.slot_of_addr(F, i.ops[1]))
                   for i in F.instrs()) or \
            any(i.op == "call" and P.callee(i) in P.F and P.callee(i) != c and P.callee(i) in A and
                copy_helper(P, P.callee(i), A) for i in F.instrs())
    return touches or len(list(F.instrs())) < 40


def is_zero(v):
    return v in (0, "null", False)


def wrapping(P, G):
    return any(i.op == "store" and P.slot_of_addr(G, i.ops[1]) == ("f", TDATA, "inner_problem") for i in G.instrs())


class Copy:
    def __init__(self, P, G, src, fields):
        self.P, self.G, self.src, self.fields = P, G, src, fields
        self.kills, self.why = {}, {}
        self.wraps = wrapping(P, G)
        self.lgen = {}
        for L in loops(G, P):
            self.loop(L)
        self.solve()

    def side(self, e):
        """('s'|'f', field, element index or None) for an address in the source or the fresh problem"""
        e0, idx = e, None
        if e[0] == "idx" and e[1][0] == "ld":
            idx, e = e[3], e[1][1]
        elif e[0] == "ld":
            idx, e = ("c", 0), e[1]
        else:
            e = strip0(e)
        if e[0] != "fld" or e[2] != PROB:
            return None
        if e[1] == self.src:
            return "s", e[3], idx
        if fresh_base(self.P, self.G, e[1]):
            return "f", e[3], idx
        return None

    def same_len(self, e, f):
        want = LENGTH.get(f)
        if e[0] == "ld":
            s = strip0(e[1])
            if s[0] == "fld" and s[2] == PROB and (s[1] == self.src or fresh_base(self.P, self.G, s[1])):
                return s[3] == want
        return False

    def effect(self, i):
        """(field, 'copy'|'elem'|'other', index) of an instruction, or None"""
        P, G = self.P, self.G
        if i.op == "store":
            t = self.side(P.expr(G, i.ops[1]))
            if t is None or t[0] != "f":
                return None
            v = P.expr(G, i.ops[0])
            if t[2] is None:
                if v[0] == "ld":
                    s = self.side(v[1])
                    if s and s[0] == "s" and s[1] == t[1] and s[2] is None:
                        return t[1], "copy", None
                    if s and s[0] == "f" and s[1] == t[1]:
                        return None     # back to itself
                if is_local(i.ops[0]):
                    d = G.defs.get(i.ops[0])
                    while d is not None and d.op == "bitcast":
                        d = G.defs.get(d.ops[0])
                    if d is not None and d.op == "call" and self.dup_call(d, t[1]):
                        return t[1], "copy", None
                    if d is not None and d.op in ("phi", "select"):
                        ops = d.ops if d.op == "phi" else d.ops[1:]
                        good = True
                        for o in ops:
                            q = G.defs.get(o) if is_local(o) else None
                            if is_zero(o) or (q is not None and q.op == "call" and self.dup_call(q, t[1])):
                                continue
                            good = False
                        if good and self.null_phi(d, t[1]):
                            return t[1], "copy", None
                if t[1] == "problem_name" and fresh_base(P, G, v) and self.wraps:
                    return t[1], "copy", None       # a wrapper composes its own name
                return t[1], "other", None
            if v[0] == "ld":
                s = self.side(v[1])
                if s and s[0] == "s" and s[1] == t[1] and s[2] == t[2]:
                    return t[1], "elem", t[2]
            return t[1], "other", None
        if i.op == "call":
            c = ext_name(P.callee(i) or "")
            if c in ("memcpy", "memmove"):
                a = P.args(i)
                d, s = P.expr(G, a[0]), P.expr(G, a[1])
                if s == self.src and fresh_base(P, G, d):
                    return "*", "copy", None
                t, u = self.side(d), self.side(s)
                if t and t[0] == "f":
                    if u and u[0] == "s" and u[1] == t[1]:
                        if t[2] is None:
                            return t[1], "copy", None
                        n = P.expr(G, a[2])
                        if t[2] == ("c", 0) and u[2] == ("c", 0) and n[0] == "mul" and ("c", 8) in n[1:] and \
                                any(isinstance(x, tuple) and self.same_len(x, t[1]) for x in n[1:]):
                            return t[1], "copy", None
                        if n[0] == "shl" and n[2] == ("c", 3) and self.same_len(n[1], t[1]):
                            return t[1], "copy", None
                    return t[1], "other", None
        return None

    def dup_call(self, d, f):
        """a fresh duplicate of the source's field, of full length"""
        P, G = self.P, self.G
        c = P.callee(d)
        if c not in allocators(P):
            return False
        got = False
        for k, a in enumerate(P.args(d)):
            e = P.expr(G, a)
            if e[0] == "ld":
                s = self.side(e[1])
                if s and s[0] == "s" and s[1] == f and s[2] is None:
                    got = True
                    continue
                if self.same_len(e, f):
                    continue
                return False
            st = P.string(a) if isinstance(a, str) and a.startswith("@") else None
            if st == "%s":
                continue
            return False
        return got

    def null_phi(self, d, f):
        """the null alternative is only taken where the source's field is null"""
        G = self.G
        if d.op == "select":
            c = G.defs.get(d.ops[0]) if is_local(d.ops[0]) else None
            n = self.null_test(c)
            return n is not None and n[0] == f and is_zero(d.ops[1] if n[1] else d.ops[2]) and \
                not is_zero(d.ops[2] if n[1] else d.ops[1])
        home = next(b for b in G.order if d in G.blocks[b].instrs)
        for o, bb in zip(d.ops, d.x["bbs"]):
            if is_zero(o) and self.null_edge(bb, home) != f and \
                    not (G.blocks[bb].preds and all(self.null_edge(p, bb) == f for p in G.blocks[bb].preds)):
                return False
        return True

    def null_test(self, c):
        """(field of the source, null when true) of a comparison"""
        if c is None or c.op != "icmp" or c.x["pred"] not in ("eq", "ne"):
            return None
        a, z = c.ops
        if is_zero(a):
            a, z = z, a
        if not is_zero(z):
            return None
        e = self.P.expr(self.G, a)
        u = self.side(e[1]) if e[0] == "ld" else None
        if not u or u[0] != "s" or u[2] is not None or u[1] not in LENGTH:
            return None
        return u[1], c.x["pred"] == "eq"

    def null_edge(self, b, s):
        """field of the source known to be null on the edge b -> s"""
        t = self.G.blocks[b].term
        if t.op != "br" or "c" not in t.x or t.x["t"] == t.x["f"]:
            return None
        c = self.G.defs.get(t.ops[0]) if is_local(t.ops[0]) else None
        n = self.null_test(c)
        if n is None:
            return None
        return n[0] if (s == t.x["t"]) == n[1] else None

    def loop(self, L):
        P, G = self.P, self.G
        elems = {}
        for b in L.body:
            for i in G.blocks[b].instrs:
                e = self.effect(i)
                if e and e[1] == "elem":
                    elems.setdefault(e[0], []).append((b, e[2]))
        for f, es in elems.items():
            for name, tb in full_range(L, lambda x, f=f: self.same_len(x, f)):
                blocks = {b for b, ix in es if ix == ("v", name) or ix == P.expr(G, name)}
                if blocks and self.must(L, blocks, f):
                    self.lgen.setdefault((tb, f), L)
                    break

    def must(self, L, blocks, f):
        seen, st = set(), [L.header]
        while st:
            x = st.pop()
            if x in seen or x in blocks:
                continue
            seen.add(x)
            if x in L.latches:
                return False
            for s in self.G.blocks[x].succs:
                if s in L.body and s != L.header and self.null_edge(x, s) != f:
                    st.append(s)
        return True

    def solve(self):
        P, G = self.P, self.G
        full = frozenset(self.fields)
        IN = {b: None for b in G.order}
        IN[G.order[0]] = frozenset()
        work = [G.order[0]]
        self.rets = []
        OUT = {}
        while work:
            b = work.pop()
            st = set(IN[b])
            for i in G.blocks[b].instrs:
                e = self.effect(i)
                if not e:
                    continue
                if e[0] == "*":
                    st |= {f for f in full if f not in LENGTH and f not in ("problem_name", "problem_id", "problem_type")}
                elif e[1] == "copy":
                    st.add(e[0])
                    self.why.setdefault(e[0], P.where(i))
                elif e[1] == "other":
                    st.discard(e[0])
                    self.kills.setdefault(e[0], []).append(P.where(i))
            OUT[b] = frozenset(st)
            for s in G.blocks[b].succs:
                o = set(st)
                nf = self.null_edge(b, s)
                if nf:
                    o.add(nf)
                for (h, f), L in self.lgen.items():
                    if h == b and s not in L.body:
                        o.add(f)
                        self.why.setdefault(f, "loop")
                o = frozenset(o)
                n = o if IN[s] is None else IN[s] & o
                if n != IN[s]:
                    IN[s] = n
                    work.append(s)
        self.final = None
        for b in G.order:
            if IN[b] is not None and G.blocks[b].term.op == "ret":
                r = G.blocks[b].term
                if r.ops and is_zero(r.ops[0]):
                    continue
                self.final = OUT[b] if self.final is None else self.final & OUT[b]


@rule("C23", "forward must-copy dataflow over the duplicating constructor + who-may-write query over the call graph",
      "Every problem field that a public function reads is followed through the function that duplicates a problem for "
      "wrapping: on every path to its return the fresh problem's field holds the source's value (scalar copy, text or "
      "vector duplicate of full length, elementwise loop over the full range), unless the source's field is null. "
      "Code reachable from evaluating, recommending, observing and the getters is searched for stores to these fields "
      "of a problem it did not itself allocate.",
      ["function pointers are only stored through the struct slots resolved by the call graph",
       "no store through an unrelated type aliases problem fields"])
def c23(ck):
    P = ck.P
    obs = fields_read(P) - NOT_META
    ck.count("observable problem fields", len(obs))
    ck.need("observable problem fields", 15)
    D = duplicators(P)
    ck.count("duplicating constructors", len(D))
    ck.need("duplicating constructors", 1)
    observers = set(P.slot("struct.coco_observer_s", "logger_allocate_function"))
    for G, src in D:
        ck.count("observers' wrappers", 1 if G.name in observers else 0)
        want = obs if G.name in observers or not wrapping(P, G) else obs & IDENTITY
        C = Copy(P, G, src, want)
        if C.final is None:
            raise AnalysisError("%s never returns a problem" % G.name)
        for f in sorted(want):
            ck.count("field copies decided")
            if f in C.final:
                ck.sample("%s: %s carried over (%s)" % (G.name, f, C.why.get(f, "")))
            else:
                w = (C.kills.get(f) or [G.name])[-1]
                ck.violation("lost:%s:%s" % (G.name, f), w,
                             "%s returns a problem whose %s is not, on every path, that of the problem it duplicates: "
                             "a wrapped or observed problem reports something else" % (G.name, f),
                             C.kills.get(f, []))
    stores(ck, P, obs)
    getters(ck, P)


def carried(ck, P, fields):
    """the given fields survive duplication (for the rules that rely on it)"""
    for G, src in duplicators(P):
        if wrapping(P, G):
            continue
        C = Copy(P, G, src, fields)
        for f in sorted(fields):
            ck.count("fields carried over by %s" % G.name)
            if f not in (C.final or ()):
                ck.violation("lost:%s:%s" % (G.name, f), (C.kills.get(f) or [G.name])[-1],
                             "%s: the %s of the problem it duplicates is lost on wrapping or observing" % (G.name, f))


def stores(ck, P, obs):
    """nothing reachable from using a problem stores to its metadata"""
    fixed = (obs | {"suite"}) - RUNNING
    suites = {n for n, F in P.F.items() if not F.internal and n.startswith("coco_suite")}
    made = {t for t in P.slot(PROB, "problem_free_function")}
    ends = {n for n, F in P.F.items() if any(P.callee(i) is None and (lambda s: s and s[1] == "problem_free_function")(
        callee_slot(P, F, i)) for i in F.instrs() if i.op == "call")}
    roots = [n for n, F in P.F.items() if not F.internal and n not in suites and n not in ends and
             n.startswith(("coco_problem", "coco_evaluate", "coco_recommend", "coco_archive", "coco_is_", "bbob_")) and
             any(p[0] == "ptr" for p in F.params)]
    for s in ("evaluate_function", "evaluate_constraint", "evaluate_gradient", "recommend_solution"):
        roots += [t for t in P.slot(PROB, s) if t in P.F]
    seen = {n for n in P.reach(roots, stop=made | ends | suites) if n in P.F and n not in made | ends | suites}
    ck.count("functions reachable from use of a problem", len(seen))
    ck.need("functions reachable from use of a problem", 60)
    S = Summaries(P)

    def fresh(F, base, depth=0):
        if fresh_base(P, F, base):
            return True
        if depth > 4 or base[0] != "arg" or not F.internal or F.name in P.address_taken:
            return False
        cs = [c for c in P.callers(F.name) if c.fn.name in seen]
        return bool(cs) and all(fresh(c.fn, P.expr(c.fn, P.args(c)[base[1]]), depth + 1) for c in cs)
    for n in sorted(seen):
        F = P.F[n]
        for i in F.instrs():
            sites = []
            if i.op == "store":
                sites.append(P.expr(F, i.ops[1]))
            elif i.op == "call":
                for k, a in enumerate(P.args(i)):
                    if is_local(a) and "W" in S.call_effects(i, k):
                        sites.append(P.expr(F, a))
            for e in sites:
                m = meta(e)
                if m is None or m[3] not in fixed:
                    continue
                ck.count("stores to problem metadata looked at")
                if fresh(F, m[1]):
                    continue
                ck.violation("changed:%s:%s" % (n, m[3]), P.where(i),
                             "%s changes %s of a problem that is already in use" % (n, m[3]))


def meta(e):
    """the problem field an address lies in: the field itself or an element of the vector or text it points to"""
    el = False
    while True:
        if e[0] == "idx":
            e = e[1]
        elif e[0] == "ld":
            if el:
                return None
            el = True
            e = e[1]
        elif e[0] == "fld":
            return e if e[2] == PROB else None
        else:
            return None


# ------------------------------------------------------------------------------------------------ getters of C23
GETTERS = {"coco_problem_get_dimension": "number_of_variables",
           "coco_problem_get_number_of_objectives": "number_of_objectives",
           "coco_problem_get_number_of_constraints": "number_of_constraints",
           "coco_problem_get_number_of_integer_variables": "number_of_integer_variables",
           "coco_problem_get_smallest_values_of_interest": "smallest_values_of_interest",
           "coco_problem_get_largest_values_of_interest": "largest_values_of_interest",
           "coco_problem_get_largest_fvalues_of_interest": "nadir_value",
           "coco_problem_get_id": "problem_id", "coco_problem_get_name": "problem_name",
           "coco_problem_get_type": "problem_type", "coco_problem_get_suite_dep_index": "suite_dep_index",
           "coco_problem_is_tainted": "is_tainted", "coco_problem_get_evaluations": "evaluations",
           "coco_problem_get_evaluations_constraints": "evaluations_constraints"}
FIRST = {"coco_problem_get_best_observed_fvalue1": "best_observed_fvalue", "coco_problem_get_best_value": "best_value"}


def leaves(F, v, seen=None):
    seen = set() if seen is None else seen
    if is_local(v):
        if v in seen:
            return set()
        seen.add(v)
        d = F.defs.get(v)
        if d is not None and d.op in ("phi", "select"):
            out = set()
            for o in (d.ops if d.op == "phi" else d.ops[1:]):
                out |= leaves(F, o, seen)
            return out
    return {v}


def getters(ck, P):
    for g, f in sorted({**GETTERS, **FIRST}.items()):
        F = P.F.get(g)
        if F is None:
            continue
        G = P.inline(g, lambda c: P.F[c].internal and c not in P.address_taken)
        for i in G.instrs():
            if i.op != "ret" or not i.ops:
                continue
            ck.count("getter returns")
            for v in leaves(G, i.ops[0]):
                e = P.expr(G, v)
                if g in FIRST and e[0] == "ld" and e[1][0] == "idx" and e[1][3] == ("c", 0):
                    e = e[1][1]
                elif g in FIRST and e[0] == "ld":
                    e = e[1]
                F0 = ("fld", ("arg", 0), PROB, f)
                if e not in ((F0, ("ld", F0)) if g in FIRST else (("ld", F0),)):
                    ck.violation("getter:%s" % g, P.where(i), "%s may return something else than the problem's %s" % (g, f))
    ck.need("getter returns", 10)


# ------------------------------------------------------------------------------------------------ C24
@rule("C24", "path-sensitive typestate on LLVM IR + who-may-write query",
      "Every public function that hands the stored optimum to its caller is explored along all feasible paths: where "
      "the optimum is written out, the problem's taint mark is set before the return. The mark is only ever set to a "
      "nonzero constant, copied from the wrapped problem, or cleared on a freshly allocated problem. In the evaluation "
      "function of the bbob observer every path that reaches the evaluation of the wrapped problem has found both "
      "marks (its own and the wrapped problem's) clear.",
      ["function pointers are only stored through the struct slots resolved by the call graph"])
def c24(ck):
    P = ck.P
    T = lambda b: ("ld", ("fld", b, PROB, "is_tainted"))
    # who may write the mark
    for n, F in P.F.items():
        for i in F.instrs():
            if i.op != "store":
                continue
            a = strip0(P.expr(F, i.ops[1]))
            if a[0] != "fld" or a[2] != PROB or a[3] != "is_tainted":
                continue
            ck.count("writes of the taint mark")
            v = P.expr(F, i.ops[0])
            if v[0] == "c" and v[1] != 0:
                continue
            if fresh_base(P, F, a[1]) and (v == ("c", 0) or (v[0] == "ld" and v[1][0] == "fld" and v[1][3] == "is_tainted")):
                continue
            if constructs(P, F, a[1]) and (v == ("c", 0) or (v[0] == "ld" and v[1][0] == "fld" and v[1][3] == "is_tainted")):
                continue
            if v == ("ld", a) or (v[0] == "or" and ("ld", a) in v[1:]):
                continue
            ck.violation("mark:%s" % n, P.where(i), "%s may clear the taint mark of a problem in use" % n)
    ck.need("writes of the taint mark", 2)
    carried(ck, P, {"is_tainted"})
    # handing out the optimum
    S = Summaries(P)
    for n, F in sorted(P.F.items()):
        if F.internal:
            continue
        outs = [k for k, p in enumerate(F.params) if p[0] == "ptr"]
        if len(outs) < 1 or n.startswith("coco_suite"):
            continue
        if not n.startswith("coco_problem"):
            continue
        G = P.inline(n, lambda c: P.F[c].internal and c not in P.address_taken and
                     len(list(P.F[c].instrs())) < 120 and c not in noreturn_set(P))
        sites = []
        for i in G.instrs():
            if i.op == "store":
                v = P.expr(G, i.ops[0])
                a = P.expr(G, i.ops[1])
                if from_best(v) and rooted_out(a):
                    sites.append(i)
            elif i.op == "call" and ext_name(P.callee(i) or "") in ("memcpy", "memmove"):
                a = P.args(i)
                if from_best(("ld", P.expr(G, a[1]))) and rooted_out(P.expr(G, a[0])):
                    sites.append(i)
            elif i.op == "ret" and i.ops and isinstance(i.ops[0], str):
                if any(is_best(P.expr(G, v)) for v in leaves(G, i.ops[0]) if isinstance(v, str)):
                    sites.append(i)
        if not sites:
            continue
        ck.count("functions handing out the optimum")
        ids = set(map(id, sites))

        def tr(ins, st, ctx):
            leak, mark = st
            if ins.op == "store":
                a = strip0(P.expr(G, ins.ops[1]))
                if a[0] == "fld" and a[2] == PROB and a[3] == "is_tainted" and a[1][0] == "arg":
                    mark = 1 if (isinstance(ins.ops[0], int) and ins.ops[0] != 0) else 0
            if id(ins) in ids:
                leak = 1
            return (leak, mark)
        R = explore(P, G, [(0, 0)], tr)
        ck.count("paths_states", R.nodes)
        for ret, st, node, facts in R.exits:
            if st[0] and not st[1]:
                ck.violation("leak:%s" % n, P.where(ret), "%s can return with the optimum handed out and the problem "
                             "not marked as tainted" % n, path_of(P, G, R, node))
    ck.need("functions handing out the optimum")
    # the bbob observer refuses tainted problems
    obs = sorted(P.slot("struct.coco_observer_s", "logger_allocate_function"))
    pick = [o for o in obs if o == "logger_bbob"]
    if not pick:
        pick = [o for o in obs if any(tests_taint(P, e) for e in installed(P, o))]
    if not pick:
        ck.violation("refuse", "src/logger_bbob.c", "no observer refuses to evaluate a tainted problem")
    for o in pick:
        for ev in sorted(installed(P, o)):
            G = P.inline(ev, lambda c: P.getter(c) is not None or
                         (P.F[c].internal and c not in P.address_taken and helper_taint(P, c)))
            ck.count("observer evaluation functions")
            inner = ("ld", ("fld", ("ld", ("fld", ("arg", 0), PROB, "data")), TDATA, "inner_problem"))
            hits = []

            def disp(ins):
                if ins.op != "call":
                    return False
                if P.callee(ins) == "coco_evaluate_function":
                    return True
                s = callee_slot(P, G, ins)
                return bool(s) and s[0] == PROB and s[1] == "evaluate_function"

            def tr2(ins, st, ctx):
                if disp(ins):
                    b = ctx.resolve(P.expr(G, P.args(ins)[0]))
                    own, inn = ctx.facts.get(("=", T(("arg", 0)))), ctx.facts.get(("=", T(b)))
                    for c in combos(b):
                        if ctx.facts.get(("=", c)) == 0:
                            own = inn = 0
                    hits.append((ins, own, inn, b))
                    ck.count("evaluations of observed problems")
                    if own != 0 or inn != 0:
                        return 1
                return None
            def combos(b):
                x, y = T(("arg", 0)), T(b)
                return [("or", x, y), ("or", y, x), ("add", x, y), ("add", y, x)]
            R = explore(P, G, [0], tr2, keep={T(("arg", 0)), T(inner)} | set(combos(inner)))
            for ins, own, inn, b in hits:
                if own != 0 or inn != 0:
                    ck.violation("refuse:%s:%s" % (ev, "own" if own != 0 else "wrapped"), P.where(ins),
                                 "%s can evaluate the problem without having found %s taint mark clear" %
                                 (ev, "its own" if own != 0 else "the wrapped problem's"))
    if pick:
        ck.need("evaluations of observed problems")


def is_best(e):
    return e[0] == "ld" and strip0(e[1])[0] == "fld" and strip0(e[1])[2] == PROB and strip0(e[1])[3] == "best_parameter"


def from_best(v):
    if v[0] != "ld":
        return False
    a = v[1]
    if a[0] == "idx":
        a = a[1]
    return is_best(a)


def rooted_out(a):
    """memory of the caller: an element of a pointer argument"""
    while a[0] == "idx":
        a = a[1]
    return a[0] == "arg"


def installed(P, alloc):
    G = P.inline(alloc, lambda c: P.F[c].internal and c not in P.address_taken and len(list(P.F[c].instrs())) < 150)
    last = {}
    for i in G.instrs():
        if i.op == "store":
            s = P.slot_of_addr(G, i.ops[1])
            if s == ("f", PROB, "evaluate_function"):
                for t in P.fnset(G, i.ops[0]):
                    if t in P.F and t != "coco_problem_transformed_evaluate_function":
                        last[t] = i
    return set(last)


def tests_taint(P, e):
    return helper_taint(P, e)


def helper_taint(P, c, depth=0):
    F = P.F[c]
    for i in F.instrs():
        if i.op == "load" and P.slot_of_addr(F, i.ops[0]) == ("f", PROB, "is_tainted"):
            return True
        if depth < 3 and i.op == "call" and P.callee(i) in P.F and \
                (P.F[P.callee(i)].internal or P.getter(P.callee(i)) is not None) and P.callee(i) != c and helper_taint(P, P.callee(i), depth + 1):
            return True
    return False
