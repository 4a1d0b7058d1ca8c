"""C10 objects are completely initialised before anyone can read them."""
from ..check import rule
from ..core import is_local, subexprs, memclass_of
from ..build import AnalysisError
from ..esp import explore
from ..util import allocators, lift, liftable, path_of
from ..flow import Summaries
from .ownership import prep, strip_addr, strip_all, fresh_defs


def raw_allocators(P):
    """functions whose result is always memory as it came from malloc (nothing stored through it)"""
    A = allocators(P)
    out = {"malloc", "realloc"}
    ch = True
    while ch:
        ch = False
        for f in A:
            if f in out or f not in P.F:
                continue
            F = P.F[f]
            ds = []
            for i in F.instrs():
                if i.op == "ret" and i.ops:
                    ds += fresh_defs(F, i.ops[0]) or [None]
            if not ds or not all(d == "null" or (d is not None and P.callee(d) in out) for d in ds) or ds == ["null"]:
                continue
            if any(i.op == "store" for i in F.instrs()) or any(i.op == "call" and (P.callee(i) or "").split(".")[-1].startswith("memset")
                                                               for i in F.instrs()):
                continue
            if any(i.op == "call" and d != "null" and any(is_local(v) and P.expr(F, v) == P.expr(F, d.res) for v in P.args(i))
                   for i in F.instrs() for d in ds):
                continue
            out.add(f)
            ch = True
    return out


def read_fields(P):
    """(struct, field) -> list of (function, load) that read it; address-taken uses count as reads by the callee"""
    out = {}
    for F in P.F.values():
        for i in F.instrs():
            if i.op == "load":
                a = P.expr(F, i.ops[0])
                while a[0] == "idx":
                    a = a[1]
                if a[0] == "fld":
                    out.setdefault((a[2], a[3]), []).append((F, i))
    return out


def base_field(a):
    """strip element indexing inside an embedded array: (fld expr) or None"""
    while a[0] == "idx":
        a = a[1]
    return a if a[0] == "fld" else None


class Init:
    def __init__(self, P, S):
        self.P, self.S, self.memo = P, S, {}

    def sets(self, fn, k, St, f):
        """callee fn initialises field f of the struct its k-th argument points to on every return path"""
        P = self.P
        if fn not in P.F:
            return fn.startswith("llvm.memcpy") and k == 0 or fn in ("memcpy", "memset", "memmove") and k == 0
        key = (fn, k, St, f)
        if key in self.memo:
            return self.memo[key]
        self.memo[key] = False
        F = P.F[fn]
        if not any(self.writes(F, i, ("arg", k), St, f) for i in F.instrs() if i.op in ("store", "call")):
            return False

        def tr(ins, st, ctx):
            if not st and self.writes(F, ins, ("arg", k), St, f, ctx):
                return True
        R = explore(P, F, [False], tr, keep={("arg", k)})
        self.memo[key] = bool(R.exits) and all(st or facts.get(("=", ("arg", k))) == 0 for _, st, _, facts in R.exits)
        return self.memo[key]

    def writes(self, F, ins, base, St, f, ctx=None):
        P = self.P
        rs = (lambda e: ctx.resolve(e)) if ctx else (lambda e: e)
        if ins.op == "store":
            a = base_field(P.expr(F, ins.ops[1]))
            return a is not None and (a[2], a[3]) == (St, f) and rs(a[1]) == base
        if ins.op == "call":
            for k, v in enumerate(P.args(ins)):
                if not is_local(v) or ins.optys[k] != "ptr":
                    continue
                e = rs(P.expr(F, v))
                if e == base:
                    ts = P.targets(ins)
                    if ts and all(self.sets(t, k, St, f) for t in ts):
                        return True
                else:
                    a = base_field(e)
                    if a is not None and (a[2], a[3]) == (St, f) and rs(a[1]) == base and \
                            ("W" in self.S.call_effects(ins, k) or "K" in self.S.call_effects(ins, k)):
                        return True
        return False


@rule("C10", "path-sensitive definite-initialisation analysis of heap objects over LLVM IR with initialisation summaries",
      "For every allocation of a structure, every field that any function reads must have been assigned on every path "
      "before the constructing function returns (helpers that initialise part of the object are summarised; a "
      "constructor helper that leaves a field to its caller is re-judged in its callers); a field left unset under a "
      "flag stored in the same object is accepted only if every read of the field is guarded by that flag.",
      ["array elements are covered only through the field that holds the array"])
def c10(ck):
    P = ck.P
    A, S, Fr = prep(P)
    raw = raw_allocators(P)
    reads = read_fields(P)
    I = Init(P, S)

    def sites(G):
        out = []
        for i in G.instrs():
            if i.op == "call" and i.res and P.callee(i) in raw:
                e = P.expr(G, i.res)
                sts = set()
                for j in G.instrs():
                    for o in j.ops:
                        if is_local(o):
                            for x in subexprs(P.expr(G, o)):
                                if x[0] == "fld" and x[1] == e:
                                    sts.add(x[2])
                    if j.op == "call":
                        for k, v in enumerate(P.args(j)):
                            if is_local(v) and P.expr(G, v) == e:
                                for t in P.targets(j):
                                    if t in P.F:
                                        sts |= {x[2] for m in P.F[t].instrs() for o in m.ops if is_local(o)
                                                for x in [P.expr(P.F[t], o)] if x[0] == "fld" and x[1] == ("arg", k)}
                for St in sts:
                    out.append((i, e, St))
        return out

    def surely_set(G, site, e, St, f):
        """every path from the allocation to a return runs through an assignment of the field, and G does not read it"""
        hit = set()
        for i in G.instrs():
            if i.op == "load":
                a = base_field(P.expr(G, i.ops[0]))
                if a is not None and (a[2], a[3]) == (St, f) and a[1] == e:
                    return False
            elif i.op in ("store", "call") and I.writes(G, i, e, St, f):
                hit.add(i.block.name)
        if not hit:
            return False
        ins = site.block.instrs
        k = ins.index(site)
        if any(i.op in ("store", "call") and I.writes(G, i, e, St, f) for i in ins[k:]):
            return True
        seen, todo = set(), list(site.block.succs)
        while todo:
            b = todo.pop()
            if b in seen or b in hit:
                continue
            seen.add(b)
            if G.blocks[b].term.op == "ret":
                return False
            todo += G.blocks[b].succs
        return True

    def judge(G):
        bad = []
        for site, e, St in sites(G):
            for f, _ in P.di.fields.get(St, ()):
                if (St, f) not in reads:
                    continue
                if surely_set(G, site, e, St, f):
                    continue
                early = []

                def step(ins, st, ctx):
                    if ins is site:
                        return 1
                    if st == 1:
                        if I.writes(G, ins, e, St, f, ctx):
                            return 2
                        if ins.op == "load":
                            a = base_field(P.expr(G, ins.ops[0]))
                            if a is not None and (a[2], a[3]) == (St, f) and ctx.resolve(a[1]) == e:
                                early.append(ins)
                        elif ins.op == "call":
                            for k, v in enumerate(P.args(ins)):
                                if is_local(v) and ins.optys[k] == "ptr" and ctx.resolve(P.expr(G, v)) == e and \
                                        "F" in S.call_effects(ins, k):
                                    return 0
                    return st

                def tr(ins, st, ctx):
                    n, ini = st
                    m = step(ins, n, ctx)
                    if m != 1:
                        ini = frozenset()
                    elif ins.op == "store":
                        a = P.expr(G, ins.ops[1])
                        if a[0] == "fld" and a[1] == e and a[2] == St:
                            ini = frozenset(x for x in ini if x[0] != a[3])
                            c = ctx.const(ins.ops[0])
                            if c is not None:
                                ini |= {(a[3], c)}
                    return (m, ini) if (m, ini) != st else None
                flags = {("ld", ("fld", e, St, g)) for g, _ in P.di.fields[St] if g != f}
                R = explore(P, G, [(0, frozenset())], tr, keep={e} | flags)
                for ins in early:
                    bad.append((site, St, f, ins, None, None, ()))
                for ins, (st, ini), node, facts in R.exits:
                    if st == 1 and facts.get(("=", e)) != 0:
                        fl = [(g, "is", c) for g, c in ini]
                        for k, v in facts.items():
                            if k[0] == "=" and k[1] in flags:
                                fl.append((k[1][1][3], "is", v))
                            elif k[0] == "ne" and k[1] in flags:
                                fl += [(k[1][1][3], "not", c) for c in v]
                        bad.append((site, St, f, ins, R, node, tuple(sorted(set(fl)))))
        return bad
    seeds = [F.name for F in P.F.values() if sites(F)]
    for f in seeds:
        for site, e, St in sites(P.F[f]):
            ck.count("constructions")
            ck.count("fields", sum((St, g) in reads for g, _ in P.di.fields.get(St, ())))
            ck.sample("%s in %s" % (St, f))
    for f, (G, bad) in sorted(lift(P, sorted(seeds), judge, maxinstr=8000, budget=12000).items()):
        seen = set()
        for site, St, g, ins, R, node, fl in bad:
            if (site.res, St, g) in seen:
                continue
            if fl and guarded(P, reads[(St, g)], St, g, fl, f):
                ck.count("guarded_fields")
                continue
            seen.add((site.res, St, g))
            ck.violation("%s:%s.%s" % (f, St, g), P.where(site.origin or site),
                         "%s: %s.%s of the object allocated here is %s" %
                         (f, St, g, "still unset on a path to the end" if node is not None else
                          "read before it is set (%s)" % P.where(ins)),
                         path_of(P, G, R, node) if node is not None else None)
    ck.need("constructions", 40)


def stores_of(P, St, f):
    """(function, instruction) that may change the field: stores, and calls that are given its address"""
    if not hasattr(P, "_fieldstores"):
        d = {}
        for F in P.F.values():
            for i in F.instrs():
                if i.op == "store":
                    xs = [P.expr(F, i.ops[1])] + ([P.expr(F, i.ops[0])] if is_local(i.ops[0]) and i.optys[0] == "ptr" else [])
                elif i.op == "call":
                    xs = [P.expr(F, v) for k, v in enumerate(P.args(i)) if is_local(v) and i.optys[k] == "ptr"]
                elif i.op in ("phi", "select"):
                    xs = [P.expr(F, v) for v in i.ops if is_local(v)] if i.ty == "ptr" else []
                else:
                    continue
                for x in xs:
                    x = base_field(x)
                    if x is not None:
                        d.setdefault((x[2], x[3]), []).append((F, i))
        P._fieldstores = d
    return P._fieldstores.get((St, f), [])


def tops(P, f, stop=()):
    """non-liftable functions from which the internal helper f is reached by direct calls, with the helpers between"""
    seen, todo, out = {f}, [f], set()
    while todo:
        g = todo.pop()
        if not liftable(P, g) or g in stop:
            out.add(g)
            continue
        for c in P.callers(g):
            if c.fn.name not in seen:
                seen.add(c.fn.name)
                todo.append(c.fn.name)
    return out, seen - out


def copies(P, G, k):
    """cells of G that are only ever assigned the value of cell k"""
    by = {}
    for i in G.instrs():
        if i.op == "store":
            by.setdefault(("ld", P.expr(G, i.ops[1])), []).append(i.ops[0])
    return {c for c, vs in by.items() if all(is_local(v) and P.expr(G, v) == k for v in vs)}


def refuted(P, G, ctx, obj, St, fl, cp):
    for h, how, v in fl:
        k = ("ld", ("fld", obj, St, h))
        for q in {k} | cp.get(h, set()):
            c = ctx.econst(q)
            ne = ctx.facts.get(("ne", q), ())
            if how == "is" and ((c is not None and c != v) or v in ne):
                return True
            if how == "not" and c is not None and c == v:
                return True
    return False


def reads_ok(P, rs, St, g, fl, after=(), top_done=()):
    """every read of St.g happens where one of the facts `fl` (under which it is unset) is known to be false, or after
    the field has been assigned in the same call"""
    done = set()
    for F0, ld0 in rs:
        ts, mid = tops(P, F0.name)
        for t in ts:
            if (t, F0.name) in done:
                continue
            done.add((t, F0.name))
            if t in top_done:
                continue
            try:
                G = P.inline(t, lambda c: c in mid, maxinstr=2500)
            except AnalysisError:
                return False
            for ld in G.instrs():
                if ld.op != "load":
                    continue
                a = base_field(P.expr(G, ld.ops[0]))
                if a is None or (a[2], a[3]) != (St, g):
                    continue
                obj, res = a[1], []
                cp = {h: copies(P, G, ("ld", ("fld", obj, St, h))) for h, _, _ in fl}

                def tr(ins, st, ctx):
                    if ins.op == "store" and base_field(P.expr(G, ins.ops[1])) == a:
                        return 1
                    if ins is ld and not st:
                        res.append(refuted(P, G, ctx, obj, St, fl, cp))
                keep = {("ld", ("fld", obj, St, h)) for h, _, _ in fl} | {c for s in cp.values() for c in s}
                explore(P, G, [0], tr, keep=keep)
                if not all(res):
                    return False
    return True


def guarded(P, rs, St, g, fl, ctor):
    memo = P.__dict__.setdefault("_guarded", {})
    k = (St, g, fl, ctor)
    if k not in memo:
        memo[k] = any(memo.get((St, g, x, ctor)) for x in subsets(memo, St, g, fl, ctor)) or _guarded(P, rs, St, g, fl, ctor)
    return memo[k]


def subsets(memo, St, g, fl, ctor):
    return [q[2] for q, v in list(memo.items()) if v and q[0] == St and q[1] == g and q[3] == ctor and set(q[2]) <= set(fl)]


def _guarded(P, rs, St, g, fl, ctor):
    if len({t for F, _ in rs for t in tops(P, F.name)[0]}) > 30:
        return False
    # 1. configuration flags: assigned by the constructor only
    ts, mid = tops(P, ctor)
    local = ts | mid | {ctor}
    const = [x for x in fl if all(F.name in local or called_only_from(P, F.name, local) for F, _ in stores_of(P, St, x[0]))]
    if const:
        # look for a single decisive flag first: it then settles the other paths, too
        for h in sorted({x[0] for x in const}):
            one = tuple(x for x in const if x[0] == h)
            if reads_ok(P, rs, St, g, one):
                P._guarded[(St, g, one, ctor)] = True
                return True
    if const and reads_ok(P, rs, St, g, const):
        return True
    # 2. first-call idiom: a callback E counts its calls in the object and assigns the field on the first one
    for h, how, v in fl:
        if how != "is" or v != 0:
            continue
        st = [(F, i) for F, i in stores_of(P, St, h) if F.name not in local and not called_only_from(P, F.name, local)]
        if not st or not all(is_increment(P, F, i) for F, i in st):
            continue
        es = {t for F, _ in st for t in tops(P, F.name)[0]}
        if len(es) != 1:
            continue
        E = es.pop()
        fmid = set().union(*[tops(P, F.name)[1] for F, _ in st + stores_of(P, St, g)])
        G = P.inline(E, lambda c: c in fmid)
        if not first_call_sets(P, G, St, g, h):
            continue
        # flags that leave their initial value only inside E, too
        side = [x for x in fl if x[1] == "is" and all(tops(P, F.name)[0] == {E} for F, i in stores_of(P, St, x[0])
                                                       if F.name not in local and not called_only_from(P, F.name, local) and
                                                       not (i.op == "store" and i.ops[0] in (x[2], "null" if x[2] == 0 else None)))]
        if reads_ok(P, rs, St, g, side, top_done={E}):
            return True
    return False


def called_only_from(P, f, local):
    return f not in P.address_taken and liftable(P, f) and tops(P, f, stop=local)[0] <= local


def is_increment(P, F, i):
    e = P.expr(F, i.ops[0]) if i.op == "store" and is_local(i.ops[0]) else None
    return e is not None and e[0] == "add" and e[1] == ("ld", P.expr(F, i.ops[1])) and e[2] == ("c", 1)


def first_call_sets(P, G, St, g, h):
    """on every path of G the counter h is incremented once and g is assigned, unless the counter is known not to be 1;
    g is not read before either"""
    incs = [i for i in G.instrs() if i.op == "store" and is_increment(P, G, i) and
            P.expr(G, i.ops[1])[0] == "fld" and P.expr(G, i.ops[1])[2:] == (St, h)]
    if not incs:
        return False
    cell = ("ld", P.expr(G, incs[0].ops[1]))
    ok = []

    def tr(ins, st, ctx):
        n, s = st
        if ins in incs:
            return (n + 1 if n < 2 else n, s)
        a = base_field(P.expr(G, ins.ops[1 if ins.op == "store" else 0])) if ins.op in ("store", "load") else None
        if a is not None and (a[2], a[3]) == (St, g):
            if ins.op == "store":
                return (n, True)
            if not s and not (n == 1 and 1 in ctx.facts.get(("ne", cell), ())):
                ok.append(False)
    R = explore(P, G, [(0, False)], tr, keep={cell})
    for ins, (n, s), node, facts in R.exits:
        if n != 1 or not (s or 1 in facts.get(("ne", cell), ())):
            return False
    return all(ok)
