"""C13: problem index <-> (function, dimension, instance) positions; lookups; order of the iteration."""
from ..build import AnalysisError
from ..check import rule
from ..core import is_local, dominators, dominates
from ..esp import explore, noreturn_set
from ..util import path_of

SU, PR = "struct.coco_suite_s", "struct.coco_problem_s"
NF, ND, NI = ("n", "functions"), ("n", "dimensions"), ("n", "instances")


# ---- polynomials over counts, parameters and quotients div(x, W) = floor(x / W), W a monomial -------------------
class Poly(dict):
    """{monomial (sorted tuple of atoms): coefficient}"""

    def __add__(self, o):
        r = Poly(self)
        for m, c in o.items():
            r[m] = r.get(m, 0) + c
            if not r[m]:
                del r[m]
        return r

    def __mul__(self, o):
        r = Poly()
        for m, c in self.items():
            for n, d in o.items():
                k = tuple(sorted(m + n, key=repr))
                r[k] = r.get(k, 0) + c * d
                if not r[k]:
                    del r[k]
        return r

    def scale(self, k):
        return Poly({m: c * k for m, c in self.items() if c * k})

    def known(self):
        return not any(a[0] == "v" for m in self for a in m)

    def show(self):
        def at(a):
            return {"n": "|%s|" % a[1]}.get(a[0]) if a[0] == "n" else \
                "parameter %s" % a[1] if a[0] == "arg" else \
                "(%s / %s)" % (at(a[1]), "*".join(at(x) for x in a[2])) if a[0] == "div" else "?"
        return " + ".join(("%d*" % c if c != 1 else "") + ("*".join(at(a) for a in m) or "1")
                          for m, c in sorted(self.items(), key=repr)) or "0"


def const(k):
    return Poly({(): k}) if k else Poly()


def atom(a):
    return Poly({(a,): 1})


def mono(p):
    """the monomial of a polynomial with a single term of coefficient 1 made of counts only"""
    if len(p) == 1:
        (m, c), = p.items()
        if c == 1 and m and all(a[0] == "n" for a in m):
            return m
    return None


def mdiv(m, d):
    """monomial quotient m / d or None"""
    m = list(m)
    for a in d:
        if a not in m:
            return None
        m.remove(a)
    return tuple(m)


def mul_m(m, d):
    return tuple(sorted(m + d, key=repr))


def as_div(p):
    """(x, W) if p is floor(x / W) for a parameter x"""
    if len(p) == 1:
        (m, c), = p.items()
        if c == 1 and len(m) == 1:
            a = m[0]
            if a[0] == "arg":
                return a, ()
            if a[0] == "div":
                return a[1], a[2]
    return None


def dv(x, W):
    return atom(("div", x, W)) if W else atom(x)


def divide(p, q):
    """floor(p / q) in normal form, or None"""
    W = mono(q)
    if W is None:
        return None
    d = as_div(p)
    if d:
        return dv(d[0], mul_m(d[1], W))
    # a digit div(x, V) - R*div(x, V*R): dividing by a divisor of R leaves a digit
    if len(p) == 2:
        pos = [m for m, c in p.items() if c == 1]
        neg = [m for m, c in p.items() if c == -1]
        if len(pos) == 1 and len(neg) == 1 and len(pos[0]) == 1:
            d = as_div(Poly({pos[0]: 1}))
            dd = [a for a in neg[0] if a[0] == "div"]
            if d and len(dd) == 1 and dd[0][1] == d[0]:
                R = mdiv(dd[0][2], d[1])
                if R is not None and mdiv(neg[0], (dd[0],)) == tuple(sorted(R, key=repr)):
                    rest = mdiv(R, W)
                    if rest is not None:
                        return dv(d[0], mul_m(d[1], W)) + (Poly({rest: 1}) if rest else const(1)) * \
                            dv(d[0], mul_m(mul_m(d[1], W), rest)).scale(-1)
    # the digits below a weight vanish
    keep, drop = Poly(), Poly()
    for m, c in p.items():
        r = mdiv(m, W)
        if r is not None:
            keep[r] = c
        else:
            drop[m] = c
    if not drop:
        return keep
    return None


def norm(P, F, v, depth=0):
    """polynomial of an SSA value"""
    if isinstance(v, int):
        return const(v)
    if not is_local(v) or depth > 40:
        return atom(("v", F.name, v))
    if v in F.argidx:
        return atom(("arg", F.argidx[v]))
    d = F.defs.get(v)
    if d is None:
        return atom(("v", F.name, v))
    if d.op == "load":
        e = P.expr(F, d.ops[0])
        if e[0] == "fld" and e[2] == SU and e[3].startswith("number_of_"):
            return atom(("n", e[3][10:]))
        return atom(("v", F.name, v))
    if d.op in ("zext", "sext", "trunc", "freeze"):
        return norm(P, F, d.ops[0], depth + 1)
    if d.op in ("add", "sub", "mul", "udiv", "urem", "sdiv", "srem"):
        a, b = norm(P, F, d.ops[0], depth + 1), norm(P, F, d.ops[1], depth + 1)
        if d.op == "add":
            return a + b
        if d.op == "sub":
            return a + b.scale(-1)
        if d.op == "mul":
            return a * b
        q = divide(a, b)
        if q is None:
            return atom(("v", F.name, v))
        return q if d.op in ("udiv", "sdiv") else a + (b * q).scale(-1)
    if d.op == "phi":
        s = {o for o in d.ops if o != v}
        if len(s) == 1:
            return norm(P, F, s.pop(), depth + 1)
    return atom(("v", F.name, v))


def inl(P, name):
    from .suites import makers
    nr = noreturn_set(P)
    if not hasattr(P, "_makers"):
        P._makers = makers(P)
    return P.inline(name, lambda c: c in P.F and c not in P._makers and (P.F[c].internal or c in ("coco_suite_encode_problem_index",
                                                                           "coco_suite_get_number_of_problems"))
                    and c not in nr and len(list(P.F[c].instrs())) < 120 and not P.F[c].vararg, maxinstr=20000)


def expect(ck, P, what, got, want, ins, where=None):
    ck.count("formulas")
    if got == want:
        return
    if not got.known():
        ck.count("formulas_undecided")
        ck.notes.append("undecided: %s" % what)
        return
    ck.violation("formula:" + what, where or P.where(ins), "%s is %s, expected %s" % (what, got.show(), want.show()))


def rets(P, F):
    nr = noreturn_set(P)
    out = []

    def walk(v, seen):
        if v in seen:
            return
        seen.add(v)
        d = F.defs.get(v) if is_local(v) else None
        if d is not None and d.op == "phi":
            for o, bb in zip(d.ops, d.x["bbs"]):
                if any(i.op == "call" and P.callee(i) in nr for i in F.blocks[bb].instrs):
                    continue
                walk(o, seen)
        else:
            out.append(v)
    for b in F.order:
        i = F.blocks[b].instrs[-1]
        if i.op == "ret" and i.ops:
            if any(j.op == "call" and P.callee(j) in nr for j in F.blocks[b].instrs):
                continue
            walk(i.ops[0], set())
    return out


def bound(P, F, blk, v, dom):
    """set of monomials/polys B with v < B established by dominating branches at block blk"""
    out = []
    for b in F.order:
        t = F.blocks[b].instrs[-1]
        if t.op != "br" or not t.ops or not is_local(t.ops[0]):
            continue
        d = F.defs.get(t.ops[0])
        if d is None or d.op != "icmp":
            continue
        for side, tgt in ((True, t.x["t"]), (False, t.x["f"])):
            other = t.x["f"] if side else t.x["t"]
            if tgt == other or not dominates(dom, tgt, blk) or len([p for p in F.order if tgt in F.blocks[p].succs]) != 1:
                continue
            a, b2 = norm(P, F, d.ops[0]), norm(P, F, d.ops[1])
            pr = d.x["pred"]
            if not side:
                pr = {"ult": "uge", "uge": "ult", "ugt": "ule", "ule": "ugt", "slt": "sge", "sge": "slt", "sgt": "sle",
                      "sle": "sgt", "eq": "ne", "ne": "eq"}[pr]
            for x, y, p in ((a, b2, pr), (b2, a, {"ult": "ugt", "ugt": "ult", "ule": "uge", "uge": "ule", "slt": "sgt",
                                                 "sgt": "slt", "sle": "sge", "sge": "sle"}.get(pr, pr))):
                if x == v:
                    if p in ("ult", "slt"):
                        out.append(y)
                    elif p in ("ule", "sle"):
                        out.append(y + const(1))
                    else:
                        out.append(None)
    return out


GET = {"coco_suite_get_function_from_function_index": "functions",
       "coco_suite_get_dimension_from_dimension_index": "dimensions",
       "coco_suite_get_instance_from_instance_index": "instances"}


@rule("C13",
      "algebraic normal form of the index arithmetic (polynomials over the list lengths and floor quotients), dominating "
      "bounds checks, and path-sensitive typestate of the iteration",
      "The formulas that number a suite's problems are extracted from the IR and brought to a normal form in which equal "
      "means equal for all lengths: total = |functions|*|dimensions|*|instances|, encode is the mixed-radix number with "
      "the instance running fastest, decode returns exactly its digits and is guarded by the total, every problem carries "
      "the index it was created for, the position getters look up their own list inside its bounds, and the iteration "
      "advances instance, function, dimension in this order and ends exactly when all three are exhausted.",
      ["products of the list lengths do not overflow size_t"])
def c13(ck):
    P = ck.P
    total = atom(NF) * atom(ND) * atom(NI)
    # number of problems
    F = inl(P, "coco_suite_get_number_of_problems")
    for v in rets(P, F):
        expect(ck, P, "coco_suite_get_number_of_problems", norm(P, F, v), total, F.defs.get(v))
    # encode
    F = inl(P, "coco_suite_encode_problem_index")
    enc = lambda f, d, i: i + f * atom(NI) + d * atom(NI) * atom(NF)
    for v in rets(P, F):
        expect(ck, P, "coco_suite_encode_problem_index", norm(P, F, v),
               enc(atom(("arg", 1)), atom(("arg", 2)), atom(("arg", 3))), F.defs.get(v))
    decode(ck, P, total)
    # getters
    for n, l in GET.items():
        if n not in P.F:
            continue
        F = inl(P, n)
        dom, _ = dominators(F)
        for v in rets(P, F):
            ck.count("lookups")
            d = F.defs.get(v) if is_local(v) else None
            if d is None or d.op != "load":
                if isinstance(v, int):
                    continue
                ck.count("lookups_undecided")
                continue
            e = P.expr(F, d.ops[0])
            ok = e[0] == "idx" and e[1][0] == "ld" and e[1][1][0] == "fld" and e[1][1][2] == SU
            if not ok:
                ck.count("lookups_undecided")
                continue
            g = F.defs.get(d.ops[0])
            ix = norm(P, F, g.ops[1]) if g is not None and g.op == "getelementptr" and len(g.ops) == 2 else None
            if e[1][1][3] != l or (ix is not None and ix.known() and ix != atom(("arg", 1))):
                ck.violation("lookup:" + n, P.where(d), "%s returns an element of '%s' at %s instead of '%s' at the given "
                             "position" % (n, e[1][1][3], ix.show() if ix is not None else "?", l))
                continue
            if ix is not None and ix.known():
                bs = bound(P, F, d.block.name, ix, dom)
                if not any(b is not None and (b == atom(("n", l)) or not b.known()) for b in bs):
                    ck.violation("bound:" + n, P.where(d), "%s reads '%s' at the given position without having checked "
                                 "that it is below number_of_%s" % (n, l, l))
    identity(ck, P, enc)
    cursors(ck, P)
    order(ck, P)
    item_search(ck, P)
    restarts(ck, P)


def decode(ck, P, total):
    n = "coco_suite_decode_problem_index"
    F = inl(P, n)
    dom, _ = dominators(F)
    idx = ("arg", 1)
    want = {2: dv(idx, (NI,)) + (atom(NF) * dv(idx, tuple(sorted((NI, NF), key=repr)))).scale(-1),
            3: dv(idx, tuple(sorted((NI, NF), key=repr))),
            4: atom(idx) + (atom(NI) * dv(idx, (NI,))).scale(-1)}
    what = {2: "function position", 3: "dimension position", 4: "instance position"}
    done = set()
    for b in F.order:
        for i in F.blocks[b].instrs:
            if i.op != "store" or i.ops[1] not in F.argidx or F.argidx[i.ops[1]] not in want:
                continue
            k = F.argidx[i.ops[1]]
            p = norm(P, F, i.ops[0])
            ck.count("decoded")
            if p == Poly():
                # the fallback of an index that is too large (or an initial value): only where idx >= total or overwritten
                continue
            done.add(k)
            expect(ck, P, "decoded " + what[k], p, want[k], i)
            bs = bound(P, F, b, atom(idx), dom)
            ck.count("guards")
            if not any(x is not None and (x == total or not x.known()) for x in bs):
                ck.violation("guard:" + n, P.where(i), "the %s is decoded without having checked that the problem index "
                             "is below the number of problems" % what[k])
    if not done:
        ck.count("decoded_undecided")
    # every output is set on every path
    R = explore(P, F, [frozenset()], lambda ins, st, cx: st | {F.argidx[ins.ops[1]]}
                if ins.op == "store" and ins.ops[1] in F.argidx else None)
    for ins, st, node, facts in R.exits:
        ck.count("decode_paths")
        if not set(want) <= st:
            ck.violation("unset:" + n, P.where(ins), "%s can return without having set the %s" %
                         (n, ", ".join(what[k] for k in sorted(set(want) - st))), path_of(P, F, R, node))


def creators(P):
    """functions (suite, function position, dimension position, instance position) -> problem"""
    from .suites import creator
    return creator(P)


def identity(ck, P, enc):
    cr = creators(P)
    if cr is None:
        raise AnalysisError("problem creation not found")
    # the functions the creation dispatches to
    targets = []
    for i in P.F[cr].instrs():
        if i.op == "call" and P.callee(i) in P.F and len(P.args(i)) == 4 and P.F[P.callee(i)].retty == "ptr":
            targets.append(P.callee(i))
    for t in sorted(set(targets)):
        F = inl(P, t)
        if not any(i.op == "store" for i in F.instrs()):
            continue
        lists = {"suite_dep_function": ("functions", 1), "suite_dep_instance": ("instances", 3)}

        def step(ins, st, cx):
            if ins.op == "store":
                e = P.expr(F, ins.ops[1])
                if e[0] == "fld" and e[2] == PR and e[3].startswith("suite_dep_"):
                    return st | {e[3]}
        for ins in F.instrs():
            if ins.op != "store":
                continue
            e = P.expr(F, ins.ops[1])
            if e[0] != "fld" or e[2] != PR:
                continue
            if e[3] == "suite_dep_index":
                p = norm(P, F, ins.ops[0])
                expect(ck, P, "suite_dep_index in " + t, p, enc(atom(("arg", 1)), atom(("arg", 2)), atom(("arg", 3))), ins)
            elif e[3] in lists:
                ve = P.expr(F, ins.ops[0])
                l, a = lists[e[3]]
                good = ve[0] == "ld" and ve[1][0] == "idx" and ve[1][1][0] == "ld" and ve[1][1][1][0] == "fld" and \
                    ve[1][1][1][3] == l and ve[1][3] == ("arg", a)
                ck.count("identities")
                if not good and ve[0] in ("add", "sub", "mul", "c", "arg", "udiv", "urem") and \
                        returned(P, F, e[1]):
                    ck.violation("identity:%s:%s" % (t, e[3]), P.where(ins), "%s stores in %s something else than the "
                                 "element of the suite's %s the problem was created for" % (t, e[3], l))
        R = explore(P, F, [frozenset()], step)
        for ret, st, node, facts in R.exits:
            v = ret.ops[0] if ret.ops else None
            v = facts.get(("alias", v), v)
            if v in ("null", 0) or facts.get(("=", ("v", v))) == 0:
                continue
            ck.count("creation_paths")
            miss = {"suite_dep_function", "suite_dep_instance", "suite_dep_index"} - st
            if miss:
                ck.violation("identity:%s:missing" % t, P.where(ret), "%s can return a problem without having set %s" %
                             (t, ", ".join(sorted(miss))), path_of(P, F, R, node))


def returned(P, F, base):
    return any(P.expr(F, v) == base for v in rets(P, F))


def cursors(ck, P):
    """a helper that moves a position through a list gets the list, its length and its position"""
    fam = {"functions": "functions", "dimensions": "dimensions", "instances": "instances",
           "number_of_functions": "functions", "number_of_dimensions": "dimensions", "number_of_instances": "instances",
           "current_function_idx": "functions", "current_dimension_idx": "dimensions", "current_instance_idx": "instances"}
    for F in P.F.values():
        for i in F.instrs():
            if i.op != "call" or P.callee(i) not in P.F:
                continue
            fs = {}
            for o in P.args(i):
                e = P.expr(F, o)
                f = None
                if e[0] == "ld" and e[1][0] == "fld" and e[1][2] == SU:
                    f = e[1][3]
                    if f.startswith("current_"):
                        continue                   # a value, not the position itself
                elif e[0] == "fld" and e[2] == SU:
                    f = e[3]
                if f in fam:
                    fs.setdefault(fam[f], []).append(f)
            fields = [f for l in fs.values() for f in l]
            if any(f.startswith("current_") for f in fields) or \
                    (len(fields) == 2 and any(f in ("functions", "dimensions", "instances") for f in fields)
                     and any(f.startswith("number_of") for f in fields)):
                ck.count("list_calls")
                if len(fs) > 1 and len(fields) <= 3:
                    ck.violation("cursor:%s" % F.name, P.where(i), "%s is called with %s, which belong to different lists" %
                                 (P.callee(i), ", ".join(sorted(fields))))


CUR = {"current_instance_idx": "instance", "current_function_idx": "function", "current_dimension_idx": "dimension"}


def movers(P):
    """functions returning whether the position of one list could be advanced: name -> list"""
    out = {}
    for n, F in P.F.items():
        if F.retty != "i32" or len(F.params) != 1:
            continue
        for i in F.instrs():
            if i.op == "call" and P.callee(i) in P.F:
                for o in P.args(i):
                    e = P.expr(F, o)
                    if e[0] == "fld" and e[2] == SU and e[3] in CUR and any(v == i.res for v in rets(P, F)):
                        out[n] = CUR[e[3]]
    return out


def linear(e, base):
    """k if e is base + k (through widening), else None"""
    k = 0
    while e != base:
        if e[0] in ("sext", "zext", "trunc") and len(e) >= 2:
            e = e[1]
        elif e[0] in ("add", "sub") and len(e) == 3 and e[2][0] == "c":
            k += e[2][1] if e[0] == "add" else -e[2][1]
            e = e[1]
        else:
            return None
    return k


def at_end(facts, cur, n):
    """the facts say that the position is that of the last item (or beyond)"""
    for f, v in facts.items():
        if len(f) != 3 or f[0] not in ("eq", "slt", "sle", "ult", "ule"):
            continue
        for x, y, flip in ((f[1], f[2], False), (f[2], f[1], True)):
            a, b = linear(x, cur), linear(y, n)
            if a is None or b is None:
                continue
            low = None              # cur >= n + low
            if f[0] == "eq":
                low = b - a if v else None
            elif not flip and not v:        # not (cur+a < n+b)
                low = b - a + (f[0][1:] == "le")
            elif flip and v:                # n+b < cur+a
                low = b - a + (f[0][1:] == "lt")
            if low is not None and low >= -1:
                return True
    return False


def item_search(ck, P):
    """the search for the next item: passes over filtered-out items only, says 'found' only at an item, and starts again
    at the first item only when the rest of the list is exhausted"""
    fs = {}
    for F in P.F.values():
        for i in F.instrs():
            if i.op != "call" or P.callee(i) not in P.F or P.F[P.callee(i)].retty != "i32":
                continue
            es = [P.expr(F, o) if is_local(o) else ("c", o) for o in P.args(i)]
            c = [k for k, e in enumerate(es) if e[0] == "fld" and e[2] == SU and e[3] in CUR]
            it = [k for k, e in enumerate(es) if e[0] == "ld" and e[1][0] == "fld" and e[1][2] == SU and i.optys[k] == "ptr"]
            nn = [k for k, e in enumerate(es) if e[0] == "ld" and e[1][0] == "fld" and e[1][2] == SU and i.optys[k] != "ptr"]
            if len(c) == len(it) == len(nn) == 1:
                fs[P.callee(i)] = (it[0], nn[0], c[0])
    for f, (it, nn, c) in sorted(fs.items()):
        F = P.F[f]
        cell = ("arg", c)
        cur, n = ("ld", cell), ("arg", nn)
        items = [("ld", P.expr(F, i.ops[0])) for i in F.instrs() if i.op == "load" and
                 (lambda a: a[0] == "idx" and a[1] == ("arg", it) and linear(a[3], cur) == 0)(P.expr(F, i.ops[0]))]
        keep = set(items) | {cur}
        bad, odd = {}, []

        def zero(facts):
            return any(facts.get(("=", x)) == 0 or facts.get(("eq", x, ("c", 0))) is True for x in items)

        def nonzero(facts):
            return any(0 in facts.get(("ne", x), ()) or facts.get(("eq", x, ("c", 0))) is False or
                       facts.get(("=", x)) not in (None, 0) or facts.get(("ult", ("c", 0), x)) is True for x in items)

        def tr(ins, st, ctx):
            if ins.op != "store" or P.expr(F, ins.ops[1]) != cell:
                return None
            v = P.expr(F, ins.ops[0]) if is_local(ins.ops[0]) else ("c", ins.ops[0])
            ck.count("cursor_steps")
            if v[0] == "c":
                if st == "entry" and not at_end(ctx.facts, cur, n):
                    bad.setdefault("restart", (ins, "starts again although it does not stand at the last item"))
                if st == "moved" and not (at_end(ctx.facts, cur, n) and zero(ctx.facts)):
                    bad.setdefault("restart", (ins, "starts again although an item may be left"))
                if v[1] == -1:
                    return "reset"
                if v[1] == 0:
                    return "rmoved"
                bad.setdefault("start", (ins, "starts again at position %s" % v[1]))
                return "rmoved"
            if linear(v, cur) != 1:
                odd.append(ins)
                return None
            if st in ("moved", "rmoved") and not zero(ctx.facts):
                bad.setdefault("skip", (ins, "moves past an item that may not have been filtered out"))
            return {"entry": "moved", "reset": "rmoved"}.get(st, st)
        R = explore(P, F, ["entry"], tr, keep=keep)
        for ret, st, node, facts in R.exits:
            v = ret.ops[0]
            v = facts.get(("alias", v), v)
            ck.count("cursor_returns")
            if v == 1 and not (st == "moved" and nonzero(facts)):
                bad.setdefault("found", (ret, "reports an item where there may be none"))
            elif v == 0 and not (st == "rmoved" and nonzero(facts)):
                bad.setdefault("ended", (ret, "reports the end without standing at the first item again"))
            elif v not in (0, 1):
                odd.append(ret)
        if odd or not items:
            ck.count("cursor_undecided")
            continue
        for k, (ins, msg) in sorted(bad.items()):
            ck.violation("cursor:%s:%s" % (f, k), P.where(ins), "%s %s" % (f, msg))


def mover_of(P, F, i):
    """the list whose position this call advances (it is handed the address of the position)"""
    if i.op != "call" or P.callee(i) not in P.F or P.F[P.callee(i)].retty != "i32":
        return None
    for o in P.args(i):
        e = P.expr(F, o) if is_local(o) else ("c", 0)
        if e[0] == "fld" and e[2] == SU and e[3] in CUR:
            return CUR[e[3]]


RANK = ["instance", "function", "dimension"]


def restarts(ck, P):
    """where an outer position is advanced, all inner ones stand at their first item; a new suite stands before the first
    instance of the first function of the first dimension"""
    nr = noreturn_set(P)
    cr = creators(P)
    memo = {}

    def touches(c, seen=()):
        if c in memo:
            return memo[c]
        if c not in P.F or c in seen:
            return False
        F = P.F[c]
        r = any((i.op == "store" and (lambda a: a[0] == "fld" and a[2] == SU and a[3] in CUR)(P.expr(F, i.ops[1]))) or
                mover_of(P, F, i) or (i.op == "call" and P.callee(i) and touches(P.callee(i), seen + (c,)))
                for i in F.instrs())
        memo[c] = r
        return r
    for name, want_exit in (("coco_suite_get_next_problem", False), ("coco_suite", True)):
        if name not in P.F:
            continue
        F = P.inline(name, lambda c: c in P.F and P.F[c].internal and c not in nr and c != cr and touches(c), maxinstr=20000)
        if not any(mover_of(P, F, i) for i in F.instrs()):
            ck.count("restarts_undecided")
            continue
        bad = {}
        DEAD = ("X", "X", "X")

        def settle(st, facts):
            out = []
            for x in st:
                if isinstance(x, tuple):
                    e = ("v", x[1])
                    v = facts.get(("=", e))
                    if v is None and (0 in facts.get(("ne", e), ()) or facts.get(("eq", e, ("c", 0))) is False):
                        v = 1
                    if v is None and facts.get(("eq", e, ("c", 0))) is True:
                        v = 0
                    if v == 0 and x[0] == "S?":
                        return DEAD     # item_search: from before the first item the search always finds one
                    if v is not None:
                        x = "F" if x[0] == "S?" or not v else "N"
                out.append(x)
            return tuple(out)

        def judge(ins, st):
            ck.count("restart_states")
            st = tuple(x if isinstance(x, str) else "F" if x[0] == "S?" else x[0] for x in st)
            for k in (2, 1):
                if st[k] == "N":
                    for m in range(k):
                        if st[m] not in ("F", "?"):        # "F?": moved on from the first one, found or not
                            bad.setdefault(RANK[m], (ins, "advances the %s without going back to the first %s" % (RANK[k], RANK[m])))
                    return

        def tr(ins, st, ctx):
            if st == DEAD:
                return None
            if ins.op == "store":
                a = P.expr(F, ins.ops[1])
                if a[0] == "fld" and a[2] == SU and a[3] in CUR:
                    k = RANK.index(CUR[a[3]])
                    v = P.expr(F, ins.ops[0]) if is_local(ins.ops[0]) else ("c", ins.ops[0])
                    return st[:k] + ("S" if v == ("c", -1) else "U",) + st[k + 1:]
            if ins.op == "call":
                m = mover_of(P, F, ins)
                if m:
                    k = RANK.index(m)
                    return st[:k] + (("S?" if st[k] == "S" else "F?" if st[k] == "F" else "?", ins.res),) + st[k + 1:]
                if P.callee(ins) == cr and not want_exit:
                    judge(ins, settle(st, ctx.facts))
            return None

        def edge(t, val, st, ctx):
            return settle(st, ctx.facts)
        R = explore(P, F, [("E", "E", "E")], tr, on_edge=edge)
        if want_exit:
            for ret, st, node, facts in R.exits:
                v = ret.ops[0]
                v = facts.get(("alias", v), v)
                if v in (0, "null") or st == DEAD:
                    continue
                ck.count("restart_states")
                st = tuple("F" if x[0] == "S?" else x for x in st)
                for k, good in ((0, "SE"), (1, "F"), (2, "F")):
                    if isinstance(st[k], str) and st[k] not in tuple(good) + ("U",):
                        bad.setdefault("new:" + RANK[k], (ret, "returns a suite that does not stand %s the first %s" % (
                            "before" if k == 0 else "at", RANK[k])))
        for k, (ins, msg) in sorted(bad.items()):
            ck.violation("restart:%s:%s" % (name, k), P.where(ins.origin or ins), "%s %s" % (name, msg))


def order(ck, P):
    """the next problem: instance, then function, then dimension; the end exactly when all are exhausted"""
    mv = movers(P)
    n = "coco_suite_get_next_problem"
    nr = noreturn_set(P)
    def moves(F, i):
        """the list whose position this call advances (it is handed the address of the position)"""
        if i.op != "call" or P.callee(i) not in P.F or P.F[P.callee(i)].retty != "i32":
            return None
        for o in P.args(i):
            e = P.expr(F, o) if is_local(o) else ("c", 0)
            if e[0] == "fld" and e[2] == SU and e[3] in CUR:
                return CUR[e[3]]
    F = P.inline(n, lambda c: c in P.F and P.F[c].internal and c not in nr and c != creators(P) and
                 (c not in mv and any(i.op == "call" and (P.callee(i) in mv or moves(P.F[c], i)) for i in P.F[c].instrs())),
                 maxinstr=20000)
    if not any(moves(F, i) or i.op == "call" and P.callee(i) in mv for i in F.instrs()):
        ck.count("order_undecided")
        return
    cr = creators(P)
    def step(ins, st, cx):
        if ins.op != "call":
            return None
        c = P.callee(ins)
        m = mv.get(c) or moves(F, ins)
        if m:
            rank = ["instance", "function", "dimension"]
            if any(x[0] in rank and rank.index(x[0]) > rank.index(m) for x in st):
                return None                 # the inner position starts again after the outer one was advanced
            return st + ((m, ins.res, None),)
        if c == cr:
            return st + (("create", None, None),)

    def outcome(f, res):
        v = f.get(("=", ("v", res)))
        if v is not None:
            return v != 0
        if 0 in f.get(("ne", ("v", res)), ()):
            return True
        z = f.get(("eq", ("v", res), ("c", 0)))
        return None if z is None else not z

    def edge(t, val, st, cx):
        return tuple((a, r, outcome(cx.facts, r) if o is None and r else o) for a, r, o in st)
    R = explore(P, F, [()], step, on_edge=edge)
    for ins, st, node, facts in R.exits:
        ck.count("iteration_paths")
        seq = [x[0] for x in st if x[0] != "create"]
        where = P.where(ins)
        if seq != ["instance", "function", "dimension"][:len(seq)]:
            ck.violation("order:" + n, where, "%s advances %s: the documented order is instance, function, dimension" %
                         (n, ", ".join(seq) or "nothing"), path_of(P, F, R, node))
            continue
        created = any(x[0] == "create" for x in st)
        if not seq:
            continue
        last = [(x[0], x[2]) for x in st if x[0] != "create"]
        for k, (nm, o) in enumerate(last[:-1]):
            if o is True:
                ck.violation("order:" + n, where, "%s advances the %s although the %s could still be advanced: problems "
                             "are skipped" % (n, last[k + 1][0], nm), path_of(P, F, R, node))
        if last[-1][1] is True and not created:
            ck.violation("end:" + n, where, "%s ends although the %s could be advanced" % (n, last[-1][0]),
                         path_of(P, F, R, node))
        if last[-1][1] is False and created:
            ck.violation("end:" + n, where, "%s creates a problem although the %s is exhausted" % (n, last[-1][0]),
                         path_of(P, F, R, node))
        if last[-1][1] is False and len(last) < 3 and not created:
            ck.violation("end:" + n, where, "%s ends when the %s is exhausted although others are left" %
                         (n, last[-1][0]), path_of(P, F, R, node))
