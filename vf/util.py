"""Helpers shared by the rules: object roles, loops, reachability, lifting."""
import re
from .core import is_local, subexprs, dominators, dominates, memclass_of
from .esp import explore, lines_of_path, noreturn_set
from .build import AnalysisError

PROB = "struct.coco_problem_s"
TDATA = "struct.coco_problem_transformed_data_t"
INF, NAN = ("k", "0x7FF0000000000000"), ("k", "0x7FF8000000000000")


def fld(b, S, f):
    return ("fld", b, S, f)


def ldf(b, S, f):
    return ("ld", ("fld", b, S, f))


def arg(i):
    return ("arg", i)


def callee_slot(P, F, ins):
    """(struct, field, base expr) if ins is an indirect call through a struct slot"""
    c = ins.x["callee"]
    if c.startswith("@"):
        return None
    e = P.expr(F, c)
    if e[0] == "ld" and e[1][0] == "fld":
        return e[1][2], e[1][3], e[1][1]
    return None


class Loop:
    def __init__(self, header, body, latches):
        self.header, self.body, self.latches = header, body, latches
        self.ivs = []       # dicts: phi,init,step,bound,pred,exits_at


def loops(F, P):
    if getattr(F, "_loops", None) is not None:
        return F._loops
    dom, rpo = dominators(F)
    reach = set(rpo)
    byh = {}
    for b in rpo:
        for s in F.blocks[b].succs:
            if dominates(dom, s, b):
                byh.setdefault(s, []).append(b)
    out = []
    for h, latches in byh.items():
        body = {h}
        st = list(latches)
        while st:
            x = st.pop()
            if x in body:
                continue
            body.add(x)
            st.extend(p for p in F.blocks[x].preds if p in reach)
        L = Loop(h, body, latches)
        L.F = F
        for ph in F.blocks[h].instrs:
            if ph.op != "phi":
                break
            init, nxt, ok = None, None, True
            for v, bb in zip(ph.ops, ph.x["bbs"]):
                if bb in body:
                    if nxt is not None and nxt != v:
                        ok = False
                    nxt = v
                else:
                    e = P.expr(F, v)
                    if init is not None and init != e:
                        ok = False
                    init = e
            if not ok or nxt is None or init is None:
                continue
            d = F.defs.get(nxt) if is_local(nxt) else None
            step = None
            if d is not None and d.op in ("add", "sub") and d.ops[0] == ph.res and isinstance(d.ops[1], int):
                step = d.ops[1] if d.op == "add" else -d.ops[1]
                if d.ty in ("i64", "i32") and step >= (1 << 31):
                    step -= 1 << 64
            elif d is not None and d.op == "add" and d.ops[1] == ph.res and isinstance(d.ops[0], int):
                step = d.ops[0]
            if step is None:
                continue
            L.ivs.append({"phi": ph.res, "init": init, "step": step, "next": nxt, "ty": ph.ty})
        # range tests: conditional branches in the loop with one successor outside
        L.exits = []
        for b in body:
            t = F.blocks[b].term
            for s in set(F.blocks[b].succs):
                if s not in body:
                    L.exits.append((b, s))
            if t.op == "br" and "c" in t.x:
                d = F.defs.get(t.ops[0]) if is_local(t.ops[0]) else None
                while d is not None and d.op == "phi" and False:
                    pass
                if d is None or d.op != "icmp":
                    continue
                for iv in L.ivs:
                    a, c, pred = d.ops[0], d.ops[1], d.x["pred"]
                    an, cn = strip_cast(F, a), strip_cast(F, c)
                    if cn in (iv["phi"], iv["next"]):
                        an, cn = cn, an
                        a, c = c, a
                        pred = {"ult": "ugt", "ugt": "ult", "ule": "uge", "uge": "ule", "slt": "sgt", "sgt": "slt",
                                "sle": "sge", "sge": "sle"}.get(pred, pred)
                    if an not in (iv["phi"], iv["next"]):
                        continue
                    intrue = t.x["t"] in body
                    infalse = t.x["f"] in body
                    if intrue == infalse:
                        continue
                    if not intrue:
                        pred = {"ult": "uge", "ugt": "ule", "ule": "ugt", "uge": "ult", "slt": "sge", "sgt": "sle",
                                "sle": "sgt", "sge": "slt", "eq": "ne", "ne": "eq"}[pred]
                    iv.setdefault("tests", []).append((b, pred, P.expr(F, c), an == iv["next"]))
        out.append(L)
    F._loops = out
    F._dom = dom
    return out


def strip_cast(F, v):
    n = 0
    while is_local(v) and n < 6:
        d = F.defs.get(v)
        if d is not None and d.op in ("zext", "sext", "trunc"):
            v = d.ops[0]
            n += 1
            continue
        break
    return v


def full_range(L, bounds):
    """induction variables of L running over exactly 0..bound-1 (bound in `bounds`, a predicate on expr), upward or
    downward; returns list of (phi or next name that is the index, header-exit block)"""
    out = []
    chain, x = set(), L.header
    while x not in chain and x in L.body:
        chain.add(x)
        sc = L.F.blocks[x].succs
        if len(sc) != 1:
            break
        x = sc[0]
    for iv in L.ivs:
        for b, pred, bound, on_next in iv.get("tests", []):
            if iv["step"] == 1 and iv["init"] == ("c", 0):
                if not on_next and pred in ("ult", "slt", "ne") and bounds(bound) and b in chain:
                    out.append((iv["phi"], b))
                elif on_next and pred in ("ult", "slt", "ne") and bounds(bound):
                    out.append((iv["phi"], b))    # do-while form
                elif not on_next and pred in ("ule", "sle") and bound[0] in ("sub", "add") and b in chain:
                    k = bound[2] if bound[0] == "sub" else ("c", -bound[2][1]) if bound[2][0] == "c" else None
                    if k == ("c", 1) and bounds(bound[1]):
                        out.append((iv["phi"], b))
            elif iv["step"] == -1 and bounds(iv["init"]):
                # for (i = n; i-- > 0;) / for (i = n; i > 0; --i) a[i-1]
                if pred in ("ugt", "sgt", "ne") and bound == ("c", 0) and not on_next:
                    out.append((iv["next"], b))
    return out


def is_index(P, F, e, name):
    return e == ("v", name) or e == P.expr(F, name)


def reaches(F, a, b, avoid=()):
    """block b reachable from block a (a itself counts) without entering blocks in avoid"""
    seen, st = set(), [a]
    while st:
        x = st.pop()
        if x in seen or x in avoid:
            continue
        seen.add(x)
        if x == b:
            return True
        st.extend(F.blocks[x].succs)
    return False


def must_pass(F, L, blocks):
    """every path through one iteration (header -> latch) passes one of `blocks`"""
    seen, st = set(), [L.header]
    while st:
        x = st.pop()
        if x in seen or x in blocks:
            continue
        seen.add(x)
        if x in L.latches:
            return False
        for s in F.blocks[x].succs:
            if s in L.body and s != L.header:
                st.append(s)
    return True


def liftable(P, name):
    F = P.F.get(name)
    return F is not None and F.internal and name not in P.address_taken and bool(P.callers(name))


def public_api(P):
    return {n for n, F in P.F.items() if not F.internal}


def lift(P, seeds, judge, base_want=lambda n: False, maxinstr=6000, budget=60000):
    """judge(G) -> list of complaints for the function (with helpers inlined).  A complaint about an internal helper
    that is only called directly is re-judged in its callers with the helper inlined."""
    inl, stuck, own = set(), set(), {}
    work = list(seeds)
    final = {}
    cost, queued = 0, {}
    seedset = set(seeds)
    while work:
        f = work.pop()
        if f in inl:
            continue
        if cost > budget and f not in seedset:
            # used by too much of the library: what was lifted is judged on its own
            stuck |= queued.get(f, set())
            continue
        try:
            G = P.inline(f, lambda c: (c in inl and c not in stuck) or base_want(c), maxinstr=maxinstr)
        except AnalysisError:
            # too many copies: the helpers involved are judged on their own
            todo, hs = [f], set()
            while todo:
                for i in P.F[todo.pop()].instrs():
                    c = P.callee(i) if i.op == "call" else None
                    if c in inl and c not in hs:
                        hs.add(c)
                        todo.append(c)
            if not hs or hs <= stuck:
                raise
            stuck |= hs
            work.append(f)
            continue
        r = judge(G)
        if f not in seedset or queued.get(f):
            cost += sum(len(b.instrs) for b in G.blocks.values())
        if r and liftable(P, f):
            inl.add(f)
            own[f] = (G, r)
            final.pop(f, None)
            for c in P.callers(f):
                queued.setdefault(c.fn.name, set()).add(f)
                if c.fn.name not in work:
                    work.insert(0, c.fn.name)
            continue
        final[f] = (G, r)
    out = {f: v for f, v in final.items() if f not in inl}
    for f in stuck:
        out[f] = own[f]
    return out


def path_of(P, F, R, node):
    return ["%s:%d" % (f.split("/")[-1] if f else "?", l) for f, l in lines_of_path(P, F, R.path(P, node))]


def allocators(P):
    """functions that return fresh memory (malloc family, closed under wrappers returning such a result)"""
    if hasattr(P, "_alloc"):
        return P._alloc
    A = {"malloc", "calloc", "realloc", "strdup"}
    ch = True
    while ch:
        ch = False
        for F in P.F.values():
            if F.name in A or F.retty != "ptr":
                continue
            ok, some = True, False
            for i in F.instrs():
                if i.op == "ret" and i.ops:
                    s = fresh_sources(F, i.ops[0])
                    if s is None:
                        ok = False
                        break
                    for k in s:
                        if k == "null":
                            continue
                        if k in A:
                            some = True
                        else:
                            ok = False
            if ok and some:
                A.add(F.name)
                ch = True
    P._alloc = A
    return A


def fresh_sources(F, v, seen=None):
    """set of callee names / 'null' that the pointer value may come from; None if something else"""
    seen = seen if seen is not None else set()
    if v in ("null", 0):
        return {"null"}
    if not is_local(v):
        return None
    if v in seen:
        return set()
    seen.add(v)
    d = F.defs.get(v)
    if d is None:
        return None
    if d.op in ("phi", "select"):
        r = set()
        for o in (d.ops if d.op == "phi" else d.ops[1:]):
            s = fresh_sources(F, o, seen)
            if s is None:
                return None
            r |= s
        return r
    if d.op == "bitcast":
        return fresh_sources(F, d.ops[0], seen)
    if d.op == "call" and d.x["callee"].startswith("@"):
        return {d.x["callee"][1:].strip('"')}
    return None


def freers(P):
    """functions that do nothing but free their argument 0 (free, coco_free_memory, ...)"""
    if hasattr(P, "_freers"):
        return P._freers
    R = {"free"}
    ch = True
    while ch:
        ch = False
        for F in P.F.values():
            if F.name in R or len(F.params) != 1 or F.params[0][0] != "ptr":
                continue
            calls = [i for i in F.instrs() if i.op == "call"]
            if calls and all(P.callee(i) in R and P.args(i)[0] == F.params[0][1] for i in calls) and \
                    not any(i.op == "store" for i in F.instrs()):
                R.add(F.name)
                ch = True
    P._freers = R
    return R
